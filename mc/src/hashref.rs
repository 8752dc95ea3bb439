//! Textbook SHA-2, SHA-3, SHAKE and HMAC: whole-message functions only, so
//! they have no buffering logic to get wrong.

fn primes(n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// floor(frac(p^(1/root)) * 2^64), by integer root extraction.
fn frac_root(p: u64, root: u32) -> u64 {
    // find floor(p^(1/root) * 2^64) as u128 by binary search with wide arithmetic
    let (mut lo, mut hi) = (0u128, 1u128 << 70);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if pow_le(mid, root, p) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

/// mid^root <= p * 2^(64*root) ?
fn pow_le(mid: u128, root: u32, p: u64) -> bool {
    // little-endian u32 limbs
    fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![0u32; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u64;
            for j in 0..b.len() {
                let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + b.len()] = c as u32;
        }
        r
    }
    let m = [mid as u32, (mid >> 32) as u32, (mid >> 64) as u32, (mid >> 96) as u32];
    let mut acc = vec![1u32];
    for _ in 0..root {
        acc = mul(&acc, &m);
    }
    let mut rhs = vec![0u32; 2 * root as usize];
    rhs.push(p as u32);
    rhs.push((p >> 32) as u32);
    let n = acc.len().max(rhs.len());
    acc.resize(n, 0);
    rhs.resize(n, 0);
    for i in (0..n).rev() {
        if acc[i] != rhs[i] {
            return acc[i] < rhs[i];
        }
    }
    true
}

struct K {
    k512: [u64; 80],
    h512: [u64; 8],
    h384: [u64; 8],
}

fn consts() -> &'static K {
    static C: std::sync::OnceLock<K> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let pr = primes(80);
        let mut k = K {
            k512: [0; 80],
            h512: [0; 8],
            h384: [0; 8],
        };
        for i in 0..80 {
            k.k512[i] = frac_root(pr[i], 3);
        }
        for i in 0..8 {
            k.h512[i] = frac_root(pr[i], 2);
            k.h384[i] = frac_root(pr[8 + i], 2);
        }
        k
    })
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let c = consts();
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = (c.h512[i] >> 32) as u32;
    }
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add((c.k512[i] >> 32) as u32)
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

fn sha512_core(init: [u64; 8], msg: &[u8]) -> [u8; 64] {
    let c = consts();
    let mut h = init;
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes());
    for b in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(c.k512[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn sha512(msg: &[u8]) -> [u8; 64] {
    sha512_core(consts().h512, msg)
}

pub fn sha384(msg: &[u8]) -> [u8; 48] {
    sha512_core(consts().h384, msg)[..48].try_into().unwrap()
}

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    // a[x][y]
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho + pi
        let mut x = 1;
        let mut y = 0;
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx][ny];
            a[nx][ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            x = nx;
            y = ny;
        }
        // chi
        for y in 0..5 {
            let r = [a[0][y], a[1][y], a[2][y], a[3][y], a[4][y]];
            for x in 0..5 {
                a[x][y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        // iota
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0][0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}

pub fn keccak(rate: usize, pad: u8, msg: &[u8], out: usize) -> Vec<u8> {
    let mut m = msg.to_vec();
    m.push(pad);
    while m.len() % rate != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for b in m.chunks(rate) {
        for (i, l) in b.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(l.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut o = Vec::new();
    loop {
        for i in 0..rate / 8 {
            o.extend_from_slice(&a[i % 5][i / 5].to_le_bytes());
        }
        if o.len() >= out {
            o.truncate(out);
            return o;
        }
        keccak_f(&mut a);
    }
}

pub fn sha3_256(m: &[u8]) -> [u8; 32] {
    keccak(136, 6, m, 32).try_into().unwrap()
}
pub fn sha3_512(m: &[u8]) -> [u8; 64] {
    keccak(72, 6, m, 64).try_into().unwrap()
}
pub fn shake128(m: &[u8], n: usize) -> Vec<u8> {
    keccak(168, 0x1f, m, n)
}
pub fn shake256(m: &[u8], n: usize) -> Vec<u8> {
    keccak(136, 0x1f, m, n)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    S256,
    S384,
    S512,
}

impl H {
    pub const ALL: [H; 3] = [H::S256, H::S384, H::S512];
    pub fn hash(self, m: &[u8]) -> Vec<u8> {
        match self {
            H::S256 => sha256(m).to_vec(),
            H::S384 => sha384(m).to_vec(),
            H::S512 => sha512(m).to_vec(),
        }
    }
    pub fn block(self) -> usize {
        if self == H::S256 { 64 } else { 128 }
    }
    pub fn len(self) -> usize {
        match self {
            H::S256 => 32,
            H::S384 => 48,
            H::S512 => 64,
        }
    }
    pub fn hmac(self, key: &[u8], m: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > self.block() {
            self.hash(key)
        } else {
            key.to_vec()
        };
        k.resize(self.block(), 0);
        let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        i.extend_from_slice(m);
        let inner = self.hash(&i);
        let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        o.extend_from_slice(&inner);
        self.hash(&o)
    }
}
