//! Reference AEADs: byte-oriented AES with a computed S-box, bit-serial GF(2^128)
//! (used to fill a per-key table), ChaCha20 as in RFC 8439, Poly1305 over plain
//! integers mod 2^130-5.
use crate::mont::*;
use std::sync::OnceLock;

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..=255u8 {
            let inv = (0..=255u8).find(|j| gmul(i, *j) == 1).unwrap_or(0);
            s[i as usize] = inv
                ^ inv.rotate_left(1)
                ^ inv.rotate_left(2)
                ^ inv.rotate_left(3)
                ^ inv.rotate_left(4)
                ^ 0x63;
        }
        s
    })
}

#[derive(Clone)]
pub struct Aes {
    rk: Vec<[u8; 16]>,
    tab: &'static [[[u8; 4]; 256]; 1],
}
fn mixtab() -> &'static [[[u8; 4]; 256]; 1] {
    static T: OnceLock<[[[u8; 4]; 256]; 1]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[[0u8; 4]; 256]; 1];
        for i in 0..256 {
            let s = sbox()[i];
            t[0][i] = [gmul(s, 2), s, s, gmul(s, 3)];
        }
        t
    })
}
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|x| s[x as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect(), tab: mixtab() }
    }
    pub fn enc(&self, b: &mut [u8; 16]) {
        let n = self.rk.len() - 1;
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
        for r in 1..n {
            let mut o = self.rk[r];
            for col in 0..4 {
                for row in 0..4 {
                    let v = self.tab[0][b[(4 * (col + row) + row) % 16] as usize];
                    for k in 0..4 {
                        o[4 * col + k] ^= v[(k + 4 - row) % 4];
                    }
                }
            }
            *b = o;
        }
        let s = sbox();
        let mut o = self.rk[n];
        for col in 0..4 {
            for row in 0..4 {
                o[4 * col + row] ^= s[b[(4 * (col + row) + row) % 16] as usize];
            }
        }
        *b = o;
    }
}

/// GF(2^128) product, GCM bit order, big-endian integers.
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let mut z = 0;
    let mut v = y;
    for i in (0..128).rev() {
        if x >> i & 1 == 1 {
            z ^= v;
        }
        v = (v >> 1) ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
    }
    z
}

pub struct GcmRef {
    pub aes: Aes,
    pub h: u128,
    /// h times every byte value at every byte position
    tab: Vec<[u128; 256]>,
}
impl GcmRef {
    pub fn new(key: &[u8]) -> Self {
        let aes = Aes::new(key);
        let mut b = [0u8; 16];
        aes.enc(&mut b);
        let h = u128::from_be_bytes(b);
        let mut tab = Vec::new();
        // h * x^k for each bit k
        let mut pw = [0u128; 128];
        let mut v = h;
        for p in pw.iter_mut() {
            *p = v;
            v = (v >> 1) ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
        }
        for pos in 0..16 {
            let mut t = [0u128; 256];
            for (byte, o) in t.iter_mut().enumerate() {
                for k in 0..8 {
                    if byte >> (7 - k) & 1 == 1 {
                        *o ^= pw[8 * pos + k];
                    }
                }
            }
            tab.push(t);
        }
        GcmRef { aes, h, tab }
    }
    fn mulh(&self, x: u128) -> u128 {
        let b = x.to_be_bytes();
        (0..16).fold(0, |a, i| a ^ self.tab[i][b[i] as usize])
    }
    fn ghash_add(&self, acc: &mut u128, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            *acc = self.mulh(*acc ^ u128::from_be_bytes(b));
        }
    }
    pub fn ctr(&self, nonce: &[u8; 12], data: &mut [u8]) {
        let mut blk = [0u8; 16];
        blk[..12].copy_from_slice(nonce);
        let mut ctr = 2u32;
        for c in data.chunks_mut(16) {
            let mut b = blk;
            b[12..].copy_from_slice(&ctr.to_be_bytes());
            self.aes.enc(&mut b);
            for (x, k) in c.iter_mut().zip(b) {
                *x ^= k;
            }
            ctr = ctr.wrapping_add(1);
        }
    }
    pub fn tag(&self, nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
        self.tag_zero_aad(nonce, 0, aad, ct)
    }
    /// AAD = `zeros` (a multiple of 16) zero bytes followed by `aad`
    pub fn tag_zero_aad(&self, nonce: &[u8; 12], zeros: u64, aad: &[u8], ct: &[u8]) -> [u8; 16] {
        let mut acc = 0;
        self.ghash_add(&mut acc, aad);
        self.ghash_add(&mut acc, ct);
        let lens = ((8 * (zeros + aad.len() as u64)) as u128) << 64 | (8 * ct.len()) as u128;
        acc = self.mulh(acc ^ lens);
        let mut y0 = [0u8; 16];
        y0[..12].copy_from_slice(nonce);
        y0[15] = 1;
        self.aes.enc(&mut y0);
        (acc ^ u128::from_be_bytes(y0)).to_be_bytes()
    }
    /// no AAD, a ciphertext of `n` zero bytes
    pub fn tag_zero_ct(&self, nonce: &[u8; 12], n: u64) -> [u8; 16] {
        let acc = self.mulh(8 * n as u128);
        let mut y0 = [0u8; 16];
        y0[..12].copy_from_slice(nonce);
        y0[15] = 1;
        self.aes.enc(&mut y0);
        (acc ^ u128::from_be_bytes(y0)).to_be_bytes()
    }
    pub fn seal(&self, nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        let mut ct = pt.to_vec();
        self.ctr(nonce, &mut ct);
        let t = self.tag(nonce, aad, &ct);
        (ct, t)
    }
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8; 32], tail: &[u8; 16]) -> [u32; 16] {
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).chain(key.chunks(4)).chain(tail.chunks(4)).enumerate() {
        s[i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    s
}
pub fn chacha_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut tail = [0u8; 16];
    tail[..4].copy_from_slice(&ctr.to_le_bytes());
    tail[4..].copy_from_slice(nonce);
    let s0 = init(key, &tail);
    let mut s = s0;
    rounds(&mut s);
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(s0[i]).to_le_bytes());
    }
    o
}
pub fn hchacha(key: &[u8; 32], n: &[u8; 16]) -> [u8; 32] {
    let mut s = init(key, n);
    rounds(&mut s);
    let mut o = [0u8; 32];
    for i in 0..8 {
        let w = if i < 4 { s[i] } else { s[i + 8] };
        o[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
    }
    o
}
pub fn chacha_xor(key: &[u8; 32], mut ctr: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for c in data.chunks_mut(64) {
        let k = chacha_block(key, ctr, nonce);
        for (x, k) in c.iter_mut().zip(k) {
            *x ^= k;
        }
        ctr = ctr.wrapping_add(1);
    }
}

pub fn poly_mod() -> &'static Mod<3> {
    static M: OnceLock<Mod<3>> = OnceLock::new();
    M.get_or_init(|| Mod::new(sub_raw(&pow2(130), &from_u64(5)).0))
}
pub fn poly_r(key: &[u8]) -> [u64; 3] {
    let mut r: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    from_le(&r)
}
/// accumulator after absorbing already padded 16-byte blocks
pub fn poly_blocks(r: &[u64; 3], acc: &mut [u64; 3], data: &[u8]) {
    let m = poly_mod();
    let rm = m.to(r);
    for c in data.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        let x: [u64; 3] = from_le(&b);
        // plain * Montgomery = plain
        *acc = m.mul(&m.add(acc, &x), &rm);
    }
}
pub fn poly_finish(acc: &[u64; 3], key: &[u8]) -> [u8; 16] {
    let h = acc[0] as u128 | (acc[1] as u128) << 64;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    h.wrapping_add(s).to_le_bytes()
}
pub fn poly1305(key: &[u8; 32], m: &[u8]) -> [u8; 16] {
    let mut acc = [0; 3];
    poly_blocks(&poly_r(key), &mut acc, m);
    poly_finish(&acc, key)
}

/// the accumulator after `k` blocks of zeros (pad bit included), from 0
pub fn poly_zeros(r: &[u64; 3], k: u64) -> [u64; 3] {
    let m = poly_mod();
    let rm = m.to(r);
    let c = m.to(&pow2(128));
    // Montgomery domain; (sum, power) after the bits read so far
    let (mut acc, mut rk) = ([0; 3], m.one());
    for i in (0..64).rev() {
        acc = m.add(&m.mul(&acc, &rk), &acc);
        rk = m.sqr(&rk);
        if k >> i & 1 == 1 {
            acc = m.mul(&m.add(&acc, &c), &rm);
            rk = m.mul(&rk, &rm);
        }
    }
    m.from(&acc)
}
/// tag for `a` zero bytes of AAD and `n` zero bytes of ciphertext
pub fn chapoly_tag_zeros(key: &[u8; 32], nonce: &[u8; 12], a: u64, n: u64) -> [u8; 16] {
    let pk = chapoly_key(key, nonce);
    let r = poly_r(&pk);
    let mut acc = poly_zeros(&r, a.div_ceil(16) + n.div_ceil(16));
    poly_blocks(&r, &mut acc, &[a.to_le_bytes(), n.to_le_bytes()].concat());
    poly_finish(&acc, &pk)
}
pub fn mac_data(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut d = Vec::new();
    d.extend_from_slice(aad);
    d.resize(d.len().div_ceil(16) * 16, 0);
    d.extend_from_slice(ct);
    d.resize(d.len().div_ceil(16) * 16, 0);
    d.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    d.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    d
}
pub fn chapoly_key(key: &[u8; 32], nonce: &[u8; 12]) -> [u8; 32] {
    chacha_block(key, 0, nonce)[..32].try_into().unwrap()
}
pub fn chapoly_seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let pk = chapoly_key(key, nonce);
    let mut ct = pt.to_vec();
    chacha_xor(key, 1, nonce, &mut ct);
    let t = poly1305(&pk, &mac_data(aad, &ct));
    (ct, t)
}
pub fn xsub(key: &[u8; 32], nonce: &[u8; 24]) -> ([u8; 32], [u8; 12]) {
    let k = hchacha(key, nonce[..16].try_into().unwrap());
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&nonce[16..]);
    (k, n)
}
pub fn xchapoly_seal(key: &[u8; 32], nonce: &[u8; 24], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let (k, n) = xsub(key, nonce);
    chapoly_seal(&k, &n, aad, pt)
}
