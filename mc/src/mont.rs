//! Prime-field arithmetic for the reference models: plain Montgomery form,
//! schoolbook operand scanning, no special-form reductions.

#[derive(Clone, Debug)]
pub struct Mod<const N: usize> {
    pub m: [u64; N],
    n0: u64,
    rr: [u64; N],
    one: [u64; N],
}

pub type E<const N: usize> = [u64; N];

pub fn cmp<const N: usize>(a: &[u64; N], b: &[u64; N]) -> std::cmp::Ordering {
    for i in (0..N).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}

pub fn add_raw<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0; N];
    let mut c = 0u128;
    for i in 0..N {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}

pub fn sub_raw<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0; N];
    let mut bw = 0u64;
    for i in 0..N {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bw);
        r[i] = y;
        bw = (b1 | b2) as u64;
    }
    (r, bw != 0)
}

pub fn shl1<const N: usize>(a: &[u64; N]) -> ([u64; N], bool) {
    add_raw(a, a)
}
pub fn shr1<const N: usize>(a: &[u64; N]) -> [u64; N] {
    let mut r = [0; N];
    for i in 0..N {
        r[i] = a[i] >> 1 | if i + 1 < N { a[i + 1] << 63 } else { 0 };
    }
    r
}
pub fn bit<const N: usize>(a: &[u64; N], i: usize) -> bool {
    i < 64 * N && a[i / 64] >> (i % 64) & 1 == 1
}
pub fn is_zero<const N: usize>(a: &[u64; N]) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn from_u64<const N: usize>(v: u64) -> [u64; N] {
    let mut r = [0; N];
    r[0] = v;
    r
}
pub fn pow2<const N: usize>(k: usize) -> [u64; N] {
    let mut r = [0; N];
    if k < 64 * N {
        r[k / 64] = 1 << (k % 64);
    }
    r
}
/// big-endian bytes, any length that fits
pub fn from_be<const N: usize>(b: &[u8]) -> [u64; N] {
    let mut r = [0u64; N];
    for (i, x) in b.iter().rev().enumerate() {
        if i / 8 < N {
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        } else {
            assert_eq!(*x, 0);
        }
    }
    r
}
pub fn to_be<const N: usize>(a: &[u64; N], len: usize) -> Vec<u8> {
    (0..len).rev().map(|i| if i / 8 < N { (a[i / 8] >> (8 * (i % 8))) as u8 } else { 0 }).collect()
}
pub fn from_le<const N: usize>(b: &[u8]) -> [u64; N] {
    let v: Vec<u8> = b.iter().rev().copied().collect();
    from_be(&v)
}
pub fn to_le<const N: usize>(a: &[u64; N], len: usize) -> Vec<u8> {
    let mut v = to_be(a, len);
    v.reverse();
    v
}
pub fn from_hex<const N: usize>(s: &str) -> [u64; N] {
    from_be(&crate::fw::unhex(s))
}

impl<const N: usize> Mod<N> {
    pub fn new(m: [u64; N]) -> Self {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut s = Mod { m, n0: inv.wrapping_neg(), rr: [0; N], one: [0; N] };
        // R mod m, R^2 mod m by repeated doubling
        let mut x = s.reduce(&from_u64(1));
        for i in 0..128 * N {
            if i == 64 * N {
                s.one = x;
            }
            x = s.dbl(&x);
        }
        s.rr = x;
        s
    }
    pub fn reduce(&self, a: &[u64; N]) -> [u64; N] {
        // a < 2^(64N): shift-and-subtract
        let mut r = [0u64; N];
        for i in (0..64 * N).rev() {
            let (mut d, c) = shl1(&r);
            d[0] |= bit(a, i) as u64;
            if c || cmp(&d, &self.m).is_ge() {
                d = sub_raw(&d, &self.m).0;
            }
            r = d;
        }
        r
    }
    /// big-endian bytes of any length, reduced
    pub fn reduce_be(&self, b: &[u8]) -> [u64; N] {
        let mut r = [0u64; N];
        for x in b {
            for k in (0..8).rev() {
                let (mut d, c) = shl1(&r);
                if c || cmp(&d, &self.m).is_ge() {
                    d = sub_raw(&d, &self.m).0;
                }
                if x >> k & 1 == 1 {
                    let (s, c) = add_raw(&d, &from_u64(1));
                    d = s;
                    if c || cmp(&d, &self.m).is_ge() {
                        d = sub_raw(&d, &self.m).0;
                    }
                }
                r = d;
            }
        }
        r
    }
    pub fn add(&self, a: &E<N>, b: &E<N>) -> E<N> {
        let (r, c) = add_raw(a, b);
        if c || cmp(&r, &self.m).is_ge() { sub_raw(&r, &self.m).0 } else { r }
    }
    pub fn dbl(&self, a: &E<N>) -> E<N> {
        self.add(a, a)
    }
    pub fn sub(&self, a: &E<N>, b: &E<N>) -> E<N> {
        let (r, c) = sub_raw(a, b);
        if c { add_raw(&r, &self.m).0 } else { r }
    }
    pub fn neg(&self, a: &E<N>) -> E<N> {
        self.sub(&[0; N], a)
    }
    /// Montgomery product
    pub fn mul(&self, a: &E<N>, b: &E<N>) -> E<N> {
        let mut t = [0u64; 16];
        debug_assert!(N + 2 <= 16);
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[N] as u128;
            t[N] = c as u64;
            t[N + 1] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..N {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[N] as u128;
            t[N - 1] = c as u64;
            t[N] = t[N + 1] + (c >> 64) as u64;
        }
        let mut r = [0; N];
        r.copy_from_slice(&t[..N]);
        if t[N] != 0 || cmp(&r, &self.m).is_ge() { sub_raw(&r, &self.m).0 } else { r }
    }
    pub fn sqr(&self, a: &E<N>) -> E<N> {
        self.mul(a, a)
    }
    /// into Montgomery form (argument may be unreduced)
    pub fn to(&self, a: &[u64; N]) -> E<N> {
        let a = if cmp(a, &self.m).is_ge() { self.reduce(a) } else { *a };
        self.mul(&a, &self.rr)
    }
    pub fn from(&self, a: &E<N>) -> [u64; N] {
        self.mul(a, &from_u64(1))
    }
    pub fn one(&self) -> E<N> {
        self.one
    }
    pub fn small(&self, v: u64) -> E<N> {
        self.to(&from_u64(v))
    }
    pub fn pow(&self, a: &E<N>, e: &[u64; N]) -> E<N> {
        let mut r = self.one;
        let mut started = false;
        for i in (0..64 * N).rev() {
            if started {
                r = self.sqr(&r);
            }
            if bit(e, i) {
                r = self.mul(&r, a);
                started = true;
            }
        }
        r
    }
    /// inverse by Fermat (prime modulus); 0 -> 0
    pub fn inv(&self, a: &E<N>) -> E<N> {
        self.pow(a, &sub_raw(&self.m, &from_u64(2)).0)
    }
    // conveniences on plain residues
    pub fn pmul(&self, a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        self.from(&self.mul(&self.to(a), &self.to(b)))
    }
    pub fn pinv(&self, a: &[u64; N]) -> [u64; N] {
        self.from(&self.inv(&self.to(a)))
    }
    /// square root for m = 3 mod 4 (Montgomery form), if any
    pub fn sqrt34(&self, a: &E<N>) -> Option<E<N>> {
        assert_eq!(self.m[0] & 3, 3);
        let e = shr1(&shr1(&add_raw(&self.m, &from_u64(1)).0));
        let r = self.pow(a, &e);
        if self.sqr(&r) == *a { Some(r) } else { None }
    }
}
