//! Reference short-Weierstrass group (a = -3) for P-256 and P-384: affine
//! formulas with explicit exceptional cases, in homogeneous guise only to
//! postpone inversions.
use crate::mont::*;
use std::sync::OnceLock;

pub struct Curve<const N: usize> {
    pub f: Mod<N>,
    pub n: Mod<N>,
    /// byte length of a coordinate
    pub len: usize,
    b: E<N>,
    pub g: Aff<N>,
}

/// Plain (non-Montgomery) affine coordinates; None = infinity.
pub type Aff<const N: usize> = Option<([u64; N], [u64; N])>;

#[derive(Clone, Copy)]
struct Jac<const N: usize> {
    x: E<N>,
    y: E<N>,
    z: E<N>,
}

pub fn p256() -> &'static Curve<4> {
    static C: OnceLock<Curve<4>> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            32,
            "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
        )
    })
}
pub fn p384() -> &'static Curve<6> {
    static C: OnceLock<Curve<6>> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            48,
            "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
            "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
        )
    })
}

impl<const N: usize> Curve<N> {
    fn new(len: usize, p: &str, n: &str, b: &str, gx: &str, gy: &str) -> Self {
        let f = Mod::new(from_hex(p));
        let b = f.to(&from_hex(b));
        let c = Curve { n: Mod::new(from_hex(n)), len, b, g: Some((from_hex(gx), from_hex(gy))), f };
        assert!(c.on_curve(&c.g.unwrap().0, &c.g.unwrap().1));
        c
    }
    fn rhs(&self, x: &E<N>) -> E<N> {
        let f = &self.f;
        let x3 = f.mul(&f.sqr(x), x);
        let t = f.add(&f.dbl(x), x);
        f.add(&f.sub(&x3, &t), &self.b)
    }
    pub fn b_coeff(&self) -> E<N> {
        self.b
    }
    /// coordinates must be canonical
    pub fn on_curve(&self, x: &[u64; N], y: &[u64; N]) -> bool {
        if cmp(x, &self.f.m).is_ge() || cmp(y, &self.f.m).is_ge() {
            return false;
        }
        let (x, y) = (self.f.to(x), self.f.to(y));
        self.f.sqr(&y) == self.rhs(&x)
    }
    /// a point with this x, if there is one (even y)
    pub fn lift_x(&self, x: &[u64; N]) -> Aff<N> {
        if cmp(x, &self.f.m).is_ge() {
            return None;
        }
        let y = self.f.sqrt34(&self.rhs(&self.f.to(x)))?;
        let mut y = self.f.from(&y);
        if y[0] & 1 == 1 {
            y = sub_raw(&self.f.m, &y).0;
        }
        Some((*x, y))
    }
    fn inf(&self) -> Jac<N> {
        Jac { x: self.f.one(), y: self.f.one(), z: [0; N] }
    }
    fn jac(&self, a: &Aff<N>) -> Jac<N> {
        match a {
            None => self.inf(),
            Some((x, y)) => Jac { x: self.f.to(x), y: self.f.to(y), z: self.f.one() },
        }
    }
    fn aff(&self, j: &Jac<N>) -> Aff<N> {
        if is_zero(&j.z) {
            return None;
        }
        let f = &self.f;
        let zi = f.inv(&j.z);
        let zi2 = f.sqr(&zi);
        Some((f.from(&f.mul(&j.x, &zi2)), f.from(&f.mul(&j.y, &f.mul(&zi2, &zi)))))
    }
    fn dbl_j(&self, a: &Jac<N>) -> Jac<N> {
        let f = &self.f;
        if is_zero(&a.z) || is_zero(&a.y) {
            return self.inf();
        }
        let y2 = f.sqr(&a.y);
        let s = f.dbl(&f.dbl(&f.mul(&a.x, &y2)));
        let z2 = f.sqr(&a.z);
        let m1 = f.mul(&f.sub(&a.x, &z2), &f.add(&a.x, &z2));
        let m = f.add(&f.dbl(&m1), &m1);
        let x = f.sub(&f.sqr(&m), &f.dbl(&s));
        let y4 = f.dbl(&f.dbl(&f.dbl(&f.sqr(&y2))));
        let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y4);
        let z = f.dbl(&f.mul(&a.y, &a.z));
        Jac { x, y, z }
    }
    fn add_j(&self, a: &Jac<N>, b: &Jac<N>) -> Jac<N> {
        let f = &self.f;
        if is_zero(&a.z) {
            return *b;
        }
        if is_zero(&b.z) {
            return *a;
        }
        let (za2, zb2) = (f.sqr(&a.z), f.sqr(&b.z));
        let (u1, u2) = (f.mul(&a.x, &zb2), f.mul(&b.x, &za2));
        let (s1, s2) = (f.mul(&a.y, &f.mul(&zb2, &b.z)), f.mul(&b.y, &f.mul(&za2, &a.z)));
        if u1 == u2 {
            return if s1 == s2 { self.dbl_j(a) } else { self.inf() };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let h2 = f.sqr(&h);
        let h3 = f.mul(&h2, &h);
        let v = f.mul(&u1, &h2);
        let x = f.sub(&f.sub(&f.sqr(&r), &h3), &f.dbl(&v));
        let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
        let z = f.mul(&f.mul(&a.z, &b.z), &h);
        Jac { x, y, z }
    }
    fn mul_j(&self, k: &[u64; N], p: &Jac<N>) -> Jac<N> {
        let mut r = self.inf();
        for i in (0..64 * N).rev() {
            r = self.dbl_j(&r);
            if bit(k, i) {
                r = self.add_j(&r, p);
            }
        }
        r
    }
    pub fn mul(&self, k: &[u64; N], p: &Aff<N>) -> Aff<N> {
        self.aff(&self.mul_j(k, &self.jac(p)))
    }
    pub fn mul_g(&self, k: &[u64; N]) -> Aff<N> {
        self.mul(k, &self.g)
    }
    pub fn add(&self, a: &Aff<N>, b: &Aff<N>) -> Aff<N> {
        self.aff(&self.add_j(&self.jac(a), &self.jac(b)))
    }
    pub fn neg(&self, a: &Aff<N>) -> Aff<N> {
        a.map(|(x, y)| (x, if is_zero(&y) { y } else { sub_raw(&self.f.m, &y).0 }))
    }
    /// X9.62 uncompressed
    pub fn enc(&self, a: &Aff<N>) -> Vec<u8> {
        let (x, y) = a.expect("finite point");
        let mut v = vec![4];
        v.extend(to_be(&x, self.len));
        v.extend(to_be(&y, self.len));
        v
    }
    pub fn enc_compressed(&self, a: &Aff<N>) -> Vec<u8> {
        let (x, y) = a.expect("finite point");
        let mut v = vec![2 + (y[0] & 1) as u8];
        v.extend(to_be(&x, self.len));
        v
    }
    /// bits2int then reduce mod n, as ECDSA does
    pub fn hash_to_scalar(&self, h: &[u8]) -> [u64; N] {
        let h = if h.len() > self.len { &h[..self.len] } else { h };
        self.n.reduce_be(h)
    }
    /// The ECDSA verification predicate (FIPS 186-5) on plain integers.
    pub fn ecdsa_verify(&self, q: &Aff<N>, e: &[u64; N], r: &[u64; N], s: &[u64; N]) -> bool {
        if is_zero(r) || is_zero(s) || cmp(r, &self.n.m).is_ge() || cmp(s, &self.n.m).is_ge() {
            return false;
        }
        let w = self.n.pinv(s);
        let u1 = self.n.pmul(e, &w);
        let u2 = self.n.pmul(r, &w);
        let a = self.mul_j(&u1, &self.jac(&self.g));
        let b = self.mul_j(&u2, &self.jac(q));
        match self.aff(&self.add_j(&a, &b)) {
            None => false,
            Some((x, _)) => self.n.reduce(&x) == *r,
        }
    }
    /// textbook sign with a given nonce; None if r or s would be 0
    pub fn ecdsa_sign(&self, d: &[u64; N], e: &[u64; N], k: &[u64; N]) -> Option<([u64; N], [u64; N])> {
        let (x, _) = self.mul_g(k)?;
        let r = self.n.reduce(&x);
        if is_zero(&r) {
            return None;
        }
        let s = self.n.pmul(&self.n.pinv(k), &self.n.add(&self.n.pmul(&r, d), e));
        if is_zero(&s) {
            return None;
        }
        Some((r, s))
    }
}
