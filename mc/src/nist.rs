//! One interface over the library's P-256 and P-384 key-agreement types, and
//! shared enumerations of scalars and points.
use crate::ec::{Aff, Curve, p256, p384};
use crate::mont::*;
use graviola::Error;

pub trait Nist<const N: usize>: Sync {
    const NAME: &'static str;
    const LEN: usize;
    type Sk: Sync + Send;
    type Pk: Sync + Send;
    fn c() -> &'static Curve<N>;
    fn sk(b: &[u8]) -> Result<Self::Sk, Error>;
    fn sk_random() -> Result<Self::Sk, Error>;
    fn sk_bytes(k: &Self::Sk) -> Vec<u8>;
    fn sk_pub(k: &Self::Sk) -> Vec<u8>;
    fn pk(b: &[u8]) -> Result<Self::Pk, Error>;
    fn pk_bytes(k: &Self::Pk) -> Vec<u8>;
    fn dh(k: &Self::Sk, p: &Self::Pk) -> Result<Vec<u8>, Error>;
    /// ephemeral key from the (scripted) system source: public key and, if a
    /// peer is given, the agreed secret
    fn ephemeral(peer: &Self::Pk) -> Result<(Vec<u8>, Result<Vec<u8>, Error>), Error>;
}

macro_rules! nist {
    ($t:ident, $n:literal, $m:ident, $c:ident, $len:literal, $name:literal) => {
        pub struct $t;
        impl Nist<$n> for $t {
            const NAME: &'static str = $name;
            const LEN: usize = $len;
            type Sk = graviola::key_agreement::$m::StaticPrivateKey;
            type Pk = graviola::key_agreement::$m::PublicKey;
            fn c() -> &'static Curve<$n> {
                $c()
            }
            fn sk(b: &[u8]) -> Result<Self::Sk, Error> {
                Self::Sk::from_bytes(b)
            }
            fn sk_random() -> Result<Self::Sk, Error> {
                Self::Sk::new_random()
            }
            fn sk_bytes(k: &Self::Sk) -> Vec<u8> {
                k.as_bytes().to_vec()
            }
            fn sk_pub(k: &Self::Sk) -> Vec<u8> {
                k.public_key_uncompressed().to_vec()
            }
            fn pk(b: &[u8]) -> Result<Self::Pk, Error> {
                Self::Pk::from_x962_uncompressed(b)
            }
            fn pk_bytes(k: &Self::Pk) -> Vec<u8> {
                k.as_bytes_uncompressed().to_vec()
            }
            fn dh(k: &Self::Sk, p: &Self::Pk) -> Result<Vec<u8>, Error> {
                k.diffie_hellman(p).map(|s| s.0.to_vec())
            }
            fn ephemeral(peer: &Self::Pk) -> Result<(Vec<u8>, Result<Vec<u8>, Error>), Error> {
                let k = graviola::key_agreement::$m::PrivateKey::new_random()?;
                let p = k.public_key_uncompressed().to_vec();
                Ok((p, k.diffie_hellman(peer).map(|s| s.0.to_vec())))
            }
        }
    };
}
nist!(P256, 4, p256, p256, 32, "p256");
nist!(P384, 6, p384, p384, 48, "p384");

/// every vector over an alphabet of limb values
pub fn limb_patterns<const N: usize>(alpha: &[u64]) -> Vec<[u64; N]> {
    let mut out = vec![];
    let total = alpha.len().pow(N as u32);
    for mut i in 0..total {
        let mut v = [0; N];
        for l in v.iter_mut() {
            *l = alpha[i % alpha.len()];
            i /= alpha.len();
        }
        out.push(v);
    }
    out
}

impl<const N: usize> Curve<N> {
    /// d * 2^k, reduced, negated when d < 0
    pub fn window(&self, d: i64, k: usize) -> [u64; N] {
        let n = &self.n;
        let m = n.pmul(&from_u64(d.unsigned_abs()), &n.reduce(&pow2(k)));
        if d < 0 && !is_zero(&m) { sub_raw(&n.m, &m).0 } else { m }
    }
    pub fn scalar_add(&self, a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        self.n.add(a, b)
    }
    /// points with the given x, both signs
    pub fn both(&self, x: &[u64; N]) -> Vec<Aff<N>> {
        match self.lift_x(x) {
            None => vec![],
            p => vec![p, self.neg(&p)],
        }
    }
    /// x with x^3 - 3x + b = y^2, when that has exactly one root
    pub fn solve_y(&self, y: &[u64; N]) -> Option<[u64; N]> {
        let f = &self.f;
        let y = f.to(y);
        let c0 = f.sub(&self.b_coeff(), &f.sqr(&y)); // x^3 - 3x + c0
        let three = f.small(3);
        // polynomials of degree < 3 modulo the cubic: x^3 = 3x - c0
        type P<const N: usize> = [[u64; N]; 3];
        let mulp = |a: &P<N>, b: &P<N>| -> P<N> {
            let mut t = [[0u64; N]; 5];
            for i in 0..3 {
                for j in 0..3 {
                    t[i + j] = f.add(&t[i + j], &f.mul(&a[i], &b[j]));
                }
            }
            for k in [4usize, 3] {
                let v = t[k];
                t[k - 2] = f.add(&t[k - 2], &f.mul(&v, &three));
                t[k - 3] = f.sub(&t[k - 3], &f.mul(&v, &c0));
            }
            [t[0], t[1], t[2]]
        };
        let x: P<N> = [[0; N], f.one(), [0; N]];
        let mut r: P<N> = [f.one(), [0; N], [0; N]];
        for i in (0..64 * N).rev() {
            r = mulp(&r, &r);
            if bit(&f.m, i) {
                r = mulp(&r, &x);
            }
        }
        // gcd(x^p - x, cubic)
        r[1] = f.sub(&r[1], &f.one());
        let mut a: Vec<[u64; N]> = vec![c0, f.neg(&three), [0; N], f.one()];
        let mut b: Vec<[u64; N]> = r.to_vec();
        let trim = |v: &mut Vec<[u64; N]>| {
            while v.last().is_some_and(is_zero) {
                v.pop();
            }
        };
        trim(&mut b);
        while !b.is_empty() {
            // a mod b
            let li = f.inv(b.last().unwrap());
            while a.len() >= b.len() {
                let q = f.mul(a.last().unwrap(), &li);
                let off = a.len() - b.len();
                for (i, bi) in b.iter().enumerate() {
                    a[off + i] = f.sub(&a[off + i], &f.mul(&q, bi));
                }
                a.pop();
                trim(&mut a);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if a.len() != 2 {
            return None;
        }
        Some(f.from(&f.neg(&f.mul(&a[0], &f.inv(&a[1])))))
    }
}

/// ECDSA over the same curves.
pub trait Sig<const N: usize>: Nist<N> {
    type C: graviola::signing::ecdsa::Curve<PublicKey: Send + Sync, PrivateKey: Send + Sync>;
    const OID: &'static [u8];
    fn signer(d: &[u64; N]) -> graviola::signing::ecdsa::SigningKey<Self::C>;
}
macro_rules! sig {
    ($t:ident, $n:literal, $m:ident, $oid:ident) => {
        impl Sig<$n> for $t {
            type C = graviola::signing::ecdsa::$t;
            const OID: &'static [u8] = crate::der::$oid;
            fn signer(d: &[u64; $n]) -> graviola::signing::ecdsa::SigningKey<Self::C> {
                graviola::signing::ecdsa::SigningKey {
                    private_key: graviola::key_agreement::$m::StaticPrivateKey::from_bytes(&to_be(d, Self::LEN)).unwrap(),
                }
            }
        }
    };
}
sig!(P256, 4, p256, OID_P256);
sig!(P384, 6, p384, OID_P384);

/// A library hash function and its reference.
pub trait Hf: Sync + Send + 'static {
    type H: graviola::hashing::Hash;
    const R: crate::hashref::H;
    fn hash(m: &[u8]) -> Vec<u8> {
        Self::R.hash(m)
    }
    fn hmac(k: &[u8], m: &[u8]) -> Vec<u8> {
        Self::R.hmac(k, m)
    }
}
pub struct F256;
pub struct F384;
pub struct F512;
impl Hf for F256 {
    type H = graviola::hashing::Sha256;
    const R: crate::hashref::H = crate::hashref::H::S256;
}
impl Hf for F384 {
    type H = graviola::hashing::Sha384;
    const R: crate::hashref::H = crate::hashref::H::S384;
}
impl Hf for F512 {
    type H = graviola::hashing::Sha512;
    const R: crate::hashref::H = crate::hashref::H::S512;
}
