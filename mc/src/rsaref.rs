//! Reference RSA: RFC 8017 encodings and key construction.
use crate::big::B;
use crate::der;
use crate::hashref::H;

#[derive(Clone)]
pub struct Key {
    pub n: B,
    pub e: B,
    pub d: B,
    pub p: B,
    pub q: B,
    pub dp: B,
    pub dq: B,
    pub qi: B,
}
impl Key {
    pub fn from_primes(p: &B, q: &B, e: &B) -> Option<Key> {
        let one = B::u(1);
        let (p1, q1) = (p.sub(&one), q.sub(&one));
        let phi = p1.mul(&q1);
        let d = e.inv(&phi)?;
        Some(Key { n: p.mul(q), e: e.clone(), dp: d.rem(&p1), dq: d.rem(&q1), qi: q.inv(p)?, d, p: p.clone(), q: q.clone() })
    }
    pub fn new(seed: u64, pb: usize, qb: usize, e: u64) -> Key {
        let e = B::u(e);
        let p = B::prime(seed, pb, &e);
        let q = B::prime(seed + 0x51, qb, &e);
        Key::from_primes(&p, &q, &e).unwrap()
    }
    pub fn from_pkcs1(b: &[u8]) -> Option<Key> {
        let mut r = der::R(b);
        let mut s = r.seq()?;
        if s.uint()? != [] as [u8; 0] {
            return None;
        }
        let mut v = vec![];
        for _ in 0..8 {
            v.push(B::from_be(s.uint()?));
        }
        if !s.empty() || !r.empty() {
            return None;
        }
        let mut it = v.into_iter();
        let mut nx = || it.next().unwrap();
        Some(Key { n: nx(), e: nx(), d: nx(), p: nx(), q: nx(), dp: nx(), dq: nx(), qi: nx() })
    }
    pub fn parts(&self) -> [&B; 8] {
        [&self.n, &self.e, &self.d, &self.p, &self.q, &self.dp, &self.dq, &self.qi]
    }
    pub fn pkcs1(&self) -> Vec<u8> {
        let mut v = vec![der::uint(&[0])];
        v.extend(self.parts().iter().map(|x| der::uint(&x.bytes())));
        der::seq(&v)
    }
    pub fn pub_pkcs1(&self) -> Vec<u8> {
        der::seq(&[der::uint(&self.n.bytes()), der::uint(&self.e.bytes())])
    }
    pub fn k(&self) -> usize {
        self.n.bits().div_ceil(8)
    }
    /// m^d mod n
    pub fn private(&self, m: &B) -> B {
        let m1 = m.rem(&self.p).pow(&self.dp, &self.p);
        let m2 = m.rem(&self.q).pow(&self.dq, &self.q);
        let m2p = m2.rem(&self.p);
        let diff = if m1.lt(&m2p) { m1.add(&self.p).sub(&m2p) } else { m1.sub(&m2p) };
        m2.add(&self.q.mul(&diff.mulmod(&self.qi, &self.p)))
    }
    /// is every component consistent?
    pub fn consistent(&self) -> bool {
        let one = B::u(1);
        self.p.mul(&self.q) == self.n
            && self.e.mul(&self.dp).rem(&self.p.sub(&one)) == one
            && self.e.mul(&self.dq).rem(&self.q.sub(&one)) == one
            && self.qi.mulmod(&self.q, &self.p) == one
    }
}

pub fn digest_info(h: H) -> Vec<u8> {
    let last = match h {
        H::S256 => 1,
        H::S384 => 2,
        H::S512 => 3,
    };
    let oid = der::oid(&[0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, last]);
    let mut v = der::seq(&[der::seq(&[oid, der::null()]), der::octets(&vec![0; h.len()])]);
    v.truncate(v.len() - h.len());
    v
}
pub fn pkcs1_em(h: H, msg: &[u8], k: usize) -> Vec<u8> {
    let t = [digest_info(h), h.hash(msg)].concat();
    let mut em = vec![0xff; k];
    em[0] = 0;
    em[1] = 1;
    em[k - t.len() - 1] = 0;
    em[k - t.len()..].copy_from_slice(&t);
    em
}
pub fn mgf1(h: H, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in 0u32.. {
        if o.len() >= n {
            break;
        }
        o.extend(h.hash(&[seed, &c.to_be_bytes()].concat()));
    }
    o.truncate(n);
    o
}
pub fn pss_em(h: H, msg: &[u8], salt: &[u8], mod_bits: usize) -> Vec<u8> {
    let bits = mod_bits - 1;
    let len = bits.div_ceil(8);
    let hh = h.hash(&[&[0; 8][..], &h.hash(msg), salt].concat());
    let mut db = vec![0; len - h.len() - 1];
    let at = db.len() - salt.len() - 1;
    db[at] = 1;
    db[at + 1..].copy_from_slice(salt);
    for (a, b) in db.iter_mut().zip(mgf1(h, &hh, len - h.len() - 1)) {
        *a ^= b;
    }
    db[0] &= 0xff >> (8 * len - bits);
    [&db[..], &hh, &[0xbc]].concat()
}
/// EMSA-PSS-VERIFY with a hash-length salt, on an encoded message of the right length
pub fn pss_ok(h: H, msg: &[u8], em: &[u8], mod_bits: usize) -> bool {
    let bits = mod_bits - 1;
    let len = bits.div_ceil(8);
    let hl = h.len();
    if em.len() != len || len < 2 * hl + 2 || em[len - 1] != 0xbc {
        return false;
    }
    let (db, hh) = (&em[..len - hl - 1], &em[len - hl - 1..len - 1]);
    let mask = 0xffu8 >> (8 * len - bits);
    if db[0] & !mask != 0 {
        return false;
    }
    let mut db: Vec<u8> = db.iter().zip(mgf1(h, hh, db.len())).map(|(a, b)| a ^ b).collect();
    db[0] &= mask;
    let at = db.len() - hl - 1;
    if db[..at].iter().any(|x| *x != 0) || db[at] != 1 {
        return false;
    }
    h.hash(&[&[0; 8][..], &h.hash(msg), &db[at + 1..]].concat()) == hh
}
/// The full verification predicate: PKCS#1 v1.5 or PSS.
pub fn verify(n: &B, e: &B, h: H, pss: bool, msg: &[u8], sig: &[u8]) -> bool {
    let k = n.bits().div_ceil(8);
    let s = B::from_be(sig);
    if sig.len() != k || !s.lt(n) {
        return false;
    }
    let m = s.pow(e, n);
    if pss {
        let len = (n.bits() - 1).div_ceil(8);
        m.bits() <= 8 * len && pss_ok(h, msg, &m.be(len), n.bits())
    } else {
        m.be(k) == pkcs1_em(h, msg, k)
    }
}

pub const HS: [H; 3] = [H::S256, H::S384, H::S512];
/// The library's verification, by hash and padding.
pub fn lib_verify(k: &graviola::signing::rsa::VerifyingKey, h: H, pss: bool, msg: &[u8], sig: &[u8]) -> Result<(), graviola::Error> {
    match (h, pss) {
        (H::S256, false) => k.verify_pkcs1_sha256(sig, msg),
        (H::S384, false) => k.verify_pkcs1_sha384(sig, msg),
        (H::S512, false) => k.verify_pkcs1_sha512(sig, msg),
        (H::S256, true) => k.verify_pss_sha256(sig, msg),
        (H::S384, true) => k.verify_pss_sha384(sig, msg),
        (H::S512, true) => k.verify_pss_sha512(sig, msg),
    }
}
pub fn lib_sign<'a>(k: &graviola::signing::rsa::SigningKey, h: H, pss: bool, msg: &[u8], buf: &'a mut [u8]) -> Result<&'a [u8], graviola::Error> {
    match (h, pss) {
        (H::S256, false) => k.sign_pkcs1_sha256(buf, msg),
        (H::S384, false) => k.sign_pkcs1_sha384(buf, msg),
        (H::S512, false) => k.sign_pkcs1_sha512(buf, msg),
        (H::S256, true) => k.sign_pss_sha256(buf, msg),
        (H::S384, true) => k.sign_pss_sha384(buf, msg),
        (H::S512, true) => k.sign_pss_sha512(buf, msg),
    }
}
/// Fixture keys: the stored primes, and the repository's own sample keys.
pub fn fixtures() -> Vec<Key> {
    include_str!("../data/rsa_primes.txt")
        .lines()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            let (p, q) = (B::from_be(&crate::fw::unhex(w[3])), B::from_be(&crate::fw::unhex(w[4])));
            Key::from_primes(&p, &q, &B::u(w[2].parse().unwrap())).unwrap()
        })
        .collect()
}
pub fn samples() -> Vec<Key> {
    [
        &include_bytes!("../data/keys/rsa2048.der")[..],
        include_bytes!("../data/keys/rsa3072.der"),
        include_bytes!("../data/keys/rsa4096.der"),
        include_bytes!("../data/keys/rsa6144.der"),
        include_bytes!("../data/keys/rsa8192.der"),
    ]
    .iter()
    .map(|b| Key::from_pkcs1(b).unwrap())
    .collect()
}
