//! The AEADs under test and their references behind one interface.
use crate::aeadref::*;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A {
    Gcm128,
    Gcm256,
    Cha,
    XCha,
}
pub const ALL: [A; 4] = [A::Gcm128, A::Gcm256, A::Cha, A::XCha];

impl A {
    pub fn klen(self) -> usize {
        if self == A::Gcm128 { 16 } else { 32 }
    }
    pub fn nlen(self) -> usize {
        if self == A::XCha { 24 } else { 12 }
    }
}

pub enum Imp {
    G(AesGcm),
    C(ChaCha20Poly1305),
    X(XChaCha20Poly1305),
}
impl Imp {
    pub fn new(a: A, k: &[u8]) -> Imp {
        match a {
            A::Gcm128 | A::Gcm256 => Imp::G(AesGcm::new(k)),
            A::Cha => Imp::C(ChaCha20Poly1305::new(k.try_into().unwrap())),
            A::XCha => Imp::X(XChaCha20Poly1305::new(k.try_into().unwrap())),
        }
    }
    pub fn enc(&self, n: &[u8], aad: &[u8], buf: &mut [u8]) -> [u8; 16] {
        let mut t = [0x5au8; 16];
        match self {
            Imp::G(k) => k.encrypt(n.try_into().unwrap(), aad, buf, &mut t),
            Imp::C(k) => k.encrypt(n.try_into().unwrap(), aad, buf, &mut t),
            Imp::X(k) => k.encrypt(n.try_into().unwrap(), aad, buf, &mut t),
        }
        t
    }
    pub fn dec(&self, n: &[u8], aad: &[u8], buf: &mut [u8], t: &[u8]) -> bool {
        let r = match self {
            Imp::G(k) => k.decrypt(n.try_into().unwrap(), aad, buf, t),
            Imp::C(k) => k.decrypt(n.try_into().unwrap(), aad, buf, t),
            Imp::X(k) => k.decrypt(n.try_into().unwrap(), aad, buf, t),
        };
        match r {
            Ok(()) => true,
            // the documented way to fail, the only one
            Err(graviola::Error::DecryptFailed) => false,
            Err(e) => panic!("decryption fails with {e:?}"),
        }
    }
}
pub enum Ref {
    G(GcmRef),
    C([u8; 32]),
    X([u8; 32]),
}
impl Ref {
    pub fn new(a: A, k: &[u8]) -> Ref {
        match a {
            A::Gcm128 | A::Gcm256 => Ref::G(GcmRef::new(k)),
            A::Cha => Ref::C(k.try_into().unwrap()),
            A::XCha => Ref::X(k.try_into().unwrap()),
        }
    }
    pub fn seal(&self, n: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        match self {
            Ref::G(g) => g.seal(n.try_into().unwrap(), aad, pt),
            Ref::C(k) => chapoly_seal(k, n.try_into().unwrap(), aad, pt),
            Ref::X(k) => xchapoly_seal(k, n.try_into().unwrap(), aad, pt),
        }
    }
}

