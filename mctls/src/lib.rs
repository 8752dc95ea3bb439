//! The TLS provider under exploration: access to its parts.
pub mod clock;
use mc::aeadref::{GcmRef, chapoly_seal};
use rustls::crypto::cipher::{AeadKey, InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage};
use rustls::{CipherSuite, ContentType, ProtocolVersion, SupportedCipherSuite};

/// An `AeadKey` of any length (rustls only exposes making 32-byte ones).
pub fn aead_key(k: &[u8]) -> AeadKey {
    let mut full = [0u8; 32];
    full[..k.len()].copy_from_slice(k);
    let mut key = AeadKey::from(full);
    if k.len() != 32 {
        // the length is the one word of the struct that is not the buffer
        let base = (&raw mut key).cast::<u8>();
        let off = key.as_ref().as_ptr() as usize - base as usize;
        let at = if off == 0 { 32 } else { 0 };
        assert!(size_of::<AeadKey>() == 40);
        unsafe {
            let p = base.add(at).cast::<usize>();
            assert!(p.read() == 32);
            p.write(k.len());
        }
    }
    assert!(key.as_ref() == k);
    key
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Aes128,
    Aes256,
    ChaCha,
}
impl Alg {
    pub fn key_len(self) -> usize {
        if self == Alg::Aes128 { 16 } else { 32 }
    }
    pub fn seal(self, key: &[u8], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let (mut c, t) = match self {
            Alg::ChaCha => chapoly_seal(key.try_into().unwrap(), nonce, aad, pt),
            _ => GcmRef::new(key).seal(nonce, aad, pt),
        };
        c.extend(t);
        c
    }
}

/// What the standards say of a suite.
#[derive(Clone, Copy)]
pub struct Spec {
    pub suite: SupportedCipherSuite,
    pub name: &'static str,
    pub id: CipherSuite,
    pub alg: Alg,
    pub v13: bool,
    /// hash: SHA-384 rather than SHA-256
    pub h384: bool,
    /// TLS 1.2 authentication
    pub rsa: bool,
}
pub fn specs() -> Vec<Spec> {
    use rustls_graviola::suites::*;
    let s = |suite, name, id, alg, v13, h384, rsa| Spec { suite, name, id, alg, v13, h384, rsa };
    vec![
        s(TLS13_AES_128_GCM_SHA256, "tls13-aes128", CipherSuite::TLS13_AES_128_GCM_SHA256, Alg::Aes128, true, false, false),
        s(TLS13_AES_256_GCM_SHA384, "tls13-aes256", CipherSuite::TLS13_AES_256_GCM_SHA384, Alg::Aes256, true, true, false),
        s(TLS13_CHACHA20_POLY1305_SHA256, "tls13-chacha", CipherSuite::TLS13_CHACHA20_POLY1305_SHA256, Alg::ChaCha, true, false, false),
        s(TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, "tls12-ecdsa-aes128", CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, Alg::Aes128, false, false, false),
        s(TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, "tls12-ecdsa-aes256", CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, Alg::Aes256, false, true, false),
        s(TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, "tls12-ecdsa-chacha", CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, Alg::ChaCha, false, false, false),
        s(TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, "tls12-rsa-aes128", CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, Alg::Aes128, false, false, true),
        s(TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, "tls12-rsa-aes256", CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, Alg::Aes256, false, true, true),
        s(TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, "tls12-rsa-chacha", CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, Alg::ChaCha, false, false, true),
    ]
}

/// One direction's traffic secrets.
#[derive(Clone)]
pub struct Secrets {
    pub key: Vec<u8>,
    /// TLS 1.3 and ChaCha20: 12 bytes; TLS 1.2 GCM: the 4 fixed bytes
    pub iv: Vec<u8>,
    /// TLS 1.2 GCM: seed of the explicit part
    pub explicit: Vec<u8>,
}
impl Secrets {
    pub fn new(s: &Spec, seed: u64) -> Self {
        let fixed = if s.v13 || s.alg == Alg::ChaCha { 12 } else { 4 };
        Secrets { key: mc::rng::bytes(seed * 3 + 1, s.alg.key_len()), iv: mc::rng::bytes(seed * 3 + 2, fixed), explicit: mc::rng::bytes(seed * 3 + 3, 12 - fixed) }
    }
}
pub fn xor_nonce(iv: &[u8], seq: u64) -> [u8; 12] {
    let mut n: [u8; 12] = iv.try_into().unwrap();
    for (a, b) in n[4..].iter_mut().zip(seq.to_be_bytes()) {
        *a ^= b;
    }
    n
}
fn iv12(b: &[u8]) -> Iv {
    Iv::copy(b)
}

impl Spec {
    pub fn encrypter(&self, k: &Secrets) -> Box<dyn MessageEncrypter> {
        match self.suite {
            SupportedCipherSuite::Tls13(s) => s.aead_alg.encrypter(aead_key(&k.key), iv12(&k.iv)),
            SupportedCipherSuite::Tls12(s) => s.aead_alg.encrypter(aead_key(&k.key), &k.iv, &k.explicit),
        }
    }
    pub fn decrypter(&self, k: &Secrets) -> Box<dyn MessageDecrypter> {
        match self.suite {
            SupportedCipherSuite::Tls13(s) => s.aead_alg.decrypter(aead_key(&k.key), iv12(&k.iv)),
            SupportedCipherSuite::Tls12(s) => s.aead_alg.decrypter(aead_key(&k.key), &k.iv),
        }
    }
    pub fn explicit_len(&self) -> usize {
        if self.v13 || self.alg == Alg::ChaCha { 0 } else { 8 }
    }
    /// the protected form (without the 5-byte header) per the standards; `pad`:
    /// zeros after the content type in TLS 1.3; `explicit`: the explicit nonce
    /// in TLS 1.2 with GCM
    pub fn seal(&self, k: &Secrets, typ: u8, version: u16, body: &[u8], seq: u64, pad: usize, explicit: &[u8]) -> Vec<u8> {
        if self.v13 {
            let mut p = body.to_vec();
            p.push(typ);
            p.extend(std::iter::repeat_n(0, pad));
            let n = (p.len() + 16) as u16;
            let aad = [&[0x17, 3, 3][..], &n.to_be_bytes()].concat();
            self.alg.seal(&k.key, &xor_nonce(&k.iv, seq), &aad, &p)
        } else {
            let mut aad = seq.to_be_bytes().to_vec();
            aad.push(typ);
            aad.extend(version.to_be_bytes());
            aad.extend((body.len() as u16).to_be_bytes());
            if self.alg == Alg::ChaCha {
                self.alg.seal(&k.key, &xor_nonce(&k.iv, seq), &aad, body)
            } else {
                let nonce: [u8; 12] = [&k.iv[..], explicit].concat().try_into().unwrap();
                [explicit, &self.alg.seal(&k.key, &nonce, &aad, body)].concat()
            }
        }
    }
}

/// Protect a record with the library: the complete wire bytes.
pub fn encrypt(e: &mut dyn MessageEncrypter, typ: u8, version: u16, body: &[u8], seq: u64) -> Result<Vec<u8>, String> {
    encrypt_chunks(e, typ, version, OutboundChunks::Single(body), seq)
}
pub fn encrypt_chunks(e: &mut dyn MessageEncrypter, typ: u8, version: u16, body: OutboundChunks<'_>, seq: u64) -> Result<Vec<u8>, String> {
    let m = OutboundPlainMessage { typ: ContentType::from(typ), version: ProtocolVersion::from(version), payload: body };
    e.encrypt(m, seq).map(|o| o.encode()).map_err(|e| format!("{e:?}"))
}

/// What the library makes of a record: content type, version and payload.
pub fn decrypt(d: &mut dyn MessageDecrypter, typ: u8, version: u16, buf: &mut [u8], seq: u64) -> Result<(u8, u16, Vec<u8>), rustls::Error> {
    let m = InboundOpaqueMessage::new(ContentType::from(typ), ProtocolVersion::from(version), buf);
    d.decrypt(m, seq).map(|p| (u8::from(p.typ), u16::from(p.version), p.payload.to_vec()))
}
