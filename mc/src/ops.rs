//! One catalogue of complete library operations, used by the checks that
//! quantify over "every operation" (CPU configurations, random-source
//! failures, histories, interleavings, residues).
//! Every operation is a deterministic function of `seed` and of the random
//! bytes it draws; the result is everything the caller can observe.
use crate::rng::{arr, bytes};
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashContext, Sha256, Sha384, Sha512, sha3};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use std::fmt::Debug;

pub type R = Result<Vec<u8>, String>;

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub run: fn(u64) -> R,
    /// random-source requests made on success (None: at least one, unbounded)
    pub rng: Option<usize>,
    /// total random bytes drawn on success, when fixed
    pub rng_bytes: Option<usize>,
    /// takes milliseconds or more
    pub slow: bool,
}

fn e<T: Debug>(x: T) -> String {
    format!("{x:?}")
}

pub const RSA2048: &[u8] = include_bytes!("../data/keys/rsa2048.pkcs8.der");
pub const RSA3072: &[u8] = include_bytes!("../data/keys/rsa3072.pkcs8.der");
pub const RSA4096: &[u8] = include_bytes!("../data/keys/rsa4096.pkcs8.der");
pub const RSA2048_PKCS1: &[u8] = include_bytes!("../data/keys/rsa2048.der");
pub const P256_PKCS8: &[u8] = include_bytes!("../data/keys/secp256r1.pkcs8.der");
pub const P384_PKCS8: &[u8] = include_bytes!("../data/keys/secp384r1.pkcs8.der");
pub const P256_SEC1: &[u8] = include_bytes!("../data/keys/secp256r1.der");
pub const P384_SEC1: &[u8] = include_bytes!("../data/keys/secp384r1.der");

/// a length class from the seed: small, around the accelerated thresholds, long
fn len(seed: u64) -> usize {
    [0, 1, 15, 16, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 2047][(seed % 20) as usize]
}

fn hash<H: Hash>(seed: u64) -> R {
    let m = bytes(seed, len(seed));
    let mut c = H::new();
    let k = m.len() / 3;
    c.update(&m[..k]);
    c.update(&m[k..]);
    let mut o = c.finish().as_ref().to_vec();
    o.extend_from_slice(H::hash(&m).as_ref());
    Ok(o)
}
fn hmac<H: Hash>(seed: u64) -> R {
    let mut h = Hmac::<H>::new(bytes(seed + 1, (seed % 200) as usize));
    h.update(bytes(seed, len(seed)));
    Ok(h.finish().as_ref().to_vec())
}
fn gcm(klen: usize, seed: u64) -> R {
    let k = AesGcm::new(&bytes(seed ^ 0x55, klen));
    let mut b = bytes(seed, len(seed));
    let mut t = [0u8; 16];
    k.encrypt(&arr(seed + 2), &bytes(seed, 13), &mut b, &mut t);
    let mut o = b.clone();
    o.extend(t);
    k.decrypt(&arr(seed + 2), &bytes(seed, 13), &mut b, &t).map_err(e)?;
    o.extend(b);
    Ok(o)
}
fn gcm_bad(seed: u64) -> R {
    let k = AesGcm::new(&bytes(seed ^ 0x56, 16));
    let mut b = bytes(seed, len(seed));
    let r = k.decrypt(&arr(seed), b"", &mut b, &[1u8; 16]);
    let mut o = b;
    o.extend(e(r).bytes());
    Ok(o)
}
fn ecdh256(seed: u64) -> R {
    let a = p256::PrivateKey::new_random().map_err(e)?;
    let b = p256::StaticPrivateKey::from_bytes(&sk::<32>(seed)).map_err(e)?;
    let (pa, pb) = (a.public_key_uncompressed(), b.public_key_uncompressed());
    let x = a.diffie_hellman(&p256::PublicKey::from_x962_uncompressed(&pb).map_err(e)?).map_err(e)?;
    let y = b.diffie_hellman(&p256::PublicKey::from_x962_uncompressed(&pa).map_err(e)?).map_err(e)?;
    Ok([&pa[..], &pb, &x.0, &y.0].concat())
}
fn ecdh384(seed: u64) -> R {
    let a = p384::PrivateKey::new_random().map_err(e)?;
    let b = p384::StaticPrivateKey::from_bytes(&sk::<48>(seed)).map_err(e)?;
    let (pa, pb) = (a.public_key_uncompressed(), b.public_key_uncompressed());
    let x = a.diffie_hellman(&p384::PublicKey::from_x962_uncompressed(&pb).map_err(e)?).map_err(e)?;
    let y = b.diffie_hellman(&p384::PublicKey::from_x962_uncompressed(&pa).map_err(e)?).map_err(e)?;
    Ok([&pa[..], &pb, &x.0, &y.0].concat())
}
/// a private scalar surely below the group order
fn sk<const N: usize>(seed: u64) -> [u8; N] {
    let mut k: [u8; N] = arr(seed ^ 0x777);
    k[0] &= 0x7f;
    k
}
fn x25519(seed: u64) -> R {
    let a = x25519::PrivateKey::new_random().map_err(e)?;
    let b = x25519::StaticPrivateKey::from_array(&arr(seed));
    let (pa, pb) = (a.public_key(), b.public_key());
    let x = a.diffie_hellman(&pb).map_err(e)?;
    let y = b.diffie_hellman(&pa).map_err(e)?;
    Ok([&pa.as_bytes()[..], &pb.as_bytes(), &x.0, &y.0].concat())
}
fn mlkem(seed: u64) -> R {
    let _ = seed;
    let d = mlkem768::DecapKey::generate().map_err(e)?;
    let ek = mlkem768::EncapKey::from_bytes(&d.encapsulation_key().as_bytes()).map_err(e)?;
    let (ss, ct) = ek.encaps().map_err(e)?;
    let mut o = d.as_bytes().to_vec();
    let s2 = d.decaps(&ct);
    o.extend(ss.as_ref());
    o.extend(ct.as_ref());
    o.extend(s2.as_ref());
    Ok(o)
}
fn mlkem_det(seed: u64) -> R {
    let d = mlkem768::DecapKey::keygen_internal(&arr(seed));
    let (ss, ct) = d.encapsulation_key().encaps_internal(mlkem768::Message(arr(seed + 1)));
    let good = d.decaps_internal(&ct);
    let mut bad = *ct.as_ref();
    bad[(seed % 1088) as usize] ^= 1;
    let rej = d.decaps_internal(&bad.into());
    Ok([&d.as_bytes()[..], ss.as_ref(), ct.as_ref(), good.as_ref(), rej.as_ref()].concat())
}
fn ecdsa256(seed: u64) -> R {
    let k = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(P256_SEC1).map_err(e)?;
    let m = bytes(seed, len(seed));
    let mut b = [0u8; 64];
    let s = k.sign::<Sha256>(&[&m], &mut b).map_err(e)?.to_vec();
    let vk = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&k.private_key.public_key_uncompressed()).map_err(e)?;
    let ok = vk.verify::<Sha256>(&[&m], &s).is_ok();
    let bad = vk.verify::<Sha384>(&[&m], &s).is_ok();
    Ok([&s[..], &[ok as u8, bad as u8]].concat())
}
fn ecdsa384(seed: u64) -> R {
    let k = ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(P384_PKCS8).map_err(e)?;
    let m = bytes(seed, len(seed));
    let mut b = [0u8; 150];
    let s = k.sign_asn1::<Sha384>(&[&m], &mut b).map_err(e)?.to_vec();
    let vk = ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(&k.private_key.public_key_uncompressed()).map_err(e)?;
    let ok = vk.verify_asn1::<Sha384>(&[&m], &s).is_ok();
    let bad = vk.verify_asn1::<Sha256>(&[&m], &s).is_ok();
    Ok([&s[..], &[ok as u8, bad as u8]].concat())
}
fn ecdsa256_512(seed: u64) -> R {
    let k = ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(P256_PKCS8).map_err(e)?;
    let mut b = [0u8; 150];
    let s = k.sign_asn1::<Sha512>(&[&bytes(seed, 50)], &mut b).map_err(e)?.to_vec();
    Ok(s)
}
fn ecdsa_gen256(_: u64) -> R {
    let k = ecdsa::SigningKey::<ecdsa::P256>::generate().map_err(e)?;
    let mut b = [0u8; 300];
    let o = k.to_pkcs8_der(&mut b).map_err(e)?.to_vec();
    let o2 = k.to_sec1_der(&mut b).map_err(e)?.to_vec();
    let o3 = k.to_spki_der(&mut b).map_err(e)?.to_vec();
    Ok([o, o2, o3].concat())
}
fn ecdsa_gen384(_: u64) -> R {
    let k = ecdsa::SigningKey::<ecdsa::P384>::generate().map_err(e)?;
    let mut b = [0u8; 400];
    Ok(k.to_pkcs8_der(&mut b).map_err(e)?.to_vec())
}
fn p256_static(_: u64) -> R {
    Ok(p256::StaticPrivateKey::new_random().map_err(e)?.as_bytes().to_vec())
}
fn p384_static(_: u64) -> R {
    Ok(p384::StaticPrivateKey::new_random().map_err(e)?.as_bytes().to_vec())
}
fn x25519_static(_: u64) -> R {
    Ok(x25519::StaticPrivateKey::new_random().map_err(e)?.as_bytes().to_vec())
}
fn ed_gen(_: u64) -> R {
    let k = eddsa::Ed25519SigningKey::generate().map_err(e)?;
    let mut b = [0u8; 200];
    let o = k.to_pkcs8_der(&mut b).map_err(e)?.to_vec();
    Ok([&k.as_seed()[..], &k.public_key().as_bytes(), &o].concat())
}
fn ed_sign(seed: u64) -> R {
    let k = eddsa::Ed25519SigningKey::from_bytes(&bytes(seed, 32)).map_err(e)?;
    let m = bytes(seed, len(seed));
    let s = k.sign(&m);
    let ok = k.public_key().verify(&s, &m).is_ok();
    let mut s2 = s;
    s2[5] ^= 4;
    let bad = k.public_key().verify(&s2, &m).is_ok();
    Ok([&s[..], &[ok as u8, bad as u8]].concat())
}
fn rsa_pkcs1(der: &[u8], seed: u64) -> R {
    let k = rsa::SigningKey::from_pkcs8_der(der).map_err(e)?;
    let m = bytes(seed, len(seed));
    let mut b = [0u8; 1024];
    let s = k.sign_pkcs1_sha256(&mut b, &m).map_err(e)?.to_vec();
    let ok = k.public_key().verify_pkcs1_sha256(&s, &m).is_ok();
    let bad = k.public_key().verify_pkcs1_sha512(&s, &m).is_ok();
    Ok([&s[..], &[ok as u8, bad as u8]].concat())
}
fn rsa_pss(der: &[u8], seed: u64) -> R {
    let k = rsa::SigningKey::from_pkcs8_der(der).map_err(e)?;
    let m = bytes(seed, len(seed));
    let mut b = [0u8; 1024];
    let s = k.sign_pss_sha384(&mut b, &m).map_err(e)?.to_vec();
    let ok = k.public_key().verify_pss_sha384(&s, &m).is_ok();
    let bad = k.public_key().verify_pss_sha256(&s, &m).is_ok();
    Ok([&s[..], &[ok as u8, bad as u8]].concat())
}
fn rsa_pss_n(which: u32, seed: u64) -> R {
    let k = rsa::SigningKey::from_pkcs8_der(RSA2048).map_err(e)?;
    let m = bytes(seed, len(seed));
    let mut b = [0u8; 1024];
    let s = match which {
        256 => k.sign_pss_sha256(&mut b, &m),
        _ => k.sign_pss_sha512(&mut b, &m),
    };
    Ok(s.map_err(e)?.to_vec())
}
fn rsa_gen(_: u64) -> R {
    let k = rsa::SigningKey::generate(rsa::KeySize::Rsa2048).map_err(e)?;
    let mut b = [0u8; 4096];
    Ok(k.to_pkcs8_der(&mut b).map_err(e)?.to_vec())
}
fn random(seed: u64) -> R {
    let mut b = vec![0u8; len(seed) + 1];
    graviola::random::fill(&mut b).map_err(e)?;
    Ok(b)
}

macro_rules! op {
    ($n:expr, $f:expr) => {
        Op { name: $n, run: $f, rng: Some(0), rng_bytes: Some(0), slow: false }
    };
    ($n:expr, $f:expr, $r:expr, $b:expr) => {
        Op { name: $n, run: $f, rng: $r, rng_bytes: $b, slow: false }
    };
    ($n:expr, $f:expr, $r:expr, $b:expr, slow) => {
        Op { name: $n, run: $f, rng: $r, rng_bytes: $b, slow: true }
    };
}

pub fn all() -> Vec<Op> {
    vec![
        op!("sha256", hash::<Sha256>),
        op!("sha384", hash::<Sha384>),
        op!("sha512", hash::<Sha512>),
        op!("sha3-256", |s| {
            let mut h = sha3::Sha3_256Context::new();
            h.update(&bytes(s, len(s)));
            Ok(h.finish().to_vec())
        }),
        op!("sha3-512", |s| {
            let mut h = sha3::Sha3_512Context::new();
            h.update(&bytes(s, len(s)));
            Ok(h.finish().to_vec())
        }),
        op!("shake", |s| {
            let mut o = vec![0u8; len(s) + 200];
            let (a, b) = o.split_at_mut(100);
            sha3::Shake128::new(&[&bytes(s, len(s))]).read(a);
            sha3::Shake256::new(&[&bytes(s, len(s))]).read(b);
            Ok(o)
        }),
        op!("hmac-sha256", hmac::<Sha256>),
        op!("hmac-sha384", hmac::<Sha384>),
        op!("hmac-sha512", hmac::<Sha512>),
        op!("aes128-gcm", |s| gcm(16, s)),
        op!("aes256-gcm", |s| gcm(32, s)),
        op!("aes-gcm-forgery", gcm_bad),
        op!("chacha20poly1305", |s| {
            let k = ChaCha20Poly1305::new(arr(s));
            let mut b = bytes(s, len(s));
            let mut t = [0u8; 16];
            k.encrypt(&arr(s + 1), b"aad", &mut b, &mut t);
            let mut o = b.clone();
            o.extend(t);
            k.decrypt(&arr(s + 1), b"aad", &mut b, &t).map_err(e)?;
            o.extend(b);
            Ok(o)
        }),
        op!("xchacha20poly1305", |s| {
            let k = XChaCha20Poly1305::new(arr(s));
            let mut b = bytes(s, len(s));
            let mut t = [0u8; 16];
            k.encrypt(&arr(s + 1), b"aad", &mut b, &mut t);
            let mut o = b.clone();
            o.extend(t);
            k.decrypt(&arr(s + 1), b"aad", &mut b, &t).map_err(e)?;
            o.extend(b);
            Ok(o)
        }),
        op!("p256-ecdh", ecdh256, Some(1), Some(32)),
        op!("p384-ecdh", ecdh384, Some(1), Some(48)),
        op!("x25519", x25519, Some(1), Some(32)),
        op!("mlkem768", mlkem, Some(2), Some(96)),
        op!("mlkem768-deterministic", mlkem_det),
        op!("ecdsa-p256-sha256", ecdsa256, Some(1), Some(16)),
        op!("ecdsa-p384-sha384", ecdsa384, Some(1), Some(16)),
        op!("ecdsa-p256-sha512", ecdsa256_512, Some(1), Some(16)),
        op!("ecdsa-p256-generate", ecdsa_gen256, Some(1), Some(32)),
        op!("ecdsa-p384-generate", ecdsa_gen384, Some(1), Some(48)),
        op!("p256-static-generate", p256_static, Some(1), Some(32)),
        op!("p384-static-generate", p384_static, Some(1), Some(48)),
        op!("x25519-static-generate", x25519_static, Some(1), Some(32)),
        op!("ed25519-generate", ed_gen, Some(1), Some(32)),
        op!("ed25519-sign", ed_sign),
        op!("rsa2048-pkcs1", |s| rsa_pkcs1(RSA2048, s), Some(0), Some(0), slow),
        op!("rsa3072-pkcs1", |s| rsa_pkcs1(RSA3072, s), Some(0), Some(0), slow),
        op!("rsa4096-pkcs1", |s| rsa_pkcs1(RSA4096, s), Some(0), Some(0), slow),
        op!("rsa2048-pss", |s| rsa_pss(RSA2048, s), Some(1), Some(48), slow),
        op!("rsa3072-pss", |s| rsa_pss(RSA3072, s), Some(1), Some(48), slow),
        op!("rsa2048-pss-sha256", |s| rsa_pss_n(256, s), Some(1), Some(32), slow),
        op!("rsa2048-pss-sha512", |s| rsa_pss_n(512, s), Some(1), Some(64), slow),
        op!("rsa2048-generate", rsa_gen, None, None, slow),
        op!("random-fill", random, Some(1), None),
    ]
}
