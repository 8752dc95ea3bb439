//! C20: the library touches only the memory it was handed.
//!
//! Every slice an operation receives lies directly against an inaccessible
//! page, at its end and at its start; inputs are mapped read-only; the rest of
//! an output's region is checked for strays.  Every length in the stated
//! ranges is enumerated, in every distinct processor configuration.
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashContext, Sha256, Sha384, Sha512, sha2, sha3};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::aeads::{ALL, Imp, Ref};
use mc::fw::{self, Ctx, L};
use mc::guard::{Buf, PLACES, Place};
use mc::hashref::H;
use mc::ops;
use mc::rng::{arr, bytes};

fn inp(d: &[u8], p: Place) -> Buf {
    Buf::input(d, p)
}
fn outp(d: &[u8], p: Place) -> Buf {
    Buf::output(d, p)
}

fn sha2s<T: Hash>(l: &mut L, h: H, n: usize, place: Place, pre: &[usize]) {
    let m = bytes(n as u64, n);
    let b = inp(&m, place);
    l.t(1);
    l.check(T::hash(b.get()).as_ref() == h.hash(&m), || format!("{h:?} one-shot length {n}"));
    // with `p` bytes already buffered, then split in two
    for &p in pre {
        let pb = inp(&bytes(7, p), place);
        let mut c = T::new();
        c.update(pb.get());
        c.update(b.get());
        l.t(1);
        let want = h.hash(&[pb.get(), &m].concat());
        l.check(c.finish().as_ref() == want, || format!("{h:?} length {p}+{n}"));
    }
}

fn hashes(ctx: &Ctx, n: usize) {
    ctx.section("sha2", n * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        l.note(|| format!("length {n} at {p:?}"));
        l.s64(n as u64);
        sha2s::<Sha256>(l, H::S256, n, p, &[1, 31, 55, 56, 63, 64, 65]);
        sha2s::<Sha384>(l, H::S384, n, p, &[1, 111, 112, 127, 128, 129]);
        sha2s::<Sha512>(l, H::S512, n, p, &[1, 63, 111, 112, 127, 128, 129]);
        let b = inp(&bytes(n as u64, n), p);
        let mut c = sha2::Sha384Context::new();
        c.update(b.get());
        l.check(c.finish().to_vec() == H::S384.hash(b.get()), || format!("sha2::Sha384Context {n}"));
    });
    ctx.section("sha3-shake", n * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        let m = bytes(n as u64, n);
        let b = inp(&m, p);
        for pre in [0, 1, 71, 72, 135, 136, 168] {
            let pb = inp(&bytes(3, pre), p);
            let w = [pb.get(), &m].concat();
            let mut c = sha3::Sha3_256Context::new();
            c.update(pb.get());
            c.update(b.get());
            l.t(2);
            l.check(c.finish() == mc::hashref::sha3_256(&w), || format!("sha3-256 {pre}+{n}"));
            let mut c = sha3::Sha3_512Context::new();
            c.update(pb.get());
            c.update(b.get());
            l.check(c.finish() == mc::hashref::sha3_512(&w), || format!("sha3-512 {pre}+{n}"));
        }
        let mut s = sha3::Shake128::new(&[b.get(), b.get()]);
        let mut o = outp(&vec![0; n], p);
        s.read(o.get_mut());
        let mut o2 = outp(&vec![0; n / 3], p);
        s.read(o2.get_mut());
        let want = mc::hashref::shake128(&[&m[..], &m].concat(), n + n / 3);
        l.t(4);
        l.check(o.get() == &want[..n] && o2.get() == &want[n..] && o.clean() && o2.clean(), || format!("shake128 {n}"));
        let mut s = sha3::Shake256::new(&[b.get(), b.get()]);
        let mut o = outp(&vec![0; n], p);
        s.read(o.get_mut());
        let want = mc::hashref::shake256(&[&m[..], &m].concat(), n);
        l.check(o.get() == &want[..n] && o.clean(), || format!("shake256 {n}"));
    });
    ctx.section("hmac", n.min(400) * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        fn one<T: Hash + Clone>(l: &mut L, h: H, n: usize, p: Place) {
            let (k, m) = (inp(&bytes(1, n), p), inp(&bytes(2, 400 - n.min(400)), p));
            let want = h.hmac(k.get(), m.get());
            let mut c = Hmac::<T>::new(k.get());
            c.update(m.get());
            let t = inp(&want, p);
            l.t(1);
            let c2 = c.clone();
            l.check(c.verify(t.get()).is_ok(), || format!("hmac {h:?} key {n}"));
            // tags of any length
            for tl in 0..want.len() {
                let t = inp(&want[..tl], p);
                l.check(c2.clone().verify(t.get()).is_err(), || "hmac: short tag accepted".into());
            }
            let o = c2.finish();
            for tl in [0, 1, 31, want.len(), want.len() + 1, 64, 65] {
                let mut x = want.clone();
                x.resize(tl, 0);
                let t = inp(&x, p);
                let _ = std::hint::black_box((o.ct_equal(t.get()), o.truncated_ct_equal::<16>(t.get())));
            }
        }
        // comparison against a prefix, of every length
        if n < 2 {
            macro_rules! trunc {
                ($o:expr, $($n:literal)*) => { $( {
                    let w = $o.as_ref().to_vec();
                    if $n <= w.len() {
                        let t = inp(&w[..$n], p);
                        l.t(1);
                        l.check($o.truncated_ct_equal::<$n>(t.get()), || format!("equal prefix of {} refused", $n));
                    }
                } )* };
            }
            for o in [Sha256::hash(&[n as u8]), Sha384::hash(&[n as u8]), Sha512::hash(&[n as u8])] {
                trunc!(o, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
                    33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
            }
        }
        one::<Sha256>(l, H::S256, n, p);
        one::<Sha384>(l, H::S384, n, p);
        one::<Sha512>(l, H::S512, n, p);
    });
}

fn aeads(ctx: &Ctx, n: usize) {
    // message lengths with the other lengths at their corners, and the reverse
    let mut shapes: Vec<(usize, usize)> = (0..n).flat_map(|m| [0usize, 1, 13, 16].map(|a| (m, a))).collect();
    shapes.extend((0..n.min(400)).flat_map(|a| [0usize, 1, 17].map(|m| (m, a))));
    shapes.extend([1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 16384, 16401].map(|m| (m, 20)));
    let total = shapes.len() * 2 * ALL.len();
    ctx.section("aead", total, |i, l| {
        let (a, p, (ml, al)) = (ALL[i % 4], PLACES[i / 4 % 2], shapes[i / 8]);
        l.note(|| format!("{a:?} message {ml} aad {al} at {p:?}"));
        l.s64((i / 8) as u64);
        let (key, nonce, aad) = (inp(&bytes(i as u64, a.klen()), p), inp(&bytes(3, a.nlen()), p), inp(&bytes(4, al), p));
        let pt = bytes(5, ml);
        let mut b = outp(&pt, p);
        let mut t = outp(&[0; 16], p);
        let k = Imp::new(a, key.get());
        {
            let (tg, b) = (t.get_mut().try_into().unwrap(), b.get_mut());
            match &k {
                Imp::G(k) => k.encrypt(nonce.arr(), aad.get(), b, tg),
                Imp::C(k) => k.encrypt(nonce.arr(), aad.get(), b, tg),
                Imp::X(k) => k.encrypt(nonce.arr(), aad.get(), b, tg),
            }
        }
        l.t(1);
        let (wc, wt) = Ref::new(a, key.get()).seal(nonce.get(), aad.get(), &pt);
        l.check(b.get() == wc && t.get() == wt, || format!("{a:?}: wrong result for message {ml} aad {al}"));
        l.check(b.clean() && t.clean(), || format!("{a:?}: encryption wrote around its output (message {ml}, aad {al})"));
        let tin = inp(&wt, p);
        let ok = k.dec(nonce.get(), aad.get(), b.get_mut(), tin.get());
        l.t(1);
        l.check(ok && b.get() == pt && b.clean(), || format!("{a:?}: decryption (message {ml}, aad {al})"));
        let mut bad = wt;
        bad[i % 16] ^= 1;
        let tl = [16usize, 0, 1, 15, 17, 32][i / 8 % 6];
        let mut bad = bad.to_vec();
        bad.resize(tl, 9);
        let tin = inp(&bad, p);
        let ok = k.dec(nonce.get(), aad.get(), b.get_mut(), tin.get());
        l.t(1);
        l.check(!ok && b.clean(), || format!("{a:?}: failed decryption (message {ml}, aad {al})"));
    });
    // every key length the interface accepts or refuses
    ctx.section("aes-key-lengths", 80 * 2, |i, l| {
        let k = inp(&bytes(1, i / 2), PLACES[i % 2]);
        let r = fw::no_panic(|| graviola::aead::AesGcm::new(k.get()));
        l.t(1);
        l.check(r.is_ok() == matches!(i / 2, 16 | 32), || format!("AES key of {} bytes", i / 2));
    });
}

/// every decoder on every prefix (and small extension) of valid encodings
fn decoders(ctx: &Ctx) {
    let mut encs: Vec<Vec<u8>> = [ops::RSA2048, ops::RSA3072, ops::RSA2048_PKCS1, ops::P256_PKCS8, ops::P384_PKCS8, ops::P256_SEC1, ops::P384_SEC1].iter().map(|x| x.to_vec()).collect();
    let mut buf = [0u8; 4096];
    let rk = rsa::SigningKey::from_pkcs8_der(ops::RSA2048).unwrap();
    encs.push(rk.public_key().to_spki_der(&mut buf).unwrap().to_vec());
    encs.push(rk.public_key().to_pkcs1_der(&mut buf).unwrap().to_vec());
    let ek = eddsa::Ed25519SigningKey::from_bytes(&[5; 32]).unwrap();
    encs.push(ek.to_pkcs8_der(&mut buf).unwrap().to_vec());
    encs.push(ek.public_key().to_spki_der(&mut buf).unwrap().to_vec());
    let ck = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(ops::P256_SEC1).unwrap();
    encs.push(ck.private_key.public_key_uncompressed().to_vec());
    let ck = ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(ops::P384_SEC1).unwrap();
    encs.push(ck.private_key.public_key_uncompressed().to_vec());
    // lengths that lie: every length octet replaced
    let mut all: Vec<Vec<u8>> = vec![];
    for e in &encs {
        let step = if e.len() > 400 && ctx.quick() { 7 } else { 1 };
        for n in (0..=e.len()).filter(|n| *n < 64 || n % step == 0 || *n + 64 > e.len()) {
            all.push(e[..n].to_vec());
        }
        let mut x = e.clone();
        x.extend([0; 3]);
        all.push(x);
        for at in 0..e.len().min(40) {
            for v in [0u8, 1, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0xff] {
                let mut x = e.clone();
                x[at] = v;
                all.push(x.clone());
                // and cut right behind it
                for k in 1..6 {
                    all.push(x[..(at + k).min(x.len())].to_vec());
                }
            }
        }
    }
    all.sort();
    all.dedup();
    ctx.section("decoders", all.len() * 2, |i, l| {
        let b = inp(&all[i / 2], PLACES[i % 2]);
        let d = b.get();
        l.s(d);
        let r = fw::no_panic(|| {
            let mut k = 0u32;
            k += rsa::SigningKey::from_pkcs8_der(d).is_ok() as u32;
            k += rsa::SigningKey::from_pkcs1_der(d).is_ok() as u32;
            k += rsa::VerifyingKey::from_pkcs1_der(d).is_ok() as u32;
            k += ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(d).is_ok() as u32;
            k += ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(d).is_ok() as u32;
            k += ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(d).is_ok() as u32;
            k += ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(d).is_ok() as u32;
            k += ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(d).is_ok() as u32;
            k += ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(d).is_ok() as u32;
            k += eddsa::Ed25519SigningKey::from_pkcs8_der(d).is_ok() as u32;
            k += eddsa::Ed25519SigningKey::from_bytes(d).is_ok() as u32;
            k += eddsa::Ed25519VerifyingKey::from_spki_der(d).is_ok() as u32;
            k += eddsa::Ed25519VerifyingKey::from_bytes(d).is_ok() as u32;
            k += p256::PublicKey::from_x962_uncompressed(d).is_ok() as u32;
            k += p384::PublicKey::from_x962_uncompressed(d).is_ok() as u32;
            k += p256::StaticPrivateKey::from_bytes(d).is_ok() as u32;
            k += p384::StaticPrivateKey::from_bytes(d).is_ok() as u32;
            k += x25519::PublicKey::try_from_slice(d).is_ok() as u32;
            k += x25519::StaticPrivateKey::try_from_slice(d).is_ok() as u32;
            k
        });
        l.t(19);
        l.check(r.is_ok(), || format!("decoder panicked: {r:?}"));
    });
    // short raw inputs of every length
    ctx.section("raw-lengths", 200 * 2, |i, l| {
        for fill in [0u8, 1, 4, 0x30, 0xff] {
            let mut d = vec![fill; i / 2];
            if let Some(x) = d.first_mut() {
                *x = [4, fill][i % 2];
            }
            let b = inp(&d, PLACES[i % 2]);
            let d = b.get();
            let r = fw::no_panic(|| {
                let _ = p256::PublicKey::from_x962_uncompressed(d);
                let _ = p384::PublicKey::from_x962_uncompressed(d);
                let _ = p256::StaticPrivateKey::from_bytes(d);
                let _ = p384::StaticPrivateKey::from_bytes(d);
                let _ = x25519::PublicKey::try_from_slice(d);
                let _ = x25519::StaticPrivateKey::try_from_slice(d);
                let _ = mlkem768::EncapKey::from_bytes(&bytes(1, 1184).try_into().unwrap());
                let _ = eddsa::Ed25519SigningKey::from_bytes(d);
                let _ = eddsa::Ed25519VerifyingKey::from_bytes(d);
            });
            l.t(8);
            l.check(r.is_ok(), || format!("panicked on {} bytes: {r:?}", i / 2));
        }
    });
}

fn signatures(ctx: &Ctx) {
    // signature slices of every length, message of many
    let ck = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(ops::P256_SEC1).unwrap();
    let vk = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&ck.private_key.public_key_uncompressed()).unwrap();
    let ck3 = ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(ops::P384_SEC1).unwrap();
    let vk3 = ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(&ck3.private_key.public_key_uncompressed()).unwrap();
    ctx.section("ecdsa", 160 * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        let m = inp(&bytes(2, n), p);
        // signing into buffers of every length
        let mut o = outp(&vec![0; n], p);
        let r = ck.sign::<Sha256>(&[m.get(), m.get()], o.get_mut()).map(|s| s.len());
        l.check(r.is_ok() == (n >= 64) && o.clean(), || format!("p256 sign into {n}: {r:?}"));
        let mut o = outp(&vec![0; n], p);
        let r = ck.sign_asn1::<Sha256>(&[m.get()], o.get_mut()).map(|s| s.len());
        l.check(o.clean(), || format!("p256 sign_asn1 into {n}: {r:?}"));
        let mut o = outp(&vec![0; n], p);
        let r = ck3.sign::<Sha384>(&[m.get()], o.get_mut()).map(|s| s.len());
        l.check(r.is_ok() == (n >= 96) && o.clean(), || format!("p384 sign into {n}: {r:?}"));
        let mut o = outp(&vec![0; n], p);
        let r = ck3.sign_asn1::<Sha384>(&[m.get()], o.get_mut()).map(|s| s.len());
        l.check(o.clean(), || format!("p384 sign_asn1 into {n}: {r:?}"));
        // verifying signatures cut or extended to every length
        let (mut b, mut b2) = ([0u8; 150], [0u8; 150]);
        let s = ck.sign::<Sha256>(&[m.get()], &mut b).unwrap();
        let a = ck.sign_asn1::<Sha256>(&[m.get()], &mut b2).unwrap();
        let (mut sv, mut av) = (s.to_vec(), a.to_vec());
        let (g, ga) = (sv.len() == n, av.len() == n);
        sv.resize(n, 0);
        av.resize(n, 0);
        let (sv, av) = (inp(&sv, p), inp(&av, p));
        l.t(8);
        l.check(vk.verify::<Sha256>(&[m.get()], sv.get()).is_ok() == g, || format!("verify {n} bytes"));
        l.check(vk.verify_asn1::<Sha256>(&[m.get()], av.get()).is_ok() == ga, || format!("verify_asn1 {n} bytes"));
        let s = ck3.sign::<Sha384>(&[m.get()], &mut b).unwrap();
        let a = ck3.sign_asn1::<Sha384>(&[m.get()], &mut b2).unwrap();
        let (mut sv, mut av) = (s.to_vec(), a.to_vec());
        let (g, ga) = (sv.len() == n, av.len() == n);
        sv.resize(n, 0);
        av.resize(n, 0);
        let (sv, av) = (inp(&sv, p), inp(&av, p));
        l.check(vk3.verify::<Sha384>(&[m.get()], sv.get()).is_ok() == g, || format!("p384 verify {n} bytes"));
        l.check(vk3.verify_asn1::<Sha384>(&[m.get()], av.get()).is_ok() == ga, || format!("p384 verify_asn1 {n} bytes"));
    });
    let ed = eddsa::Ed25519SigningKey::from_bytes(&[5; 32]).unwrap();
    ctx.section("ed25519", ctx.pick(300, 1200) * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        let seed = inp(&bytes(9, 32), p);
        let k = eddsa::Ed25519SigningKey::from_bytes(seed.get()).unwrap();
        let m = inp(&bytes(2, n), p);
        let s = inp(&k.sign(m.get()), p);
        l.t(3);
        l.check(k.public_key().verify(s.get(), m.get()).is_ok(), || "own signature".into());
        let mut sv = ed.sign(m.get()).to_vec();
        sv.resize(n % 100, 0);
        let sv = inp(&sv, p);
        l.check(ed.public_key().verify(sv.get(), m.get()).is_ok() == (n % 100 == 64), || format!("signature of {} bytes", n % 100));
    });
    // RSA: every key size class, signature buffers around the size
    let keys: Vec<_> = mc::rsaref::fixtures().into_iter().chain(mc::rsaref::samples()).filter(|k| ctx.pick(k.n.bits() <= 4096 || k.n.bits() == 8192, true)).filter_map(|k| rsa::SigningKey::from_pkcs1_der(&k.pkcs1()).ok().map(|s| (k, s))).collect();
    ctx.section("rsa", keys.len() * 6, |i, l| {
        let (k, sk) = &keys[i / 6];
        let (p, d) = (PLACES[i % 2], [-1i64, 0, 9][i / 2 % 3]);
        let n = (k.k() as i64 + d) as usize;
        let m = inp(&bytes(4, 33), p);
        let mut o = outp(&vec![0; n], p);
        let r = sk.sign_pkcs1_sha256(o.get_mut(), m.get()).map(|s| s.to_vec());
        l.t(2);
        l.check(o.clean() && (d >= 0 || r.is_err()), || format!("rsa-{} pkcs1 into {n}", k.n.bits()));
        let mut o = outp(&vec![0; n], p);
        let r2 = sk.sign_pss_sha512(o.get_mut(), m.get()).map(|s| s.to_vec());
        l.check(o.clean() && (d >= 0 || r2.is_err()), || format!("rsa-{} pss into {n}", k.n.bits()));
        if let (Ok(s), Ok(s2)) = (r, r2) {
            for (cut, want) in [(s.len(), true), (s.len() - 1, false), (s.len() + 1, false), (0, false), (1, false)] {
                let (mut a, mut b) = (s.clone(), s2.clone());
                a.resize(cut, 0);
                b.resize(cut, 0);
                let (a, b) = (inp(&a, p), inp(&b, p));
                let vk = sk.public_key();
                l.t(2);
                l.check(vk.verify_pkcs1_sha256(a.get(), m.get()).is_ok() == want, || "rsa pkcs1 verify".into());
                l.check(vk.verify_pss_sha512(b.get(), m.get()).is_ok() == want, || "rsa pss verify".into());
            }
        }
    });
    // encoders into buffers of every length
    let rk = rsa::SigningKey::from_pkcs8_der(ops::RSA2048).unwrap();
    ctx.section("encoders", 1400 * 2, |i, l| {
        let (n, p) = (i / 2, PLACES[i % 2]);
        let fs: [&(dyn Fn(&mut [u8]) -> bool + Sync); 9] = [
            &|o| ck.to_pkcs8_der(o).is_ok(),
            &|o| ck.to_sec1_der(o).is_ok(),
            &|o| ck.to_spki_der(o).is_ok(),
            &|o| ck3.to_pkcs8_der(o).is_ok(),
            &|o| ed.to_pkcs8_der(o).is_ok(),
            &|o| ed.public_key().to_spki_der(o).is_ok(),
            &|o| rk.to_pkcs8_der(o).is_ok(),
            &|o| rk.to_pkcs1_der(o).is_ok(),
            &|o| rk.public_key().to_spki_der(o).is_ok() | rk.public_key().to_pkcs1_der(o).is_ok(),
        ];
        if n > 420 && n < 1150 && i % 2 == 1 {
            return;
        }
        for (k, f) in fs.iter().enumerate() {
            let mut o = outp(&vec![0; n], p);
            let r = fw::no_panic(|| f(o.get_mut()));
            l.t(1);
            l.check(r.is_ok() && o.clean(), || format!("encoder {k} into {n} bytes: {r:?}"));
        }
    });
}

fn agreement(ctx: &Ctx) {
    ctx.section("key-agreement", 40 * 2, |i, l| {
        let p = PLACES[i % 2];
        let s = inp(&arr::<32>(i as u64), p);
        let k = x25519::StaticPrivateKey::from_array(s.arr());
        let pk = inp(&k.public_key().as_bytes(), p);
        let a = x25519::StaticPrivateKey::try_from_slice(s.get()).unwrap().diffie_hellman(&x25519::PublicKey::from_array(pk.arr())).unwrap();
        let b = k.diffie_hellman(&x25519::PublicKey::try_from_slice(pk.get()).unwrap()).unwrap();
        l.t(4);
        l.check(a.0 == b.0, || "x25519".into());
        macro_rules! nist {
            ($m:ident, $n:literal) => {
                let mut d = arr::<$n>(i as u64);
                d[0] &= 0x7f;
                let s = inp(&d, p);
                let k = $m::StaticPrivateKey::from_bytes(s.get()).unwrap();
                let pk = inp(&k.public_key_uncompressed(), p);
                let peer = $m::PublicKey::from_x962_uncompressed(pk.get()).unwrap();
                let x = k.diffie_hellman(&peer).unwrap();
                l.t(3);
                l.check(x.0 != [0; $n] && peer.as_bytes_uncompressed()[..] == *pk.get(), || stringify!($m).into());
            };
        }
        nist!(p256, 32);
        nist!(p384, 48);
        let seed = inp(&arr::<64>(i as u64), p);
        let dk = mlkem768::DecapKey::keygen_internal(seed.arr());
        let ekb = inp(&dk.encapsulation_key().as_bytes(), p);
        let ek = mlkem768::EncapKey::from_bytes(ekb.arr()).unwrap();
        let (ss, ct) = ek.encaps_internal(mlkem768::Message(arr(2)));
        l.t(4);
        l.check(dk.decaps_internal(&ct).as_ref() == ss.as_ref(), || "mlkem".into());
        l.s(ss.as_ref());
    });
    ctx.section("random-fill", 600 * 2, |i, l| {
        let mut o = outp(&vec![0; i / 2], PLACES[i % 2]);
        l.t(1);
        l.check(graviola::random::fill(o.get_mut()).is_ok() && o.clean(), || "random::fill".into());
    });
}

fn main() {
    fw::main("C20", |ctx| {
        ctx.assume("Accesses are observed at page granularity: an access outside a buffer is seen when it leaves the accessible region, whose edge coincides with the buffer's edge; writes inside the region but outside the buffer are seen as damage to its background; reads there are not, except in the other placement.");
        ctx.assume("Instruction-level confinement inside the library's own memory (stack, tables) is not observed.");
        let deny: &[&[&str]] = if ctx.quick() { &[&[], &["avx512f"], &["sha"], &["bmi2"]] } else { &[&[], &["avx512f"], &["sha"], &["bmi2"], &["vaes", "sha", "bmi2"]] };
        for d in deny {
            ctx.cpu_mask(d);
            if d.is_empty() || d.contains(&"sha") {
                hashes(ctx, ctx.pick(1500, 4200));
            }
            if d.is_empty() || d.contains(&"avx512f") || d.contains(&"vaes") {
                aeads(ctx, ctx.pick(1200, 2500));
            }
            if d.is_empty() || d.contains(&"bmi2") {
                agreement(ctx);
                signatures(ctx);
            }
        }
        ctx.cpu_mask(&[]);
        decoders(ctx);
    })
}
