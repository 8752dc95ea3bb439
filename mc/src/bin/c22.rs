//! C22: operations are independent of history and of concurrent operations.
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashContext, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::ops;
use mc::rng::{self, Src, State, arr, bytes};
use mc::sched::{self, Point};
use mc::watch::{self, When};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

/// a result as the caller sees it
type Out = Result<Result<Vec<u8>, String>, String>;

/// One step of a history: an operation on inputs of its own.
#[derive(Clone)]
struct Step {
    name: String,
    run: Arc<dyn Fn() -> Out + Send + Sync>,
    slow: bool,
}

fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}

fn scripted(seed: u64, fail: Option<usize>, f: impl FnOnce() -> Result<Vec<u8>, String>) -> Out {
    let mut st = State::new(Src::Stream(seed));
    st.fail_at = fail;
    rng::with(st, || no_panic(f)).0
}

/// the shared catalogue under several inputs, failures included, plus steps
/// whose inputs overlap with each other (same key and other nonce, keys that
/// agree in part, and so on): what a cache keyed too loosely would confuse
fn steps(seeds: &[u64]) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    for op in ops::all() {
        if op.name == "rsa2048-generate" || op.name == "rsa4096-pkcs1" {
            continue;
        }
        for &s in seeds.iter().take(if op.slow { 1 } else { 9 }) {
            v.push(Step { name: format!("{}/{s}", op.name), slow: op.slow, run: Arc::new(move || scripted(s, None, || (op.run)(s))) });
        }
        if op.rng != Some(0) {
            v.push(Step { name: format!("{}/failing source", op.name), slow: op.slow, run: Arc::new(move || scripted(1, Some(0), || (op.run)(1))) });
        }
    }
    let mut add = |name: &str, f: fn() -> Result<Vec<u8>, String>| {
        v.push(Step { name: name.into(), slow: false, run: Arc::new(move || scripted(3, None, f)) });
    };
    fn gcm(k: &[u8], n: u8, m: u8, len: usize) -> Result<Vec<u8>, String> {
        let (mut b, mut t) = (vec![m; len], [0; 16]);
        AesGcm::new(k).encrypt(&[n; 12], b"", &mut b, &mut t);
        b.extend(t);
        Ok(b)
    }
    add("aes related 0", || gcm(&[7; 16], 1, 1, 100));
    add("aes related 1", || gcm(&[7; 32], 1, 1, 100));
    add("aes related 2", || gcm(&[&[7u8; 15][..], &[8]].concat(), 1, 1, 100));
    add("aes related 3", || gcm(&[&[8u8][..], &[7; 15]].concat(), 1, 1, 100));
    add("aes related 4", || gcm(&[7; 16], 2, 1, 100));
    add("aes related 5", || gcm(&[&[7u8; 16][..], &[8; 16]].concat(), 1, 1, 600));
    add("aes forged", || Ok(format!("{:?}", AesGcm::new(&[7; 16]).decrypt(&[1; 12], b"", &mut [0; 40], &[0; 16])).into()));
    add("aes bad key", || Ok(format!("{:?}", no_panic(|| drop(AesGcm::new(&[7; 24]))).is_err()).into()));
    fn cha(k: [u8; 32], n: u8) -> Result<Vec<u8>, String> {
        let (mut b, mut t) = (vec![1; 100], [0; 16]);
        ChaCha20Poly1305::new(k).encrypt(&[n; 12], b"", &mut b, &mut t);
        b.extend(t);
        Ok(b)
    }
    add("chacha related 0", || cha([7; 32], 1));
    add("chacha related 1", || cha([7; 32], 2));
    add("chacha related 2", || {
        let mut k = [7; 32];
        k[31] = 8;
        cha(k, 1)
    });
    add("chacha related 3", || {
        let mut k = [7; 32];
        k[0] = 8;
        cha(k, 1)
    });
    add("chacha forged", || Ok(format!("{:?}", ChaCha20Poly1305::new([7; 32]).decrypt(&[1; 12], b"", &mut [0; 40], &[0; 16])).into()));
    add("xchacha related 0", || {
        let (mut b, mut t) = (vec![1; 100], [0; 16]);
        XChaCha20Poly1305::new([7; 32]).encrypt(&[1; 24], b"", &mut b, &mut t);
        b.extend(t);
        Ok(b)
    });
    add("hmac related 0", || Ok(Hmac::<Sha256>::new([7; 32]).finish().as_ref().to_vec()));
    add("hmac related 1", || Ok(Hmac::<Sha256>::new([7; 33]).finish().as_ref().to_vec()));
    add("hmac related 2", || {
        let mut k = [7u8; 32];
        k[31] = 8;
        Ok(Hmac::<Sha256>::new(k).finish().as_ref().to_vec())
    });
    add("hmac abandoned", || {
        let mut h = Hmac::<Sha512>::new([1; 200]);
        h.update([2; 99]);
        drop(h);
        Ok(vec![])
    });
    add("hash abandoned", || {
        let mut h = Sha384::new();
        h.update(&[2; 99]);
        drop(h);
        Ok(vec![])
    });
    add("x25519 zero result", || Ok(e(x25519::StaticPrivateKey::from_array(&[1; 32]).diffie_hellman(&x25519::PublicKey::from_array(&[0; 32])).map(|s| s.0)).into()));
    fn xd(p: u8) -> Result<Vec<u8>, String> {
        let peer = x25519::StaticPrivateKey::from_array(&[p; 32]).public_key();
        Ok(x25519::StaticPrivateKey::from_array(&[1; 32]).diffie_hellman(&peer).map_err(e)?.0.to_vec())
    }
    add("x25519 related 0", || xd(1));
    add("x25519 related 1", || xd(2));
    add("p256 bad peer", || Ok(e(p256::PublicKey::from_x962_uncompressed(&[4; 65]).is_err()).into()));
    add("p384 bad peer", || Ok(e(p384::PublicKey::from_x962_uncompressed(&[4; 97]).is_err()).into()));
    fn pd(k: u8, p: u8) -> Result<Vec<u8>, String> {
        let peer = p256::StaticPrivateKey::from_bytes(&[p; 32]).map_err(e)?.public_key_uncompressed();
        let peer = p256::PublicKey::from_x962_uncompressed(&peer).map_err(e)?;
        Ok(p256::StaticPrivateKey::from_bytes(&[k; 32]).map_err(e)?.diffie_hellman(&peer).map_err(e)?.0.to_vec())
    }
    add("p256 related 0", || pd(1, 1));
    add("p256 related 1", || pd(1, 2));
    add("p256 related 2", || pd(2, 1));
    fn pd3(k: u8, p: u8) -> Result<Vec<u8>, String> {
        let peer = p384::StaticPrivateKey::from_bytes(&[p; 48]).map_err(e)?.public_key_uncompressed();
        let peer = p384::PublicKey::from_x962_uncompressed(&peer).map_err(e)?;
        Ok(p384::StaticPrivateKey::from_bytes(&[k; 48]).map_err(e)?.diffie_hellman(&peer).map_err(e)?.0.to_vec())
    }
    add("p384 related 0", || pd3(1, 1));
    add("p384 related 1", || pd3(1, 2));
    fn es(k: u8, m: &[u8]) -> Result<Vec<u8>, String> {
        let sk = eddsa::Ed25519SigningKey::from_bytes(&[k; 32]).map_err(e)?;
        let s = sk.sign(m);
        Ok([&s[..], &[sk.public_key().verify(&s, m).is_ok() as u8, sk.public_key().verify(&s, b"other").is_ok() as u8]].concat())
    }
    add("ed25519 related 0", || es(1, b"m"));
    add("ed25519 related 1", || es(1, b"n"));
    add("ed25519 related 2", || es(2, b"m"));
    fn cs(m: &[u8], other: bool) -> Result<Vec<u8>, String> {
        let k = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(ops::P256_SEC1).map_err(e)?;
        let mut b = [0; 64];
        let s = k.sign::<Sha256>(&[m], &mut b).map_err(e)?.to_vec();
        let pk = k.private_key.public_key_uncompressed();
        let k2 = p256::StaticPrivateKey::from_bytes(&[9; 32]).map_err(e)?.public_key_uncompressed();
        let vk = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(if other { &k2 } else { &pk }).map_err(e)?;
        Ok([&s[..], &[vk.verify::<Sha256>(&[m], &s).is_ok() as u8]].concat())
    }
    add("ecdsa related 0", || cs(b"m", false));
    add("ecdsa related 1", || cs(b"n", false));
    add("ecdsa related 2", || cs(b"m", true));
    fn mk(s: u8, m: u8) -> Result<Vec<u8>, String> {
        let d = mlkem768::DecapKey::keygen_internal(&[s; 64]);
        let (ss, ct) = d.encapsulation_key().encaps_internal(mlkem768::Message([m; 32]));
        Ok([ss.as_ref(), &ct.as_ref()[..64], d.decaps_internal(&ct).as_ref()].concat())
    }
    add("mlkem related 0", || mk(1, 1));
    add("mlkem related 1", || mk(1, 2));
    add("mlkem related 2", || mk(2, 1));
    add("decoder errors", || {
        let r = [
            rsa::SigningKey::from_pkcs8_der(&[0x30, 3, 2, 1, 0]).is_err(),
            ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(ops::P384_PKCS8).is_err(),
            eddsa::Ed25519SigningKey::from_pkcs8_der(ops::P256_PKCS8).is_err(),
        ];
        Ok(e(r).into())
    });
    v
}

/// what `f` returns as the first thing a fresh process does
fn in_child(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let out = f();
            let mut o = 0;
            while o < out.len() {
                let n = libc::write(fd[1], out[o..].as_ptr().cast(), out.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut v = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        v
    }
}
fn fresh(s: &Step) -> Vec<u8> {
    in_child(|| flat(&(s.run)()))
}

/// Run `a`, and `b` on another thread just before or after write `at` of `a` to
/// `areas`.  The results, and whether `a` made so many writes.
fn switch(areas: &[(usize, usize)], a: &Step, b: &Step, at: usize, when: When) -> (Vec<u8>, Option<Vec<u8>>) {
    let go = Box::new(AtomicUsize::new(0));
    let mut out = None;
    let other: Mutex<Option<Vec<u8>>> = Mutex::new(None);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while go.load(Ordering::Acquire) == 0 {
                std::thread::yield_now();
            }
            if go.load(Ordering::Acquire) == 1 {
                let r = flat(&(b.run)());
                *other.lock().unwrap() = Some(r);
                go.store(2, Ordering::Release);
            }
        });
        let hook = |n: usize, w: When, _: usize, _: usize| {
            if n == at && w == when {
                go.store(1, Ordering::Release);
                // a lock held by the interrupted operation makes the
                // other one wait: then let the first go on
                let t = std::time::Instant::now();
                while go.load(Ordering::Acquire) == 1 && t.elapsed().as_millis() < 200 {
                    std::hint::spin_loop();
                }
            }
        };
        watch::watch(areas, &hook, &mut || out = Some((a.run)()));
        let _ = go.compare_exchange(0, 3, Ordering::AcqRel, Ordering::Acquire);
    });
    (flat(out.as_ref().unwrap()), other.into_inner().unwrap())
}

/// The first uses: each operation in a process in which nothing ran before,
/// with another operation's first use at each of its writes to static data.
fn first_use(ctx: &Ctx, all: &[Step], base: &[Vec<u8>]) {
    let areas = [watch::statics()];
    let found: Mutex<Vec<(usize, usize)>> = Default::default();
    ctx.section_t("first-use-writes", all.len(), 1, |i, l| {
        let r = in_child(|| {
            let mut out = None;
            let (n, _) = watch::watch(&areas, &|_, _, _, _| {}, &mut || out = Some((all[i].run)()));
            [&(n as u64).to_le_bytes()[..], &flat(&out.unwrap())].concat()
        });
        if !l.check(r.len() >= 8, || format!("{}: crashes when its writes are watched", all[i].name)) {
            return;
        }
        let n = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
        l.t(n as u64 + 1);
        l.s(format!("{i} {n}").as_bytes());
        l.note(|| format!("{}: {n} writes to static data in its first use", all[i].name));
        l.check(r[8..] == base[i], || format!("{}: another result when its first use is watched", all[i].name));
        found.lock().unwrap().push((i, n));
    });
    let mut found = found.into_inner().unwrap();
    found.retain(|x| x.1 > 0);
    let mut plan = vec![];
    for (k, (i, n)) in found.iter().enumerate() {
        for w in 0..(*n).min(ctx.pick(12, 100)) {
            for when in [When::Before, When::After] {
                // itself, and others
                plan.push((*i, *i, w, when));
                for d in 1..ctx.pick(2, 12) {
                    plan.push((*i, found[(k + d * 7) % found.len()].0, w, when));
                }
            }
        }
    }
    ctx.section_t("first-use-interleavings", plan.len(), 1, |c, l| {
        let (i, j, at, when) = plan[c];
        let (a, b) = (&all[i], &all[j]);
        l.note(|| format!("{} | {} {when:?} write {at}", a.name, b.name));
        let r = in_child(|| {
            let (x, y) = switch(&areas, a, b, at, when);
            let y = y.unwrap_or_else(|| base[j].clone());
            [&(x.len() as u64).to_le_bytes()[..], &x, &y].concat()
        });
        l.t(2);
        l.s(format!("{i} {j} {at} {when:?}").as_bytes());
        let what = || format!("first use of {} with {} running on another thread {when:?} its write {at} to static data", a.name, b.name);
        if !l.check(r.len() >= 8, || format!("{}: crash", what())) {
            return;
        }
        let n = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
        l.check(r[8..8 + n] == base[i], || format!("{}: {}'s result differs", what(), a.name));
        l.check(r[8 + n..] == base[j], || format!("{}: {}'s result differs", what(), b.name));
    });
}

fn flat(o: &Out) -> Vec<u8> {
    match o {
        Ok(Ok(v)) => [b"ok ", &v[..]].concat(),
        Ok(Err(s)) => format!("err {s}").into_bytes(),
        Err(_) => b"panic".to_vec(),
    }
}

/// A cyclic sequence over 0..k in which every word of length n occurs.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    db(1, 1, k, n, &mut a, &mut out);
    out
}

fn histories(ctx: &Ctx, name: &str, all: &[Step], base: &[Vec<u8>], n: usize) {
    let mut seq = de_bruijn(all.len(), n);
    let head: Vec<usize> = seq[..n - 1].to_vec();
    seq.extend(head);
    // pieces overlap by n-1 steps, so every word lies within one of them
    let piece = (seq.len() / 64).max(50);
    let pieces = (seq.len() - (n - 1)).div_ceil(piece);
    ctx.section(name, pieces, |i, l| {
        let s = &seq[i * piece..((i + 1) * piece + n - 1).min(seq.len())];
        l.note(|| s.iter().take(4).map(|k| all[*k].name.clone()).collect::<Vec<_>>().join(" -> "));
        let mut state = 0u64;
        for (at, &k) in s.iter().enumerate() {
            let r = flat(&(all[k].run)());
            l.t(1);
            state = fw::fnv(&[&state.to_le_bytes()[..], &(k as u64).to_le_bytes()].concat());
            l.s64(k as u64 ^ state << 20);
            if !l.check(r == base[k], || {
                let h: Vec<_> = s[at.saturating_sub(n)..at].iter().map(|k| all[*k].name.clone()).collect();
                format!("{} gives {} after {}, but {} in a fresh process", all[k].name, hex(&r), h.join(" -> "), hex(&base[k]))
            }) {
                return;
            }
        }
    });
}

// --- neighbouring inputs ----------------------------------------------------

/// A function of a byte string: which, a base input on which it does well (or
/// rather how to make it, as that takes operations too), and the function.
type Plain = (&'static str, Box<dyn Fn() -> Vec<u8> + Sync>, fn(&[u8]) -> Result<Vec<u8>, String>);

fn plain() -> Vec<Plain> {
    let mut v: Vec<Plain> = vec![];
    use bytes as b;
    let mut add = |name, make: Box<dyn Fn() -> Vec<u8> + Sync>, f| v.push((name, make, f));
    fn gcm_enc<const K: usize>(x: &[u8]) -> Result<Vec<u8>, String> {
        let (mut m, mut t) = (x[K + 28..].to_vec(), [0; 16]);
        AesGcm::new(&x[..K]).encrypt(x[K..K + 12].try_into().unwrap(), &x[K + 12..K + 28], &mut m, &mut t);
        m.extend(t);
        Ok(m)
    }
    fn gcm_dec<const K: usize>(x: &[u8]) -> Result<Vec<u8>, String> {
        let mut m = x[K + 44..].to_vec();
        let r = AesGcm::new(&x[..K]).decrypt(x[K..K + 12].try_into().unwrap(), &x[K + 12..K + 28], &mut m, &x[K + 28..K + 44]);
        m.extend(e(r).bytes());
        Ok(m)
    }
    add("aes128-gcm encrypt", Box::new(|| b(1, 16 + 28 + 40)), gcm_enc::<16>);
    add("aes256-gcm encrypt", Box::new(|| b(2, 32 + 28 + 300)), gcm_enc::<32>);
    let x = || {
        let mut x = b(1, 16 + 28);
        let c = gcm_enc::<16>(&[&x[..], &b(3, 40)].concat()).unwrap();
        x.extend_from_slice(&c[40..]);
        x.extend_from_slice(&c[..40]);
        x
    };
    add("aes128-gcm decrypt", Box::new(x), gcm_dec::<16>);
    fn cha_enc(x: &[u8]) -> Result<Vec<u8>, String> {
        let (mut m, mut t) = (x[60..].to_vec(), [0; 16]);
        ChaCha20Poly1305::new(x[..32].try_into().unwrap()).encrypt(x[32..44].try_into().unwrap(), &x[44..60], &mut m, &mut t);
        m.extend(t);
        Ok(m)
    }
    fn xcha_enc(x: &[u8]) -> Result<Vec<u8>, String> {
        let (mut m, mut t) = (x[72..].to_vec(), [0; 16]);
        XChaCha20Poly1305::new(x[..32].try_into().unwrap()).encrypt(x[32..56].try_into().unwrap(), &x[56..72], &mut m, &mut t);
        m.extend(t);
        Ok(m)
    }
    add("chacha20-poly1305 encrypt", Box::new(|| b(4, 60 + 70)), cha_enc);
    add("xchacha20-poly1305 encrypt", Box::new(|| b(5, 72 + 70)), xcha_enc);
    fn mac<H: Hash, const K: usize>(x: &[u8]) -> Result<Vec<u8>, String> {
        let mut h = Hmac::<H>::new(&x[..K]);
        h.update(&x[K..]);
        Ok(h.finish().as_ref().to_vec())
    }
    add("hmac-sha256", Box::new(|| b(6, 40 + 30)), mac::<Sha256, 40>);
    add("hmac-sha256 long key", Box::new(|| b(7, 100 + 30)), mac::<Sha256, 100>);
    add("hmac-sha512", Box::new(|| b(8, 100 + 30)), mac::<Sha512, 100>);
    add("hmac-sha384 long key", Box::new(|| b(9, 150 + 30)), mac::<Sha384, 150>);
    add("hashes", Box::new(|| b(10, 150)), |x| Ok([Sha256::hash(x).as_ref(), Sha384::hash(x).as_ref(), Sha512::hash(x).as_ref()].concat()));
    add("x25519 agreement", Box::new(|| b(11, 64)), |x| {
        let p = x25519::PublicKey::from_array(x[32..].try_into().unwrap());
        Ok(x25519::StaticPrivateKey::from_array(x[..32].try_into().unwrap()).diffie_hellman(&p).map_err(e)?.0.to_vec())
    });
    add("x25519 public key", Box::new(|| b(12, 32)), |x| Ok(x25519::StaticPrivateKey::from_array(x.try_into().unwrap()).public_key().as_bytes().to_vec()));
    fn low(s: u64, n: usize) -> Vec<u8> {
        let mut k = bytes(s, n);
        k[0] &= 0x7f;
        k
    }
    let p = || p256::StaticPrivateKey::from_bytes(&low(13, 32)).unwrap().public_key_uncompressed();
    add("p256 agreement", Box::new(move || [low(14, 32), p().to_vec()].concat()), |x| {
        let p = p256::PublicKey::from_x962_uncompressed(&x[32..]).map_err(e)?;
        Ok(p256::StaticPrivateKey::from_bytes(&x[..32]).map_err(e)?.diffie_hellman(&p).map_err(e)?.0.to_vec())
    });
    add("p256 public key", Box::new(|| low(15, 32)), |x| Ok(p256::StaticPrivateKey::from_bytes(x).map_err(e)?.public_key_uncompressed().to_vec()));
    let p = || p384::StaticPrivateKey::from_bytes(&low(16, 48)).unwrap().public_key_uncompressed();
    add("p384 agreement", Box::new(move || [low(17, 48), p().to_vec()].concat()), |x| {
        let p = p384::PublicKey::from_x962_uncompressed(&x[48..]).map_err(e)?;
        Ok(p384::StaticPrivateKey::from_bytes(&x[..48]).map_err(e)?.diffie_hellman(&p).map_err(e)?.0.to_vec())
    });
    add("p384 public key", Box::new(|| low(18, 48)), |x| Ok(p384::StaticPrivateKey::from_bytes(x).map_err(e)?.public_key_uncompressed().to_vec()));
    // 32/48-byte private key, message
    fn sign256(x: &[u8]) -> Result<Vec<u8>, String> {
        let k = ecdsa::SigningKey::<ecdsa::P256> { private_key: p256::StaticPrivateKey::from_bytes(&x[..32]).map_err(e)? };
        let mut b = [0; 64];
        Ok([&k.private_key.public_key_uncompressed()[..], &x[32..], k.sign::<Sha256>(&[&x[32..]], &mut b).map_err(e)?].concat())
    }
    fn sign384(x: &[u8]) -> Result<Vec<u8>, String> {
        let k = ecdsa::SigningKey::<ecdsa::P384> { private_key: p384::StaticPrivateKey::from_bytes(&x[..48]).map_err(e)? };
        let mut b = [0; 96];
        Ok([&k.private_key.public_key_uncompressed()[..], &x[48..], k.sign::<Sha384>(&[&x[48..]], &mut b).map_err(e)?].concat())
    }
    add("ecdsa-p256 sign", Box::new(|| low(19, 50)), sign256);
    add("ecdsa-p384 sign", Box::new(|| low(20, 60)), sign384);
    add("ecdsa-p256 verify", Box::new(|| rng::seeded(1, || sign256(&low(19, 50))).unwrap()), |x| {
        let k = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&x[..65]).map_err(e)?;
        Ok(e(k.verify::<Sha256>(&[&x[65..83]], &x[83..])).into())
    });
    add("ecdsa-p384 verify", Box::new(|| rng::seeded(1, || sign384(&low(20, 60))).unwrap()), |x| {
        let k = ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(&x[..97]).map_err(e)?;
        Ok(e(k.verify::<Sha384>(&[&x[97..109]], &x[109..])).into())
    });
    fn ed(x: &[u8]) -> Result<Vec<u8>, String> {
        let k = eddsa::Ed25519SigningKey::from_bytes(&x[..32]).map_err(e)?;
        Ok([&k.public_key().as_bytes()[..], &x[32..], &k.sign(&x[32..])].concat())
    }
    add("ed25519 sign", Box::new(|| b(21, 50)), ed);
    add("ed25519 verify", Box::new(|| ed(&b(21, 50)).unwrap()), |x| {
        let k = eddsa::Ed25519VerifyingKey::from_bytes(&x[..32]).map_err(e)?;
        Ok(e(k.verify(&x[50..], &x[32..50])).into())
    });
    add("ml-kem key generation", Box::new(|| b(23, 64)), |x| {
        let d = mlkem768::DecapKey::keygen_internal(x.try_into().unwrap());
        Ok([&d.as_bytes()[..], &d.encapsulation_key().as_bytes()].concat())
    });
    add("ml-kem encapsulation", Box::new(|| [&mlkem768::DecapKey::keygen_internal(&arr(22)).encapsulation_key().as_bytes()[..], &b(24, 32)].concat()), |x| {
        let k = mlkem768::EncapKey::from_bytes(x[..1184].try_into().unwrap()).map_err(e)?;
        let (s, c) = k.encaps_internal(mlkem768::Message(x[1184..].try_into().unwrap()));
        Ok([&s.as_ref()[..], &c.as_ref()[..]].concat())
    });
    let x = || {
        let d = mlkem768::DecapKey::keygen_internal(&arr(22));
        let (_, c) = d.encapsulation_key().encaps_internal(mlkem768::Message(arr(24)));
        [&b(22, 64)[..], c.as_ref()].concat()
    };
    add("ml-kem decapsulation", Box::new(x), |x| {
        let d = mlkem768::DecapKey::keygen_internal(x[..64].try_into().unwrap());
        let c: [u8; 1088] = x[64..].try_into().unwrap();
        Ok(d.decaps_internal(&c.into()).as_ref().to_vec())
    });
    // RSA: an encoded public key, message, signature
    fn signed(pss: bool) -> Vec<u8> {
        let k = rsa::SigningKey::from_pkcs8_der(ops::RSA2048).unwrap();
        let mut buf = [0; 600];
        let pk = k.public_key().to_pkcs1_der(&mut buf).unwrap().to_vec();
        assert_eq!(pk.len(), 270);
        let mut buf = [0; 256];
        let m = b(25, 20);
        let s = if pss { rng::seeded(1, || k.sign_pss_sha256(&mut buf, &m)) } else { k.sign_pkcs1_sha256(&mut buf, &m) }.unwrap();
        [&pk[..], &m, s].concat()
    }
    add("rsa pkcs1 verify", Box::new(|| signed(false)), |x| {
        let k = rsa::VerifyingKey::from_pkcs1_der(&x[..270]).map_err(e)?;
        Ok(e(k.verify_pkcs1_sha256(&x[290..], &x[270..290])).into())
    });
    add("rsa pss verify", Box::new(|| signed(true)), |x| {
        let k = rsa::VerifyingKey::from_pkcs1_der(&x[..270]).map_err(e)?;
        Ok(e(k.verify_pss_sha256(&x[290..], &x[270..290])).into())
    });
    add("rsa sign", Box::new(|| [&b(25, 20)[..], ops::RSA2048].concat()), |x| {
        let k = rsa::SigningKey::from_pkcs8_der(&x[20..]).map_err(e)?;
        let mut b = [0; 300];
        let mut r = k.sign_pkcs1_sha256(&mut b, &x[..20]).map_err(e)?.to_vec();
        r.extend_from_slice(k.sign_pss_sha256(&mut b, &x[..20]).map_err(e)?);
        Ok(r)
    });
    add("ec key import", Box::new(|| ops::P256_PKCS8.to_vec()), |x| {
        let k = ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(x).map_err(e)?;
        let mut b = [0; 200];
        Ok(k.to_sec1_der(&mut b).map_err(e)?.to_vec())
    });
    v
}

/// Each function on two inputs that differ in one bit, one after the other,
/// for every byte of the input: what a cache that identifies its entries by
/// some of the bytes would confuse.  With other memory layouts too: the second
/// input in the place of the first.
fn neighbours(ctx: &Ctx) {
    let all = plain();
    // this process itself never runs an operation (until after this section)
    let inputs: Vec<Vec<u8>> = all.iter().map(|(_, x, _)| in_child(x)).collect();
    let base: Vec<Vec<u8>> = all.iter().zip(&inputs).map(|((_, _, f), x)| in_child(|| flat(&scripted(5, None, || f(x))))).collect();
    let mut plan = vec![];
    for (k, ((n, _, _), x)) in all.iter().zip(&inputs).enumerate() {
        let slow = n.starts_with("rsa sign");
        for at in (0..x.len()).step_by(if slow && ctx.quick() { 5 } else { 1 }) {
            plan.push((k, at));
        }
    }
    ctx.section("neighbouring-inputs", plan.len(), |i, l| {
        let (k, at) = plan[i];
        let (name, _, f) = &all[k];
        let x = &inputs[k];
        let run = |x: &[u8]| flat(&scripted(5, None, || f(x)));
        for bit in ctx.pick(vec![(at * 5 + 1) % 8], (0..8).collect()) {
            let mut y = x.clone();
            y[at] ^= 1 << bit;
            let want = in_child(|| run(&y));
            l.t(5);
            l.s(&want);
            let got = in_child(|| {
                let mut p = x.clone();
                let a = run(&p);
                // in the same place
                p.copy_from_slice(&y);
                let b = run(&p);
                p.copy_from_slice(x);
                let c = run(&p);
                // elsewhere
                let d = run(&y);
                [a, b, c, d].iter().flat_map(|r| [&(r.len() as u64).to_le_bytes()[..], r].concat()).collect()
            });
            let mut got = &got[..];
            for (w, what) in [(&base[k], "first"), (&want, "changed, in the same place"), (&base[k], "changed back"), (&want, "changed, elsewhere")] {
                if !l.check(got.len() >= 8, || format!("{name}, byte {at} {what}: crash")) {
                    break;
                }
                let (r, rest) = got[8..].split_at(u64::from_le_bytes(got[..8].try_into().unwrap()) as usize);
                got = rest;
                l.check(r == &w[..], || format!("{name}, byte {at} {what}: {} but {} in a fresh process", hex(r), hex(w)));
            }
        }
        l.note(|| format!("{name}: byte {at} changed and back"));
    });
}

// --- shared keys ---------------------------------------------------------

struct Keys {
    aes: AesGcm,
    aes256: AesGcm,
    cha: ChaCha20Poly1305,
    xcha: XChaCha20Poly1305,
    x: x25519::StaticPrivateKey,
    p256: p256::StaticPrivateKey,
    p384: p384::StaticPrivateKey,
    pk256: p256::PublicKey,
    pk384: p384::PublicKey,
    ec256: ecdsa::SigningKey<ecdsa::P256>,
    ec384: ecdsa::SigningKey<ecdsa::P384>,
    vk256: ecdsa::VerifyingKey<ecdsa::P256>,
    ed: eddsa::Ed25519SigningKey,
    edpk: eddsa::Ed25519VerifyingKey,
    rsa: rsa::SigningKey,
    rsapk: rsa::VerifyingKey,
    dk: mlkem768::DecapKey,
    hmac: Hmac<Sha256>,
}
fn keys() -> Keys {
    let p256k = p256::StaticPrivateKey::from_bytes(&[3; 32]).unwrap();
    let p384k = p384::StaticPrivateKey::from_bytes(&[3; 48]).unwrap();
    let ec256 = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(ops::P256_SEC1).unwrap();
    let ed = eddsa::Ed25519SigningKey::from_bytes(&[4; 32]).unwrap();
    let rsa = rsa::SigningKey::from_pkcs8_der(ops::RSA2048).unwrap();
    Keys {
        aes: AesGcm::new(&[1; 16]),
        aes256: AesGcm::new(&[2; 32]),
        cha: ChaCha20Poly1305::new([3; 32]),
        xcha: XChaCha20Poly1305::new([4; 32]),
        x: x25519::StaticPrivateKey::from_array(&[5; 32]),
        pk256: p256::PublicKey::from_x962_uncompressed(&p256k.public_key_uncompressed()).unwrap(),
        pk384: p384::PublicKey::from_x962_uncompressed(&p384k.public_key_uncompressed()).unwrap(),
        p256: p256k,
        p384: p384k,
        vk256: ecdsa::VerifyingKey::from_x962_uncompressed(&ec256.private_key.public_key_uncompressed()).unwrap(),
        ec256,
        ec384: ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(ops::P384_SEC1).unwrap(),
        edpk: ed.public_key(),
        ed,
        rsapk: rsa.public_key(),
        rsa,
        dk: mlkem768::DecapKey::keygen_internal(&[6; 64]),
        hmac: Hmac::<Sha256>::new([8; 40]),
    }
}

type SharedOp = (&'static str, fn(&Keys, u64) -> Result<Vec<u8>, String>);
fn sealed(n: u64, f: impl Fn(&[u8; 12], &mut [u8], &mut [u8; 16])) -> Result<Vec<u8>, String> {
    let (mut b, mut t) = (bytes(n, 100 + n as usize * 61), [0; 16]);
    f(&arr(n), &mut b, &mut t);
    b.extend(t);
    Ok(b)
}
const SHARED: &[SharedOp] = &[
    ("aes128", |k, n| sealed(n, |i, b, t| k.aes.encrypt(i, b"a", b, t))),
    ("aes256", |k, n| sealed(n, |i, b, t| k.aes256.encrypt(i, b"a", b, t))),
    ("aes open", |k, n| {
        let mut b = sealed(n, |i, b, t| k.aes.encrypt(i, b"a", b, t))?;
        let t = b.split_off(b.len() - 16);
        k.aes.decrypt(&arr(n), b"a", &mut b, &t).map_err(e)?;
        let r = k.aes.decrypt(&arr(n + 1), b"a", &mut b, &t);
        b.extend(e(r).bytes());
        Ok(b)
    }),
    ("chacha", |k, n| sealed(n, |i, b, t| k.cha.encrypt(i, b"a", b, t))),
    ("xchacha", |k, n| sealed(n, |i, b, t| k.xcha.encrypt(&[&i[..], i].concat().try_into().unwrap(), b"a", b, t))),
    ("x25519", |k, n| Ok([k.x.diffie_hellman(&x25519::PublicKey::from_array(&arr(n))).map_err(e)?.0, k.x.public_key().as_bytes()].concat())),
    ("p256", |k, n| {
        let o = p256::StaticPrivateKey::new_random().map_err(e)?;
        let opk = p256::PublicKey::from_x962_uncompressed(&o.public_key_uncompressed()).map_err(e)?;
        Ok([k.p256.diffie_hellman(&opk).map_err(e)?.0, o.diffie_hellman(&k.pk256).map_err(e)?.0, [n as u8; 32]].concat())
    }),
    ("p384", |k, n| {
        let o = p384::StaticPrivateKey::new_random().map_err(e)?;
        let opk = p384::PublicKey::from_x962_uncompressed(&o.public_key_uncompressed()).map_err(e)?;
        Ok([k.p384.diffie_hellman(&opk).map_err(e)?.0, o.diffie_hellman(&k.pk384).map_err(e)?.0, [n as u8; 48]].concat())
    }),
    ("ecdsa256", |k, n| {
        let mut b = [0; 64];
        let m = bytes(n, 20);
        let s = k.ec256.sign::<Sha256>(&[&m], &mut b).map_err(e)?;
        Ok([s, &[k.vk256.verify::<Sha256>(&[&m], s).is_ok() as u8]].concat())
    }),
    ("ecdsa384", |k, n| Ok(k.ec384.sign_asn1::<Sha384>(&[&bytes(n, 20)], &mut [0; 150]).map_err(e)?.to_vec())),
    ("ed25519", |k, n| {
        let s = k.ed.sign(&bytes(n, 20));
        Ok([&s[..], &[k.edpk.verify(&s, &bytes(n, 20)).is_ok() as u8]].concat())
    }),
    ("rsa pkcs1", |k, n| {
        let mut b = [0; 256];
        let s = k.rsa.sign_pkcs1_sha256(&mut b, &bytes(n, 20)).map_err(e)?;
        Ok([s, &[k.rsapk.verify_pkcs1_sha256(s, &bytes(n, 20)).is_ok() as u8]].concat())
    }),
    ("rsa pss", |k, n| Ok(k.rsa.sign_pss_sha256(&mut [0; 256], &bytes(n, 20)).map_err(e)?.to_vec())),
    ("mlkem", |k, n| {
        let (ss, ct) = k.dk.encapsulation_key().encaps().map_err(e)?;
        let mut bad = *ct.as_ref();
        bad[n as usize] ^= 1;
        Ok([&ss.as_ref()[..], &k.dk.decaps_internal(&ct).as_ref()[..], &k.dk.decaps_internal(&bad.into()).as_ref()[..]].concat())
    }),
    ("hmac", |k, n| {
        let mut h = k.hmac.clone();
        h.update(bytes(n, 70));
        Ok(h.finish().as_ref().to_vec())
    }),
];

fn image(k: &Keys) -> Vec<u8> {
    (0..std::mem::size_of::<Keys>()).map(|i| unsafe { (k as *const Keys).cast::<u8>().add(i).read_volatile() }).collect()
}

/// one shared set of keys, used over and over
fn reuse(ctx: &Ctx, shared: &[Vec<Vec<u8>>]) {
    let k = keys();
    let rounds = ctx.pick(400, 5000);
    ctx.section("long-reuse", SHARED.len(), |i, l| {
        let (name, f) = SHARED[i];
        let slow = name.starts_with("rsa") || name.starts_with("p384") || name == "ecdsa384";
        for r in 0..if slow { rounds / 8 } else { rounds } {
            let n = (r % 4) as u64;
            let got = scripted(n, None, || f(&k, n));
            l.t(1);
            if !l.check(flat(&got) == shared[i][n as usize], || format!("{name}: use {r} of a shared key gives another result than the first use of a new one")) {
                return;
            }
        }
        l.s(&shared[i].concat());
    });
    // the keys' memory after all of it, against never-used ones
    ctx.section("keys-unchanged", 1, |_, l| {
        let k = Box::new(keys());
        let before = image(&k);
        for (_, f) in SHARED {
            for n in 0..3 {
                let _ = scripted(n, None, || f(&k, n));
                let _ = scripted(n, Some(0), || f(&k, n));
                l.t(2);
            }
        }
        // a change is only a violation if it can be seen: all results again
        if image(&k) != before {
            for ((name, f), want) in SHARED.iter().zip(shared) {
                let got = scripted(2, None, || f(&k, 2));
                l.check(flat(&got) == want[2], || format!("{name}: key changed through use"));
            }
        }
        l.s(&before);
    });
}

// --- interleavings at the points where the library calls out --------------

struct Sched {
    m: Mutex<(usize, Vec<bool>)>,
    cv: Condvar,
}

/// Run the programs on real threads, one at a time, switching as `choose` says.
/// Returns per-thread results and, for each decision, how many were runnable.
fn run_threads(progs: &[Vec<Arc<dyn Fn() -> Out + Send + Sync>>], schedule: &[usize]) -> (Vec<Vec<Out>>, Vec<usize>) {
    let n = progs.len();
    let s = Arc::new(Sched { m: Mutex::new((usize::MAX, vec![false; n])), cv: Condvar::new() });
    let results: Vec<Arc<Mutex<Vec<Out>>>> = (0..n).map(|_| Default::default()).collect();
    let mut fan = vec![];
    std::thread::scope(|sc| {
        for (i, p) in progs.iter().enumerate() {
            let (s, res, p) = (s.clone(), results[i].clone(), p.clone());
            sc.spawn(move || {
                let wait = {
                    let s = s.clone();
                    move || {
                        let mut g = s.m.lock().unwrap();
                        while g.0 != i {
                            g = s.cv.wait(g).unwrap();
                        }
                    }
                };
                // give the turn back, then wait for it
                let yield_ = {
                    let (s, wait) = (s.clone(), wait.clone());
                    move |_: Point| {
                        s.m.lock().unwrap().0 = usize::MAX;
                        s.cv.notify_all();
                        wait();
                    }
                };
                wait();
                sched::set_hook(Some(Box::new(yield_.clone())));
                for (k, f) in p.iter().enumerate() {
                    if k > 0 {
                        yield_(Point::Op);
                    }
                    let r = f();
                    res.lock().unwrap().push(r);
                }
                sched::set_hook(None);
                let mut g = s.m.lock().unwrap();
                g.1[i] = true;
                g.0 = usize::MAX;
                s.cv.notify_all();
            });
        }
        let mut d = 0;
        loop {
            let mut g = s.m.lock().unwrap();
            while g.0 != usize::MAX {
                g = s.cv.wait(g).unwrap();
            }
            let ready: Vec<usize> = (0..n).filter(|i| !g.1[*i]).collect();
            if ready.is_empty() {
                break;
            }
            let c = schedule.get(d).copied().unwrap_or(0);
            fan.push(ready.len());
            g.0 = ready[c];
            d += 1;
            s.cv.notify_all();
        }
    });
    (results.iter().map(|r| std::mem::take(&mut *r.lock().unwrap())).collect(), fan)
}

/// depth-first over all schedules
fn explore(l: &mut L, what: &str, progs: &[Vec<Arc<dyn Fn() -> Out + Send + Sync>>], want: &[Vec<Vec<u8>>]) {
    let mut prefix: Vec<usize> = vec![];
    loop {
        let (got, fan) = run_threads(progs, &prefix);
        l.t(fan.len() as u64);
        l.s(format!("{what}{prefix:?}").as_bytes());
        let got: Vec<Vec<Vec<u8>>> = got.iter().map(|v| v.iter().map(flat).collect()).collect();
        if !l.check(got == want, || format!("{what}: schedule {prefix:?} changes a result")) {
            return;
        }
        let mut full = prefix.clone();
        full.resize(fan.len(), 0);
        // next schedule
        let Some(k) = (0..full.len()).rev().find(|k| full[*k] + 1 < fan[*k]) else { return };
        full[k] += 1;
        full.truncate(k + 1);
        prefix = full;
    }
}

fn interleavings(ctx: &Ctx, shared: &[Vec<Vec<u8>>]) {
    let k: Arc<Keys> = Arc::new(keys());
    // every unordered pair of operations on the shared keys: two threads, each
    // using the first then the second (and back)
    let n = SHARED.len();
    let slow = |i: usize| SHARED[i].0.starts_with("rsa");
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).filter(|(a, b)| !(ctx.quick() && slow(*a) && slow(*b) && a != b)).collect();
    let mk = |i: usize, s: u64| -> Arc<dyn Fn() -> Out + Send + Sync> {
        let k = k.clone();
        Arc::new(move || scripted(s, None, || SHARED[i].1(&k, s)))
    };
    let want = |i: usize, s: usize| shared[i][s].clone();
    ctx.section("two-threads-shared-keys", pairs.len(), |c, l| {
        let (a, b) = pairs[c];
        let what = format!("{} | {}", SHARED[a].0, SHARED[b].0);
        l.note(|| what.clone());
        let progs = vec![vec![mk(a, 1), mk(b, 2)], vec![mk(b, 1), mk(a, 3)]];
        explore(l, &what, &progs, &[vec![want(a, 1), want(b, 2)], vec![want(b, 1), want(a, 3)]]);
    });
    let tri: Vec<usize> = (0..n).filter(|i| !slow(*i)).collect();
    ctx.section("three-threads-shared-keys", tri.len(), |c, l| {
        let a = tri[c];
        let b = tri[(c + 1) % tri.len()];
        let progs = vec![vec![mk(a, 1)], vec![mk(a, 2), mk(b, 1)], vec![mk(b, 3)]];
        explore(l, SHARED[a].0, &progs, &[vec![want(a, 1)], vec![want(a, 2), want(b, 1)], vec![want(b, 3)]]);
    });
}

// --- interleavings at every access to shared memory -----------------------

fn shared_memory(ctx: &Ctx, all: &[Step], base: &[Vec<u8>], shared: &[Vec<Vec<u8>>]) {
    // the keys of `SHARED` in watched pages of their own; every operation on
    // them is a step too
    let map = unsafe { libc::mmap(std::ptr::null_mut(), 1 << 20, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(map != libc::MAP_FAILED && std::mem::size_of::<Keys>() <= 1 << 20);
    let kp: &'static Keys = unsafe {
        map.cast::<Keys>().write(keys());
        &*map.cast::<Keys>()
    };
    let areas = [watch::statics(), (map as usize, map as usize + std::mem::size_of::<Keys>())];
    let mut all = all.to_vec();
    let mut base = base.to_vec();
    for ((name, f), want) in SHARED.iter().zip(shared) {
        let run = |k: &'static Keys| scripted(2, None, || f(k, 2));
        base.push(want[2].clone());
        all.push(Step { name: format!("shared key: {name}"), slow: false, run: Arc::new(move || run(kp)) });
    }
    type Write = (usize, usize, usize); // which, address, code
    let found: Mutex<Vec<(usize, Vec<Write>)>> = Default::default();
    // one at a time: other threads must not be the ones writing
    ctx.section_t("shared-memory-writes", all.len(), 1, |i, l| {
        let f = all[i].run.clone();
        // lazily initialised state settles in the first run (the fresh-process
        // baseline and the histories cover that one)
        let _ = f();
        for _ in 0..5 {
            let log: RefCell<Vec<Write>> = RefCell::new(Vec::with_capacity(100_000));
            let mut out = None;
            let hook = |n: usize, w: When, addr: usize, rip: usize| {
                let mut lg = log.borrow_mut();
                if w == When::Before && lg.len() < lg.capacity() {
                    lg.push((n, addr, rip));
                }
            };
            let (n, lasted) = watch::watch(&areas, &hook, &mut || out = Some(f()));
            l.t(n as u64 + 1);
            if !lasted {
                continue;
            }
            l.note(|| format!("{}: {n} writes to shared memory", all[i].name));
            l.s(format!("{i} {n}").as_bytes());
            l.check(flat(out.as_ref().unwrap()) == base[i], || format!("{}: another result when its shared memory is watched", all[i].name));
            if n > 0 {
                found.lock().unwrap().push((i, log.into_inner()));
            }
            return;
        }
        l.note(|| format!("{}: could not be watched", all[i].name));
    });
    let found = found.into_inner().unwrap();
    // with no conflicting access, every interleaving of instructions is
    // equivalent to running the operations one after the other; otherwise,
    // explore a switch to each other operation around each such access
    if found.is_empty() {
        ctx.assume("No operation wrote to memory shared between threads, so (nothing conflicts) all interleavings of their instructions are equivalent to sequential executions.");
    }
    let mut plan: Vec<(usize, usize, usize, When)> = vec![];
    for (i, w) in &found {
        // the other operations: those that write too (conflicts), and itself
        for (j, w2) in &found {
            let near = |a: usize| w2.iter().any(|(_, b, _)| a / 64 == b / 64);
            // one representative per instruction and order of occurrence
            let mut seen = std::collections::HashMap::<usize, usize>::new();
            for (n, a, rip) in w {
                let c = seen.entry(*rip).or_default();
                *c += 1;
                if near(*a) && *c <= ctx.pick(3, 50) {
                    plan.push((*i, *j, *n, When::Before));
                    plan.push((*i, *j, *n, When::After));
                }
            }
        }
    }
    plan.truncate(ctx.pick(3000, 100_000));
    ctx.section_t("switch-at-shared-access", plan.len(), 1, |c, l| {
        let (i, j, at, when) = plan[c];
        let (a, b) = (&all[i], &all[j]);
        l.note(|| format!("{} | {} at write {at}", a.name, b.name));
        let (ra, rb) = switch(&areas, a, b, at, when);
        l.t(2);
        l.s(format!("{i} {j} {at} {when:?}").as_bytes());
        l.check(ra == base[i], || format!("{} gives another result when {} runs on another thread {when:?} its shared write {at}", a.name, b.name));
        if let Some(rb) = rb {
            l.check(rb == base[j], || format!("{} gives another result when it runs while {} is {when:?} its shared write {at}", b.name, a.name));
        }
    });
}

fn main() {
    fw::main("C22", |ctx| {
        ctx.assume("Interleavings are explored at every request to the random source, between operations, and around every instruction that writes to the executable's static data or to a shared key; memory handed to one thread only is not shared.");
        let all = steps(&[1, 2]);
        let base: Vec<Vec<u8>> = all.iter().map(fresh).collect();
        let fast: Vec<usize> = (0..all.len()).filter(|i| !all[*i].slow).collect();
        let shared: Vec<Vec<Vec<u8>>> = SHARED.iter().map(|(_, f)| (0..4).map(|n| in_child(|| flat(&scripted(n, None, || f(&keys(), n))))).collect()).collect();
        neighbours(ctx);
        first_use(ctx, &all, &base);
        let pick = |v: &[usize]| (v.iter().map(|i| all[*i].clone()).collect::<Vec<_>>(), v.iter().map(|i| base[*i].clone()).collect::<Vec<_>>());
        {
            let slow: Vec<usize> = (0..all.len()).filter(|i| all[*i].slow).collect();
            // all pairs of everything
            let v: Vec<usize> = fast.iter().chain(&slow).copied().collect();
            let (s, b) = pick(&v);
            histories(ctx, "histories-of-2", &s, &b, 2);
        }
        {
            // all triples
            let v: Vec<usize> = fast.clone();
            let (s, b) = pick(&v);
            histories(ctx, "histories-of-3", &s, &b, 3);
        }
        if !ctx.quick() {
            let v: Vec<usize> = fast.iter().copied().filter(|i| all[*i].name.contains("related")).collect();
            let (s, b) = pick(&v);
            histories(ctx, "histories-of-4-related", &s, &b, 4);
        }
        reuse(ctx, &shared);
        interleavings(ctx, &shared);
        shared_memory(ctx, &all, &base, &shared);
    })
}
