//! C28: no secret intermediate stays behind in the vector registers.
use core::arch::asm;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, L, Part, no_panic};
use mc::ops;
use mc::rng::{self, Src, State, arr, bytes};
use std::collections::HashSet;

type Regs = [[u64; 8]; 32];

fn wide() -> bool {
    std::is_x86_feature_detected!("avx512f")
}
macro_rules! each {
    ($pre:literal, $post:literal, [$($n:literal)*], $($rest:tt)*) => { asm!($(concat!($pre, $n, $post),)* $($rest)*) };
}
/// All zero: what is found afterwards was put there in between.
#[inline(never)]
fn clear() {
    unsafe {
        asm!("vzeroall", out("ymm0") _, out("ymm1") _, out("ymm2") _, out("ymm3") _, out("ymm4") _, out("ymm5") _, out("ymm6") _, out("ymm7") _, out("ymm8") _, out("ymm9") _, out("ymm10") _, out("ymm11") _, out("ymm12") _, out("ymm13") _, out("ymm14") _, out("ymm15") _, options(nostack));
        if wide() {
            clear_wide();
        }
    }
}
#[target_feature(enable = "avx512f")]
fn clear_wide() {
    macro_rules! z { ($($n:literal)*) => { unsafe { asm!($(concat!("vpxorq zmm", $n, ", zmm", $n, ", zmm", $n),)* options(nostack, nomem)) } } }
    z!(16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
}
#[inline(never)]
fn dump(r: &mut Regs) {
    let p = r.as_mut_ptr();
    unsafe {
        if wide() {
            dump_wide(p);
        } else {
            macro_rules! st { ($($n:literal)*) => { asm!($(concat!("vmovdqu [{p} + ", $n, "*64], ymm", $n),)* p = in(reg) p, options(nostack)) } }
            st!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        }
    }
}
#[target_feature(enable = "avx512f")]
fn dump_wide(p: *mut [u64; 8]) {
    macro_rules! st { ($($n:literal)*) => { unsafe { asm!($(concat!("vmovdqu64 [{p} + ", $n, "*64], zmm", $n),)* p = in(reg) p, options(nostack)) } } }
    st!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
}

/// One run of an operation: the registers after each call, and the data its
/// caller holds (which may of course be in registers, on its way there).
#[derive(Default)]
struct Run {
    at: Vec<(String, Box<Regs>)>,
    own: HashSet<[u8; 4]>,
}
impl Run {
    fn own(&mut self, b: &[u8]) {
        for w in b.windows(4) {
            self.own.insert(w.try_into().unwrap());
        }
        // at the end, or alone
        for n in 1..4 {
            for w in b.windows(n).rev().take(1).chain(b.windows(n).take(1)) {
                let mut x = [0u8; 4];
                x[..n].copy_from_slice(w);
                self.own.insert(x);
            }
        }
    }
    fn own_raw<T>(&mut self, v: &T) {
        let p = (v as *const T).cast::<u8>();
        let b: Vec<u8> = (0..size_of::<T>()).map(|i| unsafe { core::ptr::read_volatile(p.add(i)) }).collect();
        self.own(&b);
    }
    fn call<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> T {
        let mut r: Box<Regs> = Box::new([[0; 8]; 32]);
        clear();
        let t = core::hint::black_box(f());
        dump(&mut r);
        self.own_raw(&t);
        self.at.push((name.to_string(), r));
        t
    }
}

/// `secret` decides keys and randomness, `public` all else
type Body = fn(&mut Run, secret: u64, public: u64);

fn aes<const KEY: usize>(r: &mut Run, s: u64, p: u64) {
    let key = bytes(s, KEY);
    r.own(&key);
    let k = r.call("AesGcm::new", || AesGcm::new(&key));
    let (msg, aad, nonce) = (bytes(p, (p % 4096) as usize), bytes(p + 1, (p / 7 % 100) as usize), arr::<12>(p));
    let (mut b, mut tag) = (msg.clone(), [0u8; 16]);
    r.own(&msg);
    r.own(&aad);
    r.own(&nonce);
    r.call("AesGcm::encrypt", || k.encrypt(&nonce, &aad, &mut b, &mut tag));
    r.own(&b);
    r.own(&tag);
    let _ = r.call("AesGcm::decrypt", || k.decrypt(&nonce, &aad, &mut b, &tag));
    tag[0] ^= 1;
    let mut b = msg.clone();
    let _ = r.call("AesGcm::decrypt (bad tag)", || k.decrypt(&nonce, &aad, &mut b, &tag));
    r.own(&b);
    let _ = r.call("AesGcm::decrypt (short tag)", || k.decrypt(&nonce, &aad, &mut b, &tag[..3]));
    r.own_raw(&k);
}
fn chacha(r: &mut Run, s: u64, p: u64) {
    let key = arr::<32>(s);
    r.own(&key);
    let (msg, aad) = (bytes(p, (p % 4096) as usize), bytes(p + 1, (p / 7 % 100) as usize));
    r.own(&msg);
    r.own(&aad);
    let nonce = arr::<12>(p);
    r.own(&nonce);
    {
        let k = ChaCha20Poly1305::new(key);
        let (mut b, mut tag) = (msg.clone(), [0u8; 16]);
        r.call("ChaCha20Poly1305::encrypt", || k.encrypt(&nonce, &aad, &mut b, &mut tag));
        r.own(&b);
        r.own(&tag);
        let _ = r.call("ChaCha20Poly1305::decrypt", || k.decrypt(&nonce, &aad, &mut b, &tag));
        tag[15] ^= 0x80;
        let _ = r.call("ChaCha20Poly1305::decrypt (bad tag)", || k.decrypt(&nonce, &aad, &mut b, &tag));
        r.own(&b);
    }
    let nonce = arr::<24>(p);
    r.own(&nonce);
    let k = XChaCha20Poly1305::new(key);
    let (mut b, mut tag) = (msg.clone(), [0u8; 16]);
    r.call("XChaCha20Poly1305::encrypt", || k.encrypt(&nonce, &aad, &mut b, &mut tag));
    r.own(&b);
    r.own(&tag);
    let _ = r.call("XChaCha20Poly1305::decrypt", || k.decrypt(&nonce, &aad, &mut b, &tag));
    tag[15] ^= 0x80;
    let _ = r.call("XChaCha20Poly1305::decrypt (bad tag)", || k.decrypt(&nonce, &aad, &mut b, &tag));
    r.own(&b);
}
fn x25519(r: &mut Run, s: u64, p: u64) {
    let b = arr::<32>(s);
    r.own(&b);
    let k = r.call("x25519::StaticPrivateKey::from_array", || x25519::StaticPrivateKey::from_array(&b));
    let _ = r.call("x25519::StaticPrivateKey::as_bytes", || k.as_bytes());
    r.call("x25519::StaticPrivateKey::public_key", || k.public_key());
    let peer = x25519::PublicKey::try_from_slice(&arr::<32>(p)).unwrap();
    let x = r.call("x25519::StaticPrivateKey::diffie_hellman", || k.diffie_hellman(&peer)).unwrap();
    r.own(&x.0);
    let zero = x25519::PublicKey::try_from_slice(&[0; 32]).unwrap();
    let _ = r.call("x25519::StaticPrivateKey::diffie_hellman (rejected)", || k.diffie_hellman(&zero).is_err());
    let k = r.call("x25519::PrivateKey::new_random", x25519::PrivateKey::new_random).unwrap();
    r.call("x25519::PrivateKey::public_key", || k.public_key());
    let x = r.call("x25519::PrivateKey::diffie_hellman", || k.diffie_hellman(&peer)).unwrap();
    r.own(&x.0);
}
macro_rules! nist {
    ($f:ident, $m:ident, $n:literal) => {
        fn $f(r: &mut Run, s: u64, p: u64) {
            let scalar = |x: u64| {
                let mut b = arr::<$n>(x);
                b[0] &= 0x7f;
                b
            };
            let b = scalar(s);
            r.own(&b);
            let k = r.call(concat!(stringify!($m), "::StaticPrivateKey::from_bytes"), || $m::StaticPrivateKey::from_bytes(&b)).unwrap();
            let _ = r.call(concat!(stringify!($m), "::StaticPrivateKey::from_bytes (rejected)"), || $m::StaticPrivateKey::from_bytes(&[&b[..], b"x"].concat()).is_err());
            let _ = r.call(concat!(stringify!($m), "::StaticPrivateKey::as_bytes"), || k.as_bytes());
            r.call(concat!(stringify!($m), "::StaticPrivateKey::public_key_uncompressed"), || k.public_key_uncompressed());
            let peer = $m::PublicKey::from_x962_uncompressed(&$m::StaticPrivateKey::from_bytes(&scalar(p)).unwrap().public_key_uncompressed()).unwrap();
            let x = r.call(concat!(stringify!($m), "::StaticPrivateKey::diffie_hellman"), || k.diffie_hellman(&peer)).unwrap();
            r.own(&x.0);
            let k = r.call(concat!(stringify!($m), "::PrivateKey::new_random"), $m::PrivateKey::new_random).unwrap();
            r.call(concat!(stringify!($m), "::PrivateKey::public_key_uncompressed"), || k.public_key_uncompressed());
            let x = r.call(concat!(stringify!($m), "::PrivateKey::diffie_hellman"), || k.diffie_hellman(&peer)).unwrap();
            r.own(&x.0);
        }
    };
}
nist!(ecdh256, p256, 32);
nist!(ecdh384, p384, 48);
fn mlkem(r: &mut Run, _s: u64, _p: u64) {
    let d = r.call("DecapKey::generate", mlkem768::DecapKey::generate).unwrap();
    r.call("DecapKey::as_bytes", || d.as_bytes());
    let ek = d.encapsulation_key();
    r.own_raw(&ek);
    let (ss, ct) = r.call("EncapKey::encaps", || ek.encaps()).unwrap();
    r.own_raw(&ss);
    r.own_raw(&ct);
    let ss = r.call("DecapKey::decaps", || d.decaps(&ct));
    r.own_raw(&ss);
    // rejection
    let d = mlkem768::DecapKey::generate().unwrap();
    r.own_raw(&d);
    let ss = r.call("DecapKey::decaps (rejected)", || d.decaps(&ct));
    r.own_raw(&ss);
}
fn ecdsa_ops<C: ecdsa::Curve>(r: &mut Run, s: u64, p: u64) {
    let _ = s;
    let k = r.call("ecdsa::SigningKey::generate", ecdsa::SigningKey::<C>::generate).unwrap();
    r.own_raw(&k);
    let msg = bytes(p, (p % 700) as usize);
    r.own(&msg);
    let mut b = [0u8; 128];
    for h in 0..2 {
        let _ = r.call("ecdsa::SigningKey::sign", || if h == 0 { k.sign::<Sha256>(&[&msg], &mut b).is_ok() } else { k.sign::<Sha512>(&[&msg], &mut b).is_ok() });
        r.own(&b);
    }
    let _ = r.call("ecdsa::SigningKey::sign (short buffer)", || k.sign::<Sha384>(&[&msg], &mut [0u8; 20]).is_ok());
    let _ = r.call("ecdsa::SigningKey::sign_asn1", || k.sign_asn1::<Sha384>(&[&msg], &mut b).is_ok());
    r.own(&b);
    let (mut o, mut q) = ([0u8; 512], [0u8; 512]);
    let n = r.call("ecdsa::SigningKey::to_pkcs8_der", || k.to_pkcs8_der(&mut o).map(|x| x.len())).unwrap();
    r.own(&o);
    let m = r.call("ecdsa::SigningKey::to_sec1_der", || k.to_sec1_der(&mut q).map(|x| x.len())).unwrap();
    r.own(&q);
    let _ = r.call("ecdsa::SigningKey::from_pkcs8_der", || ecdsa::SigningKey::<C>::from_pkcs8_der(&o[..n]).unwrap());
    let _ = r.call("ecdsa::SigningKey::from_pkcs8_der (cut)", || ecdsa::SigningKey::<C>::from_pkcs8_der(&o[..n - 1]).is_err());
    let _ = r.call("ecdsa::SigningKey::from_sec1_der", || ecdsa::SigningKey::<C>::from_sec1_der(&q[..m]).unwrap());
    let _ = r.call("ecdsa::SigningKey::from_sec1_der (cut)", || ecdsa::SigningKey::<C>::from_sec1_der(&q[..m - 1]).is_err());
    let mut o = [0u8; 512];
    let _ = r.call("ecdsa::SigningKey::to_spki_der", || k.to_spki_der(&mut o).is_ok());
    r.own(&o);
}
fn ed(r: &mut Run, s: u64, p: u64) {
    let seed = arr::<32>(s);
    r.own(&seed);
    let k = r.call("Ed25519SigningKey::from_bytes", || eddsa::Ed25519SigningKey::from_bytes(&seed)).unwrap();
    r.own_raw(&k);
    let msg = bytes(p, (p % 700) as usize);
    r.own(&msg);
    let g = r.call("Ed25519SigningKey::sign", || k.sign(&msg));
    r.own(&g);
    let mut o = [0u8; 128];
    let n = r.call("Ed25519SigningKey::to_pkcs8_der", || k.to_pkcs8_der(&mut o).map(|x| x.len())).unwrap();
    r.own(&o);
    let _ = r.call("Ed25519SigningKey::from_pkcs8_der", || eddsa::Ed25519SigningKey::from_pkcs8_der(&o[..n]).unwrap());
    let _ = r.call("Ed25519SigningKey::from_pkcs8_der (cut)", || eddsa::Ed25519SigningKey::from_pkcs8_der(&o[..n - 1]).is_err());
    let _ = r.call("Ed25519SigningKey::generate", eddsa::Ed25519SigningKey::generate).unwrap();
}
fn rsa_ops(r: &mut Run, s: u64, p: u64) {
    // two keys of the same size
    static KEYS: [&[u8]; 2] = [include_bytes!("../../data/keys/rsa2048.pkcs8.der"), include_bytes!("../../data/keys/rsa2048b.pkcs8.der")];
    let der = KEYS[(s % 2) as usize];
    r.own(der);
    let k = r.call("rsa::SigningKey::from_pkcs8_der", || rsa::SigningKey::from_pkcs8_der(der)).unwrap();
    r.own_raw(&k);
    let msg = bytes(p, (p % 300) as usize);
    r.own(&msg);
    let mut b = [0u8; 256];
    macro_rules! sign {
        ($($f:ident)*) => { $(
            let _ = r.call(concat!("rsa::SigningKey::", stringify!($f)), || k.$f(&mut b, &msg).is_ok());
            r.own(&b);
        )* };
    }
    sign!(sign_pkcs1_sha256 sign_pkcs1_sha384 sign_pkcs1_sha512 sign_pss_sha256 sign_pss_sha384 sign_pss_sha512);
    let mut o = [0u8; 2048];
    let _ = r.call("rsa::SigningKey::to_pkcs8_der", || k.to_pkcs8_der(&mut o).is_ok());
    r.own(&o);
    let n = r.call("rsa::SigningKey::to_pkcs1_der", || k.to_pkcs1_der(&mut o).map(|x| x.len())).unwrap();
    r.own(&o);
    let _ = r.call("rsa::SigningKey::from_pkcs1_der", || rsa::SigningKey::from_pkcs1_der(&o[..n]).unwrap());
    let _ = r.call("rsa::SigningKey::from_pkcs1_der (cut)", || rsa::SigningKey::from_pkcs1_der(&o[..n - 1]).is_err());
    o[n - 10] ^= 1;
    let _ = r.call("rsa::SigningKey::from_pkcs1_der (inconsistent)", || rsa::SigningKey::from_pkcs1_der(&o[..n]).is_err());
}

fn run(body: Body, s: u64, p: u64) -> Result<Run, String> {
    let mut r = Run::default();
    let st = State::new(Src::Stream(s + 1000));
    let (x, st) = rng::with(st, || no_panic(|| body(&mut r, s, p)));
    r.own(&st.out);
    x.map(|_| r)
}

fn case(l: &mut L, name: &str, body: Body, p: u64) {
    // twice with each of two secrets; what does not depend on the secrets alone
    // (addresses, say) is no secret
    let mut runs = vec![];
    for s in [2u64, 3, 2, 3] {
        match run(body, s, p) {
            Ok(r) => runs.push(r),
            Err(e) => {
                l.check(false, || format!("{name} ({p}): panicked: {e}"));
                return;
            }
        }
    }
    let n = runs[0].at.len();
    if !l.check(runs.iter().all(|r| r.at.len() == n), || format!("{name}: runs differ")) {
        return;
    }
    l.t(4 * n as u64);
    let own: HashSet<[u8; 4]> = runs.iter().flat_map(|r| r.own.iter().copied()).collect();
    for c in 0..n {
        let what = &runs[0].at[c].0;
        let (a, b, a2, b2) = (&runs[0].at[c].1, &runs[1].at[c].1, &runs[2].at[c].1, &runs[3].at[c].1);
        l.s(format!("{name}/{p}/{what}").as_bytes());
        for reg in 0..32 {
            for lane in 0..8 {
                let v = a[reg][lane];
                // zero, or an address or a count
                if v >> 47 == 0 || a2[reg][lane] != v || b2[reg][lane] != b[reg][lane] || b[reg][lane] == v {
                    continue;
                }
                let halves = [v as u32, (v >> 32) as u32];
                if halves.iter().all(|h| *h == 0 || own.contains(&h.to_le_bytes())) {
                    continue;
                }
                l.check(false, || format!("after {what} ({name}, variant {p}), bits {}..{} of vector register {reg} hold {v:016x}, which depends on the secrets and is not data of the caller", lane * 64, lane * 64 + 64));
            }
        }
    }
}

fn explore(ctx: &Ctx) {
    ctx.assume("a value in a vector register is a leftover of the library if it depends on the secrets only, and neither the arguments nor the results contain it");
    let all: &[(&str, Body)] = &[("aes128gcm", aes::<16>), ("aes256gcm", aes::<32>), ("chacha20poly1305", chacha), ("x25519", x25519), ("p256", ecdh256), ("p384", ecdh384), ("mlkem768", mlkem), ("ecdsa-p256", ecdsa_ops::<ecdsa::P256>), ("ecdsa-p384", ecdsa_ops::<ecdsa::P384>), ("ed25519", ed), ("rsa", rsa_ops)];
    // the library's own switches work in debug builds only
    let masks: &[&[&str]] = if cfg!(debug_assertions) { &[&[], &["avx512f"], &["vaes"], &["sha", "bmi2"]] } else { &[&[]] };
    for deny in masks {
        ctx.cpu_mask(deny);
        for (name, body) in all {
            let n = match *name {
                "aes128gcm" | "aes256gcm" | "chacha20poly1305" => ctx.pick(1100, 4096),
                "rsa" => ctx.pick(4, 100),
                "mlkem768" => 20,
                "p384" | "p256" | "x25519" => ctx.pick(40, 1000),
                _ => ctx.pick(260, 700),
            };
            ctx.section(name, n, |i, l| {
                l.note(|| format!("{name}, variant {i}"));
                case(l, name, *body, i as u64);
            });
        }
    }
    ctx.cpu_mask(&[]);
    let _ = ops::RSA2048;
}

fn main() {
    let part = |name, profile, deny| Part { name, profile, deny };
    fw::main_parts(
        "C28",
        &[
            part("release", "trace", &[]),
            part("release-avx512f", "trace", &["avx512f"]),
            part("release-vaes", "trace", &["vaes"]),
            part("release-sha", "trace", &["sha"]),
            part("debug", "dev", &[]),
        ],
        explore,
    );
}
