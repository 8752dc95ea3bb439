#![allow(dropping_copy_types, dropping_references, unused)]
//! C05: results do not depend on optional CPU features; missing required
//! features are refused.
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::Sha256;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, Part};
use mc::{cpuid, isa, ops, rng, step};
use std::sync::Mutex;

type Call = Box<dyn FnOnce()>;

fn entry_points() -> Vec<(&'static str, Call)> {
    let mut v: Vec<(&'static str, Call)> = Vec::new();
    macro_rules! ep {
        ($n:expr, $c:expr) => {
            v.push(($n, Box::new($c)))
        };
    }
    let g = || AesGcm::new(&[7; 16]);
    ep!("AesGcm::new", || drop(AesGcm::new(&[7; 16])));
    let k = g();
    ep!("AesGcm::encrypt", move || k.encrypt(&[0; 12], b"", &mut [0; 20], &mut [0; 16]));
    let k = g();
    ep!("AesGcm::decrypt", move || drop(k.decrypt(&[0; 12], b"", &mut [0; 20], &[0; 16])));
    let k = ChaCha20Poly1305::new([3; 32]);
    ep!("ChaCha20Poly1305::encrypt", move || k.encrypt(&[0; 12], b"", &mut [0; 20], &mut [0; 16]));
    let k = ChaCha20Poly1305::new([3; 32]);
    ep!("ChaCha20Poly1305::decrypt", move || drop(k.decrypt(&[0; 12], b"", &mut [0; 20], &[0; 16])));
    let k = XChaCha20Poly1305::new([3; 32]);
    ep!("XChaCha20Poly1305::encrypt", move || k.encrypt(&[0; 24], b"", &mut [0; 20], &mut [0; 16]));
    let k = XChaCha20Poly1305::new([3; 32]);
    ep!("XChaCha20Poly1305::decrypt", move || drop(k.decrypt(&[0; 24], b"", &mut [0; 20], &[0; 16])));
    macro_rules! nist {
        ($m:ident, $n:expr, $len:expr) => {
            let b = || {
                let mut b = [9u8; $len];
                b[0] = 1;
                $m::StaticPrivateKey::from_bytes(&b).unwrap()
            };
            let peer = || $m::PublicKey::from_x962_uncompressed(&b().public_key_uncompressed()).unwrap();
            let enc = b().public_key_uncompressed();
            ep!(concat!($n, " PublicKey::from_x962_uncompressed"), move || drop($m::PublicKey::from_x962_uncompressed(&enc)));
            ep!(concat!($n, " PrivateKey::new_random"), || drop($m::PrivateKey::new_random()));
            let k = $m::PrivateKey::new_random().unwrap();
            ep!(concat!($n, " PrivateKey::public_key_uncompressed"), move || {
                k.public_key_uncompressed();
            });
            let (k, p) = ($m::PrivateKey::new_random().unwrap(), peer());
            ep!(concat!($n, " PrivateKey::diffie_hellman"), move || drop(k.diffie_hellman(&p)));
            ep!(concat!($n, " StaticPrivateKey::new_random"), || drop($m::StaticPrivateKey::new_random()));
            let k = b();
            ep!(concat!($n, " StaticPrivateKey::public_key_uncompressed"), move || {
                k.public_key_uncompressed();
            });
            let (k, p) = (b(), peer());
            ep!(concat!($n, " StaticPrivateKey::diffie_hellman"), move || drop(k.diffie_hellman(&p)));
        };
    }
    nist!(p256, "P-256", 32);
    nist!(p384, "P-384", 48);
    ep!("x25519 PrivateKey::new_random", || drop(x25519::PrivateKey::new_random()));
    let k = x25519::PrivateKey::new_random().unwrap();
    ep!("x25519 PrivateKey::public_key", move || drop(k.public_key()));
    let k = x25519::PrivateKey::new_random().unwrap();
    let p = x25519::StaticPrivateKey::from_array(&[5; 32]).public_key();
    ep!("x25519 PrivateKey::diffie_hellman", move || drop(k.diffie_hellman(&p)));
    let k = x25519::StaticPrivateKey::from_array(&[5; 32]);
    ep!("x25519 StaticPrivateKey::public_key", move || drop(k.public_key()));
    let k = x25519::StaticPrivateKey::from_array(&[5; 32]);
    let p = k.public_key();
    ep!("x25519 StaticPrivateKey::diffie_hellman", move || drop(k.diffie_hellman(&p)));
    let d = || mlkem768::DecapKey::keygen_internal(&[1; 64]);
    ep!("ML-KEM DecapKey::generate", || drop(mlkem768::DecapKey::generate()));
    let ek = d().encapsulation_key().as_bytes();
    ep!("ML-KEM EncapKey::from_bytes", move || drop(mlkem768::EncapKey::from_bytes(&ek)));
    let ek = d().encapsulation_key();
    ep!("ML-KEM EncapKey::encaps", move || drop(ek.encaps()));
    let k = d();
    ep!("ML-KEM DecapKey::decaps", move || drop(k.decaps(&[3u8; 1088].into())));
    macro_rules! ec {
        ($c:ty, $n:expr, $sec1:expr, $p8:expr) => {
            let k = || ecdsa::SigningKey::<$c>::from_sec1_der($sec1).unwrap();
            let vk = || ecdsa::VerifyingKey::<$c>::from_x962_uncompressed(&k().private_key.public_key_uncompressed()).unwrap();
            ep!(concat!($n, " SigningKey::generate"), || drop(ecdsa::SigningKey::<$c>::generate()));
            ep!(concat!($n, " SigningKey::from_sec1_der"), || drop(ecdsa::SigningKey::<$c>::from_sec1_der($sec1)));
            ep!(concat!($n, " SigningKey::from_pkcs8_der"), || drop(ecdsa::SigningKey::<$c>::from_pkcs8_der($p8)));
            let s = k();
            ep!(concat!($n, " SigningKey::sign"), move || drop(s.sign::<Sha256>(&[b"m"], &mut [0; 200]).is_ok()));
            let s = k();
            ep!(concat!($n, " SigningKey::sign_asn1"), move || drop(s.sign_asn1::<Sha256>(&[b"m"], &mut [0; 200]).is_ok()));
            let enc = k().private_key.public_key_uncompressed();
            ep!(concat!($n, " VerifyingKey::from_x962_uncompressed"), move || drop(ecdsa::VerifyingKey::<$c>::from_x962_uncompressed(&enc)));
            let mut b = [0; 200];
            let sig = k().sign::<Sha256>(&[b"m"], &mut b).unwrap().to_vec();
            let v1 = vk();
            ep!(concat!($n, " VerifyingKey::verify"), move || drop(v1.verify::<Sha256>(&[b"m"], &sig)));
            let sig = k().sign_asn1::<Sha256>(&[b"m"], &mut b).unwrap().to_vec();
            let v1 = vk();
            ep!(concat!($n, " VerifyingKey::verify_asn1"), move || drop(v1.verify_asn1::<Sha256>(&[b"m"], &sig)));
        };
    }
    ec!(ecdsa::P256, "ECDSA P-256", ops::P256_SEC1, ops::P256_PKCS8);
    ec!(ecdsa::P384, "ECDSA P-384", ops::P384_SEC1, ops::P384_PKCS8);
    let k = || eddsa::Ed25519SigningKey::from_bytes(&[2; 32]).unwrap();
    ep!("Ed25519 generate", || drop(eddsa::Ed25519SigningKey::generate()));
    ep!("Ed25519 from_bytes", || drop(eddsa::Ed25519SigningKey::from_bytes(&[2; 32])));
    let s = k();
    ep!("Ed25519 sign", move || {
        s.sign(b"m");
    });
    let (v1, sig) = (k().public_key(), k().sign(b"m"));
    ep!("Ed25519 verify", move || drop(v1.verify(&sig, b"m")));
    let pk = k().public_key().as_bytes();
    ep!("Ed25519 public from_bytes", move || drop(eddsa::Ed25519VerifyingKey::from_bytes(&pk)));
    let k = || rsa::SigningKey::from_pkcs8_der(ops::RSA2048).unwrap();
    ep!("RSA from_pkcs8_der", || drop(rsa::SigningKey::from_pkcs8_der(ops::RSA2048)));
    ep!("RSA from_pkcs1_der", || drop(rsa::SigningKey::from_pkcs1_der(ops::RSA2048_PKCS1)));
    macro_rules! rs {
        ($s:ident, $v:ident) => {
            let q = k();
            ep!(concat!("RSA ", stringify!($s)), move || drop(q.$s(&mut [0; 512], b"m").is_ok()));
            let mut b = [0; 512];
            let sig = k().$s(&mut b, b"m").unwrap().to_vec();
            let p = k().public_key();
            ep!(concat!("RSA ", stringify!($v)), move || drop(p.$v(&sig, b"m")));
        };
    }
    rs!(sign_pkcs1_sha256, verify_pkcs1_sha256);
    rs!(sign_pkcs1_sha384, verify_pkcs1_sha384);
    rs!(sign_pkcs1_sha512, verify_pkcs1_sha512);
    rs!(sign_pss_sha256, verify_pss_sha256);
    rs!(sign_pss_sha384, verify_pss_sha384);
    rs!(sign_pss_sha512, verify_pss_sha512);
    v
}

/// how many inputs per operation go through the release builds
const SEEDS: usize = 20;

fn result_hash(r: &ops::R) -> u64 {
    match r {
        Ok(b) => fw::fnv(b),
        Err(e) => fw::fnv(e.as_bytes()) ^ 1,
    }
}
fn run(o: &ops::Op, seed: u64) -> ops::R {
    rng::seeded(seed * 77 + 5, || (o.run)(seed))
}

/// Operations that are not refused when a required feature is missing: plain
/// hashing and drawing random bytes.
fn unconditional(o: &ops::Op) -> bool {
    o.name.starts_with("sha") || o.name.starts_with("hmac") || o.name == "random-fill"
}

/// Run something one instruction at a time; which instructions it executed that
/// the processor, as far as anyone can tell, does not have?
fn foreign(f: &mut dyn FnMut()) -> (u64, Option<(u64, &'static str)>) {
    let (_, lo, hi) = step::text();
    let found = std::cell::Cell::new(None);
    let has = |f: &str| match f {
        "ssse3" => is_x86_feature_detected!("ssse3"),
        "sse4.1" => is_x86_feature_detected!("sse4.1"),
        // nothing ever looks for these
        "lzcnt" | "movbe" | "rdrand" | "fma" | "f16c" => false,
        // come with avx
        "popcnt" | "sse4.2" => cpuid::have("avx"),
        f => cpuid::have(f),
    };
    let t = step::trace(
        None,
        Some(&|_, rip| {
            if !(lo..hi).contains(&rip) || found.get().is_some() {
                return;
            }
            for n in unsafe { isa::needs(rip as *const u8) } {
                if !has(n) {
                    found.set(Some((rip, *n)));
                }
            }
        }),
        f,
    );
    (t.steps, found.get())
}

/// A release build, with features really missing.
fn release(c: &Ctx) {
    c.assume("In release builds CPU features are withdrawn by letting the processor fault on cpuid while the standard library looks them up, so the code under test sees a processor without them (and every feature, including avx and bmi2, can be withdrawn); instructions of withdrawn features still execute if reached, which is why every executed instruction is decoded.");
    let missing = c.part().contains("missing");
    let all = ops::all();
    let nseed: usize = c.pick(40, 200);
    let fast: Vec<_> = all.iter().filter(|o| !o.slow).collect();
    let slow: Vec<_> = all.iter().filter(|o| o.slow && o.name != "rsa2048-generate").collect();
    let pick = |k: usize| if k < fast.len() { fast[k] } else { slow[k - fast.len()] };
    let nops = fast.len() + slow.len();
    let seeds_of = |k: usize| SEEDS.min(if k < fast.len() { nseed } else { 3 });
    let first: Vec<usize> = (0..nops).scan(0, |a, k| { *a += seeds_of(k); Some(*a - seeds_of(k)) }).collect();
    let digest = c.handed();
    let want = |k: usize, s: usize| digest.get((first[k] + s) * 8..(first[k] + s) * 8 + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let refused = |k: usize| missing && !unconditional(pick(k));
    c.section("operations", nops, |k, l| {
        let o = pick(k);
        for s in 0..seeds_of(k) {
            l.t(1);
            let got = fw::no_panic(|| run(o, s as u64));
            if refused(k) {
                l.s(o.name.as_bytes());
                l.check(got.is_err(), || format!("{} ran although a required CPU feature is missing", o.name));
                continue;
            }
            let Some(want) = want(k, s) else { continue };
            l.s64(want);
            match got {
                Ok(r) => l.check(result_hash(&r) == want, || format!("{} seed {s} differs from the debug build with all features: {}", o.name, r.map(|v| fw::hex(&v)).unwrap_or_else(|e| e))),
                Err(e) => l.check(false, || format!("{} seed {s} panics: {e}", o.name)),
            };
        }
        l.note(|| format!("{} x {} inputs, {}", o.name, seeds_of(k), if refused(k) { "refused" } else { "same results" }));
    });
    c.case_limit(750);
    // Which instructions run depends on the features only where there are
    // several implementations (and nothing long runs if it is refused).
    let light = |o: &ops::Op| unconditional(o) || o.name.starts_with("shake") || o.name.contains("aes") || o.name.contains("chacha");
    let everything = !c.quick() || c.part() == "release-all-optional";
    // the longest first
    let mut plan: Vec<&ops::Op> = fast.iter().chain(&slow).copied().filter(|o| light(o) || everything && (!o.slow || o.name == "rsa2048-pkcs1") || missing && ["x25519", "ed25519-generate", "p256-static-generate", "mlkem768"].contains(&o.name)).collect();
    plan.sort_by_key(|o| (light(o), !o.name.contains("p384"), !o.slow));
    let seeds: &[u64] = if everything { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19] } else { &[3, 5, 9, 13, 17, 19] };
    c.section_procs("instructions", plan.len(), |k, l| {
        let o = plan[k];
        let refused = missing && !unconditional(o);
        for &s in if light(o) && !refused { seeds } else { &[1][..] } {
            // lazy initialisations do not matter, panics do
            let (steps, bad) = rng::with(rng::State::new(rng::Src::Stream(s * 77 + 5)), || {
                foreign(&mut || {
                    let _ = fw::no_panic(|| (o.run)(s));
                })
            })
            .0;
            l.t(steps);
            l.s(format!("{} {s} {steps}", o.name).as_bytes());
            l.check(bad.is_none(), || {
                let (rip, f) = bad.unwrap();
                format!("{} (input {s}) executes an instruction of {f}, which the processor does not have, at {}", o.name, step::locate(rip))
            });
        }
        l.note(|| format!("{}: every instruction decoded", o.name));
    });
}

fn debug(c: &Ctx) {
    c.assume("CPU features are withdrawn with the library's own GRAVIOLA_CPU_DISABLE_* switches, active in this debug-assertions build");
    let optional = ["sha", "bmi2", "vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl"];
    let all = ops::all();
    let nseed: usize = c.pick(40, 200);
    let fast: Vec<_> = all.iter().filter(|o| !o.slow).collect();
    let slow: Vec<_> = all.iter().filter(|o| o.slow && o.name != "rsa2048-generate").collect();
    // baseline: all features present
    c.cpu_mask(&[]);
    let run = |o: &ops::Op, seed: u64| rng::seeded(seed * 77 + 5, || (o.run)(seed));
    let base: Mutex<Vec<Option<ops::R>>> = Mutex::new(vec![None; (fast.len() + slow.len()) * nseed]);
    let pick = |k: usize| if k < fast.len() { fast[k] } else { slow[k - fast.len()] };
    let nops = fast.len() + slow.len();
    let seeds_of = |k: usize| if k < fast.len() { nseed } else { 3 };
    // replay mode runs single sections, so the baseline is not a section
    std::thread::scope(|sc| {
        for t in 0..8 {
            let (base, pick, run, seeds_of) = (&base, &pick, &run, &seeds_of);
            sc.spawn(move || {
                for k in (t..nops).step_by(8) {
                    for s in 0..seeds_of(k) {
                        let r = fw::no_panic(|| run(pick(k), s as u64)).unwrap_or_else(|e| Err(format!("panic {e}")));
                        base.lock().unwrap()[k * nseed + s] = Some(r);
                    }
                }
            });
        }
    });
    let base = base.into_inner().unwrap();
    // for the parts that run in release builds
    let digest: Vec<u8> = (0..nops).flat_map(|k| (0..SEEDS.min(seeds_of(k))).map(move |s| (k, s))).flat_map(|(k, s)| result_hash(base[k * nseed + s].as_ref().unwrap()).to_le_bytes()).collect();
    c.hand_on(digest);
    c.section("baseline-succeeds", nops, |k, l| {
        for s in 0..seeds_of(k) {
            let r = base[k * nseed + s].as_ref().unwrap();
            l.check(r.is_ok(), || format!("{} seed {s}: {r:?}", pick(k).name));
            l.s(r.as_deref().unwrap_or(&[]));
        }
    });
    // all 128 subsets of withdrawn optional features
    for mask in 1..128usize {
        let deny: Vec<&str> = (0..7).filter(|i| mask >> i & 1 == 1).map(|i| optional[i]).collect();
        c.cpu_mask(&deny);
        // the full seed range for single-feature and all-feature withdrawals
        let full = mask.count_ones() <= 1 || mask == 127 || mask == 3 || !c.quick();
        c.section("operations", nops, |k, l| {
            let n = if full { seeds_of(k) } else { seeds_of(k).min(20).min(if k < fast.len() { 20 } else { 1 }) };
            for s in 0..n {
                let got = run(pick(k), s as u64);
                l.t(1);
                let want = base[k * nseed + s].as_ref().unwrap();
                l.s(want.as_deref().unwrap_or(&[]));
                l.check(&got == want, || {
                    format!("{} seed {s} differs with {deny:?} withdrawn: {} vs {}", pick(k).name, got.clone().map(|v| fw::hex(&v)).unwrap_or_else(|e| e), want.clone().map(|v| fw::hex(&v)).unwrap_or_else(|e| e))
                });
            }
            l.note(|| format!("{} x {n} inputs with {deny:?} withdrawn", pick(k).name));
        });
    }
    // required features: refusal
    c.cpu_mask(&[]);
    for f in ["aes", "pclmulqdq", "bmi1", "adx", "avx2"] {
        c.scope(&format!("missing-{f}:"));
        unsafe { std::env::set_var(format!("GRAVIOLA_CPU_DISABLE_{f}"), "1") };
        c.section("refusal", all.len(), |k, l| {
            let o = &all[k];
            l.t(1);
            l.s(o.name.as_bytes());
            if o.name.starts_with("sha") || o.name.starts_with("hmac") || o.name == "random-fill" {
                return; // plain hashing and drawing random bytes need none of these features
            }
            let r = fw::no_panic(|| run(o, 3));
            l.check(r.is_err(), || format!("{} ran although required CPU feature {f} is missing", o.name));
            l.note(|| format!("{}: {:?}", o.name, r.as_ref().err()));
        });
        unsafe { std::env::remove_var(format!("GRAVIOLA_CPU_DISABLE_{f}")) };
        // each computing entry point by itself, its inputs having been
        // prepared while the feature was still there
        let names: Vec<&str> = entry_points().iter().map(|x| x.0).collect();
        c.section_t("entry-point-refusal", names.len(), 1, |k, l| {
            let (name, call) = entry_points().swap_remove(k);
            unsafe { std::env::set_var(format!("GRAVIOLA_CPU_DISABLE_{f}"), "1") };
            let r = fw::no_panic(call);
            unsafe { std::env::remove_var(format!("GRAVIOLA_CPU_DISABLE_{f}")) };
            l.t(1);
            l.s(name.as_bytes());
            l.check(r.is_err(), || format!("{name} ran although required CPU feature {f} is missing"));
            l.note(|| format!("{name}: {r:?}"));
        });
    }
    c.cpu_mask(&[]);
}

fn main() {
    let rel = |name, deny| Part { name, profile: "trace", deny };
    fw::main_parts(
        "C05",
        &[
            Part { name: "", profile: "dev", deny: &[] },
            rel("release", &[]),
            rel("release-sha", &["sha"]),
            rel("release-vaes", &["vaes"]),
            rel("release-vpclmulqdq", &["vpclmulqdq"]),
            rel("release-avx512f", &["avx512f"]),
            rel("release-avx512bw", &["avx512bw"]),
            rel("release-avx512vl", &["avx512vl"]),
            rel("release-all-optional", &["sha", "vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl"]),
            rel("release-missing-aes", &["aes"]),
            rel("release-missing-pclmulqdq", &["pclmulqdq"]),
            rel("release-missing-bmi1", &["bmi1"]),
            rel("release-missing-bmi2", &["bmi2"]),
            rel("release-missing-adx", &["adx"]),
            rel("release-missing-avx2", &["avx2"]),
            rel("release-missing-avx", &["avx"]),
        ],
        |c| if c.part().is_empty() { debug(c) } else { release(c) },
    );
}
