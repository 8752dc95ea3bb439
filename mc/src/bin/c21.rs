//! C21: the instructions executed, the data addresses touched and the operands
//! of divisions do not depend on secrets.
//!
//! Each target is run one instruction at a time for every secret of an
//! enumerated family of the same public shape; all traces must coincide.
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, Part};
use mc::ops;
use mc::rng::{self, Src, State, arr, bytes};
use mc::step::{self, Trace};
use std::mem::MaybeUninit;

/// (name, how many traces, run secret `i` with or without a log)
struct Target {
    name: String,
    n: usize,
    run: Box<dyn Fn(usize, Option<&mut Vec<(u64, u64)>>) -> Trace + Sync>,
}

/// the value of secret `i` is prepared by `setup` outside the trace
fn target<S: 'static>(name: impl Into<String>, n: usize, setup: impl Fn(usize) -> S + Sync + 'static, f: impl Fn(&mut S) + Sync + 'static) -> Target {
    Target {
        name: name.into(),
        n,
        run: Box::new(move |i, log| {
            // the same place for every secret of this thread
            thread_local! {
                static CELL: std::cell::RefCell<Vec<u128>> = const { std::cell::RefCell::new(Vec::new()) };
            }
            CELL.with(|c| {
                let mut v = c.borrow_mut();
                if v.is_empty() {
                    v.resize(1 << 16, 0);
                }
                let p = v.as_mut_ptr();
                let p = unsafe { p.cast::<u8>().add(p.align_offset(64) * 16) }.cast::<MaybeUninit<S>>();
                assert!(std::mem::size_of::<S>() < (1 << 19) && std::mem::align_of::<S>() <= 64);
                let s = unsafe {
                    let p = ((p as usize + 63) & !63) as *mut MaybeUninit<S>;
                    (*p).write(setup(i))
                };
                // randomness is a fixed stream unless the setup scripted it
                let src = RNG.with(|r| r.take()).unwrap_or(Src::Stream(1));
                let (t, _) = rng::with(State::new(src), || {
                    if WARM.get() {
                        f(s);
                        return Trace::default();
                    }
                    step::trace(log, None, &mut || f(s))
                });
                unsafe { std::ptr::drop_in_place(s) };
                t
            })
        }),
    }
}
thread_local! {
    /// run without tracing
    static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static RNG: std::cell::Cell<Option<Src>> = const { std::cell::Cell::new(None) };
}
fn script(b: Vec<u8>) {
    RNG.with(|r| r.set(Some(Src::BytesThen(b, 1))));
}

/// families of 32/48/… byte secrets: extremes, patterns, single bits
fn sec<const N: usize>(i: usize) -> [u8; N] {
    match i {
        0 => arr(21),
        1 => {
            let mut b = [0; N];
            b[N - 1] = 1;
            b
        }
        2 => [0x7f; N],
        3 => [0x55; N],
        4 => [0x2a; N],
        5 => {
            let mut b = [0; N];
            b[0] = 0x40;
            b
        }
        6 => std::array::from_fn(|j| if j < N / 2 { 0x7f } else { 0 }),
        7 => std::array::from_fn(|j| if j < N / 2 { 0 } else { 0xff }),
        _ => {
            if i % 2 == 0 {
                arr(i as u64 + 100)
            } else {
                let mut b = [0u8; N];
                let bit = (i * 37) % (N * 8 - 1);
                b[N - 1 - bit / 8] = 1 << (bit % 8);
                b
            }
        }
    }
}
const P256_N: &str = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551";
const P384_N: &str = "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973";
fn scalar<const N: usize>(i: usize) -> [u8; N] {
    let n = fw::unhex(if N == 32 { P256_N } else { P384_N });
    let mut b: [u8; N] = n.try_into().unwrap();
    match i {
        // near the order, and small
        1 => {
            b[N - 1] -= 1;
            b
        }
        2 => {
            b[N - 1] -= 2;
            b
        }
        3 | 4 => {
            b = [0; N];
            b[N - 1] = i as u8 - 2;
            b
        }
        5 => {
            // (n + 1) / 2
            let mut c = 0;
            for x in b.iter_mut() {
                let t = (*x >> 1) | (c << 7);
                c = *x & 1;
                *x = t;
            }
            b[N - 1] += 1;
            b
        }
        i => sec(i - i.min(6)),
    }
}

fn ct<T: Copy + Default + 'static>(x: T) -> T {
    std::hint::black_box(x)
}

fn targets(ctx: &Ctx) -> Vec<Target> {
    let n = ctx.pick(6, 40);
    let few = ctx.pick(4, 16);
    let mut v = vec![];

    // --- key agreement
    v.push(target("x25519 derive+agree", n, |i| (sec::<32>(i), arr::<32>(9), [0u8; 32], [0u8; 32]), |s| {
        let k = x25519::StaticPrivateKey::from_array(&s.0);
        s.2 = k.public_key().as_bytes();
        if let Ok(x) = k.diffie_hellman(&x25519::PublicKey::from_array(&s.1)) {
            s.3 = x.0;
        }
    }));
    v.push(target("x25519 new_random", few, |i| {
        script(sec::<32>(i).to_vec());
        [0u8; 32]
    }, |s| {
        *s = x25519::PrivateKey::new_random().unwrap().public_key().as_bytes();
    }));
    macro_rules! nist {
        ($m:ident, $c:ident, $len:literal, $h:ident, $nm:literal) => {
            let peer = || {
                let k = $m::StaticPrivateKey::from_bytes(&sec::<$len>(0)).unwrap();
                $m::PublicKey::from_x962_uncompressed(&k.public_key_uncompressed()).unwrap()
            };
            v.push(target(concat!($nm, " load+derive"), n, |i| (scalar::<$len>(i), [0u8; 2 * $len + 1], [0u8; $len]), |s| {
                let k = $m::StaticPrivateKey::from_bytes(&s.0).unwrap();
                s.1 = k.public_key_uncompressed();
                s.2 = k.as_bytes();
            }));
            v.push(target(concat!($nm, " agree"), n, move |i| ($m::StaticPrivateKey::from_bytes(&scalar::<$len>(i)).unwrap(), peer(), [0u8; $len]), |s| {
                s.2 = s.0.diffie_hellman(&s.1).unwrap().0;
            }));
            v.push(target(concat!($nm, " new_random+agree"), few, move |i| {
                script(scalar::<$len>(i).to_vec());
                (peer(), [0u8; $len])
            }, |s| {
                s.1 = $m::PrivateKey::new_random().unwrap().diffie_hellman(&s.0).unwrap().0;
            }));
            // ECDSA: private key and per-signature randomness both vary
            v.push(target(concat!($nm, " ecdsa sign"), n, |i| {
                script(scalar::<$len>(i).to_vec());
                let src = RNG.with(|r| r.take()).unwrap();
                let k = rng::with(State::new(src), || ecdsa::SigningKey::<ecdsa::$c>::generate().unwrap()).0;
                script(bytes(i as u64, 16));
                (k, [0u8; 2 * $len])
            }, |s| {
                s.0.sign::<$h>(&[b"message"], &mut s.1).unwrap();
            }));
            // the randomness alone, with one key
            v.push(target(concat!($nm, " ecdsa nonce"), few, |i| {
                let k = rng::seeded(4, || ecdsa::SigningKey::<ecdsa::$c>::generate().unwrap());
                script(if i < 2 { vec![[0, 0xff][i]; 16] } else { bytes(i as u64 + 50, 16) });
                (k, [0u8; 2 * $len])
            }, |s| {
                s.0.sign::<$h>(&[b"message"], &mut s.1).unwrap();
            }));
        };
    }
    nist!(p256, P256, 32, Sha256, "p256");
    nist!(p384, P384, 48, Sha384, "p384");

    // --- Ed25519
    v.push(target("ed25519 load+sign", n, |i| (sec::<32>(i), [0u8; 64]), |s| {
        let k = eddsa::Ed25519SigningKey::from_bytes(&s.0).unwrap();
        s.1 = k.sign(b"message");
    }));
    // a secret message of one length
    v.push(target("ed25519 message", few, |i| (eddsa::Ed25519SigningKey::from_bytes(&[3; 32]).unwrap(), bytes(i as u64, 100), [0u8; 64]), |s| {
        s.2 = s.0.sign(&s.1);
    }));

    // --- symmetric
    for len in [0usize, 5, 16, 64, 129, 300, 1000] {
        for klen in [16usize, 32] {
            v.push(target(format!("aes-{} encrypt {len}", klen * 8), few + 2, move |i| (sec::<32>(i), arr::<1024>(i as u64), [0u8; 16]), move |s| {
                AesGcm::new(&s.0[..klen]).encrypt(&[1; 12], b"aad", &mut s.1[..len], &mut s.2);
            }));
        }
        v.push(target(format!("chacha encrypt {len}"), few + 2, move |i| (sec::<32>(i), arr::<1024>(i as u64), [0u8; 16]), move |s| {
            ChaCha20Poly1305::new(s.0).encrypt(&[1; 12], b"aad", &mut s.1[..len], &mut s.2);
        }));
        v.push(target(format!("xchacha encrypt {len}"), few, move |i| (sec::<32>(i), arr::<1024>(i as u64), [0u8; 16]), move |s| {
            XChaCha20Poly1305::new(s.0).encrypt(&[1; 24], b"aad", &mut s.1[..len], &mut s.2);
        }));
    }
    // valid decryptions of different plaintexts under different keys
    for len in [16usize, 300] {
        v.push(target(format!("aes decrypt {len}"), few, move |i| {
            let k = AesGcm::new(&sec::<32>(i)[..16]);
            let (mut b, mut t) = (arr::<1024>(i as u64), [0; 16]);
            k.encrypt(&[1; 12], b"aad", &mut b[..len], &mut t);
            (k, b, t)
        }, move |s| s.0.decrypt(&[1; 12], b"aad", &mut s.1[..len], &s.2).unwrap()));
        v.push(target(format!("chacha decrypt {len}"), few, move |i| {
            let k = ChaCha20Poly1305::new(sec::<32>(i));
            let (mut b, mut t) = (arr::<1024>(i as u64), [0; 16]);
            k.encrypt(&[1; 12], b"aad", &mut b[..len], &mut t);
            (k, b, t)
        }, move |s| s.0.decrypt(&[1; 12], b"aad", &mut s.1[..len], &s.2).unwrap()));
        v.push(target(format!("xchacha decrypt {len}"), few, move |i| {
            let k = XChaCha20Poly1305::new(sec::<32>(i));
            let (mut b, mut t) = (arr::<1024>(i as u64), [0; 16]);
            k.encrypt(&[1; 24], b"aad", &mut b[..len], &mut t);
            (k, b, t)
        }, move |s| s.0.decrypt(&[1; 24], b"aad", &mut s.1[..len], &s.2).unwrap()));
    }
    // forged tags: the position (every byte, several bits) and number of
    // differing bytes must not show
    let forge = |i: usize, t: &mut [u8]| match i {
        0 => t.iter_mut().for_each(|b| *b = !*b),
        i => t[(i - 1) % t.len()] ^= 1 << ((i - 1) / t.len() * 3 % 8),
    };
    let nf = |len: usize| 1 + len * ctx.pick(1, 3);
    for len in [0usize, 40, 300] {
        v.push(target(format!("aes forged tag {len}"), nf(16), move |i| {
            let k = AesGcm::new(&[5; 16]);
            let (mut b, mut t) = (arr::<1024>(1), [0; 16]);
            k.encrypt(&[1; 12], b"aad", &mut b[..len], &mut t);
            forge(i, &mut t);
            (k, b, t)
        }, move |s| assert!(s.0.decrypt(&[1; 12], b"aad", &mut s.1[..len], &s.2).is_err())));
        v.push(target(format!("chacha forged tag {len}"), nf(16), move |i| {
            let k = ChaCha20Poly1305::new([5; 32]);
            let (mut b, mut t) = (arr::<1024>(1), [0; 16]);
            k.encrypt(&[1; 12], b"aad", &mut b[..len], &mut t);
            forge(i, &mut t);
            (k, b, t)
        }, move |s| assert!(s.0.decrypt(&[1; 12], b"aad", &mut s.1[..len], &s.2).is_err())));
        v.push(target(format!("xchacha forged tag {len}"), nf(16), move |i| {
            let k = XChaCha20Poly1305::new([5; 32]);
            let (mut b, mut t) = (arr::<1024>(1), [0; 16]);
            k.encrypt(&[1; 24], b"aad", &mut b[..len], &mut t);
            forge(i, &mut t);
            (k, b, t)
        }, move |s| assert!(s.0.decrypt(&[1; 24], b"aad", &mut s.1[..len], &s.2).is_err())));
    }
    fn hm<H: Hash + 'static>(v: &mut Vec<Target>, name: &str, n: usize, few: usize, forge: fn(usize, &mut [u8])) {
        v.push(target(format!("hmac-{name} key+message"), few, |i| (sec::<32>(i), bytes(i as u64, 200), [0u8; 64]), |s| {
            let mut h = Hmac::<H>::new(s.0);
            h.update(&s.1);
            let o = h.finish();
            s.2[..o.as_ref().len()].copy_from_slice(o.as_ref());
        }));
        v.push(target(format!("hmac-{name} forged tag"), n, move |i| {
            let mut h = Hmac::<H>::new([7; 32]);
            h.update([1; 20]);
            let mut t = h.finish().as_ref().to_vec();
            forge(i, &mut t);
            let mut a = [0u8; 64];
            a[..t.len()].copy_from_slice(&t);
            (a, t.len())
        }, |s| {
            let mut h = Hmac::<H>::new([7; 32]);
            h.update([1; 20]);
            assert!(h.verify(&s.0[..s.1]).is_err());
        }));
        v.push(target(format!("{name} ct_equal"), n, move |i| {
            let mut t = H::hash(b"x").as_ref().to_vec();
            forge(i, &mut t);
            let mut a = [0u8; 64];
            a[..t.len()].copy_from_slice(&t);
            (a, t.len(), false)
        }, |s| {
            s.2 = ct(H::hash(b"x").ct_equal(&s.0[..s.1]));
        }));
    }
    let forge: fn(usize, &mut [u8]) = |i, t| match i {
        0 => t.iter_mut().for_each(|b| *b = !*b),
        i => {
            let n = t.len();
            t[(i - 1) % n] ^= 1 << ((i - 1) / n * 3 % 8)
        }
    };
    hm::<Sha256>(&mut v, "sha256", nf(32), few, forge);
    hm::<Sha384>(&mut v, "sha384", nf(48), few, forge);
    hm::<Sha512>(&mut v, "sha512", nf(64), few, forge);

    // --- ML-KEM: keys, validity of the ciphertext and messages are secret
    use mlkem768::{DecapKey, Message};
    v.push(target("mlkem decaps (key)", few, |i| {
        let k = DecapKey::keygen_internal(&arr(i as u64));
        let ct = k.encapsulation_key().encaps_internal(Message(arr(i as u64 + 1))).1;
        (k, ct, [0u8; 32])
    }, |s| s.2 = *s.0.decaps_internal(&s.1).as_ref()));
    v.push(target("mlkem decaps (validity)", ctx.pick(8, 60), |i| {
        let k = DecapKey::keygen_internal(&arr(3));
        let mut ct = *k.encapsulation_key().encaps_internal(Message(arr(4))).1.as_ref();
        match i {
            0 => {}
            1 => ct[0] ^= 1,
            2 => ct[1087] ^= 0x80,
            3 => ct[960] ^= 1,
            4 => ct = [0; 1088],
            5 => ct = [0xff; 1088],
            i => ct[(i * 331) % 1088] ^= 1 << (i % 8),
        }
        (k, mlkem768::Ciphertext::from(ct), [0u8; 32])
    }, |s| s.2 = *s.0.decaps_internal(&s.1).as_ref()));
    v.push(target("mlkem decaps (rejection secret)", few, |i| {
        let mut seed = arr::<64>(3);
        seed[32..].copy_from_slice(&sec::<32>(i));
        (DecapKey::keygen_internal(&seed), mlkem768::Ciphertext::from([7; 1088]), [0u8; 32])
    }, |s| s.2 = *s.0.decaps_internal(&s.1).as_ref()));
    v.push(target("mlkem encaps (message)", few, |i| {
        let ek = DecapKey::keygen_internal(&arr(3)).encapsulation_key();
        (Some(ek), sec::<32>(i), [0u8; 32])
    }, |s| {
        let (ss, _ct) = s.0.take().unwrap().encaps_internal(Message(s.1));
        s.2 = *ss.as_ref();
    }));
    v.push(target("mlkem keygen (rejection secret)", few, |i| {
        let mut seed = arr::<64>(3);
        seed[32..].copy_from_slice(&sec::<32>(i));
        (seed, None)
    }, |s| {
        s.1 = Some(DecapKey::keygen_internal(&s.0));
    }));

    match ctx.part() {
        "without-avx512f" => {
            v.retain(|t| t.name.contains("aes"));
            return v;
        }
        "without-sha-bmi2" => {
            v.retain(|t| t.name.contains("hmac") || t.name.contains("ct_equal"));
            return v;
        }
        _ => {}
    }

    // --- RSA: keys of one size, and randomness of PSS
    let mk = |seed: u64, bits: usize| mc::rsaref::Key::new(seed, bits / 2, bits / 2, 65537);
    let keys: Vec<Vec<u8>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..ctx.pick(3, 8u64)).map(|i| sc.spawn(move || mk(i + 70, 2048).pkcs1())).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut same: Vec<Vec<u8>> = vec![];
    for k in &keys {
        // one public shape: all encodings of one length
        if k.len() == keys[0].len() {
            same.push(k.clone());
        }
    }
    let keys: Vec<Vec<u8>> = same;
    let (k1, k2, k3) = (keys.clone(), keys.clone(), keys.clone());
    v.push(target("rsa-2048 pkcs1 sign", keys.len(), move |i| (rsa::SigningKey::from_pkcs1_der(&k1[i]).unwrap(), [0u8; 256]), |s| {
        s.0.sign_pkcs1_sha256(&mut s.1, b"m").unwrap();
    }));
    v.push(target("rsa-2048 pss sign", keys.len(), move |i| {
        script(bytes(i as u64, 32));
        (rsa::SigningKey::from_pkcs1_der(&k2[i]).unwrap(), [0u8; 256])
    }, |s| {
        s.0.sign_pss_sha256(&mut s.1, b"m").unwrap();
    }));
    let _ = (k3, ops::RSA2048);
    v
}

fn main() {
    let part = |name, deny| Part { name, profile: "trace", deny };
    // the implementations chosen when optional features are missing
    fw::main_parts("C21", &[part("", &[]), part("without-avx512f", &["avx512f"]), part("without-sha-bmi2", &["sha", "bmi2"])], |ctx| {
        // single-stepping is slow by itself, and slower on a busy machine
        ctx.case_limit(750);
        ctx.assume("Traces are taken of this build (the project's own test profile with optimisation) on this processor; instructions whose timing depends on their operands, other than division, are taken to be constant-time.");
        ctx.assume("Vector-indexed addressing (gathers) is not decoded; displacements are constants of the code.");
        {
            let ts = targets(ctx);
            // long targets first; each case compares a block of secrets with secret 0
            let block = 6;
            let plan: Vec<(usize, usize)> = {
                let mut p: Vec<_> = ts.iter().enumerate().flat_map(|(t, x)| (0..(x.n - 1).div_ceil(block)).map(move |b| (t, b))).collect();
                p.sort_by_key(|(t, _)| {
                    let n = &ts[*t].name;
                    if n.contains("rsa") { 0 } else if n.contains("p384") { 1 } else if n.contains("p256") { 2 } else { 3 }
                });
                p
            };
            ctx.section_procs("traces", plan.len(), |c, l| {
                let (t, b) = plan[c];
                let t = &ts[t];
                // once untraced: lazy initialisations happen here
                WARM.set(true);
                let _ = (t.run)(0, None);
                WARM.set(false);
                let base = (t.run)(0, None);
                l.note(|| format!("{}: {} instructions", t.name, base.steps));
                l.s64(base.code);
                for i in b * block + 1..((b + 1) * block + 1).min(t.n) {
                    let x = (t.run)(i, None);
                    l.t(x.steps);
                    l.s64(x.data);
                    if x != base {
                        // find where they part
                        let cap = (base.steps.max(x.steps) as usize + 16).min(40_000_000);
                        let (mut la, mut lb) = (Vec::with_capacity(cap), Vec::with_capacity(cap));
                        (t.run)(0, Some(&mut la));
                        (t.run)(i, Some(&mut lb));
                        let at = la.iter().zip(&lb).position(|(a, b)| a != b);
                        let what = match at {
                            None => format!("lengths {} and {}", base.steps, x.steps),
                            Some(k) => {
                                let (a, b) = (la[k], lb[k]);
                                if a.0 == b.0 {
                                    format!("instruction {k} at {} uses a different address or operand", step::locate(a.0))
                                } else {
                                    format!("after instruction {} at {}", k - 1, step::locate(la[k.max(1) - 1].0))
                                }
                            }
                        };
                        l.check(false, || format!("{}: secrets 0 and {i} execute differently: {what}", t.name));
                        break;
                    }
                }
            });
        }
    })
}
