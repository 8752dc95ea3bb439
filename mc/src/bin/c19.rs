//! C19: dropped values leave no part of their secret in the memory they held.
//!
//! Every case builds a value in place (in memory with a known background),
//! takes it through a history of uses, drops it in place and then reads the
//! raw memory.  The verdict is differential over the secrets: what is left
//! must be the same whatever the secret was, except for words that are also
//! found in the public counterpart of the value (or its encoding).
#![allow(dropping_copy_types)]
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::Sha256;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, hex};
use mc::rng::{self, Src, State, arr};
use std::collections::HashSet;
use std::mem::{MaybeUninit, size_of};

const GUARD: usize = 64;

/// raw image of a value
fn image<T>(p: *const T) -> Vec<u8> {
    (0..size_of::<T>()).map(|i| unsafe { p.cast::<u8>().add(i).read_volatile() }).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Plain,
    /// during the unwinding of a panic
    Unwind,
    /// on another thread
    Thread,
}

struct Gone<T>(*mut T);
impl<T> Drop for Gone<T> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}
unsafe impl<T> Send for Gone<T> {}

/// build, use, drop; (image before, image after, background intact)
#[inline(never)]
fn life<T>(make: &dyn Fn() -> T, uses: &dyn Fn(&T), how: How, bg: u8) -> (Vec<u8>, Vec<u8>, bool) {
    #[repr(C, align(64))]
    struct Cell<T>([u8; GUARD], MaybeUninit<T>, [u8; GUARD]);
    let mut c: Box<MaybeUninit<Cell<T>>> = Box::new(MaybeUninit::uninit());
    let base = c.as_mut_ptr();
    unsafe { std::ptr::write_bytes(base.cast::<u8>(), bg, size_of::<Cell<T>>()) };
    let p = unsafe { (*base).1.as_mut_ptr() };
    // leave no residue of earlier cases on the stack for padding to pick up
    scrub(bg);
    unsafe { p.write(make()) };
    let before = image(p);
    uses(unsafe { &*p });
    match how {
        How::Plain => unsafe { std::ptr::drop_in_place(p) },
        How::Unwind => {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _g = Gone(p);
                std::panic::resume_unwind(Box::new(0));
            }));
        }
        How::Thread => {
            let g = Gone(p);
            std::thread::scope(|s| {
                s.spawn(move || drop(g));
            });
        }
    }
    let after = image(p);
    let ok = unsafe { (0..GUARD).all(|i| (*base).0.as_ptr().add(i).read_volatile() == bg && (*base).2.as_ptr().add(i).read_volatile() == bg) };
    (before, after, ok)
}
#[inline(never)]
fn scrub(v: u8) {
    let mut b = [v; 256 << 10];
    std::hint::black_box(&mut b);
}

/// A kind of value: how to make it from secret number `i`, its uses, and the
/// bytes about it that are public.
struct Kind<T> {
    name: &'static str,
    secrets: usize,
    make: Box<dyn Fn(usize) -> T + Sync>,
    uses: Vec<Box<dyn Fn(&T) + Sync>>,
    public: Box<dyn Fn(usize) -> Vec<u8> + Sync>,
    /// the secret itself, when it is stored literally
    secret: Box<dyn Fn(usize) -> Vec<u8> + Sync>,
    slow: bool,
}

fn run<T>(ctx: &Ctx, k: Kind<T>) {
    // histories: no use, every single use, every ordered pair
    let n = k.uses.len();
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    hist.extend((0..n).map(|i| vec![i]));
    if !(k.slow && ctx.quick()) {
        hist.extend((0..n * n).map(|i| vec![i / n, i % n]));
    }
    let hows = [How::Plain, How::Unwind, How::Thread];
    let base: std::sync::OnceLock<Vec<(Vec<u8>, Vec<u8>)>> = Default::default();
    let per = k.secrets;
    ctx.section(k.name, per * hist.len() * hows.len(), |i, l| {
        let (s, h, how) = (i % per, &hist[i / per % hist.len()], hows[i / per / hist.len()]);
        let uses = |v: &T| h.iter().for_each(|u| (k.uses[*u])(v));
        let go = |s: usize, bg: u8| life(&|| (k.make)(s), &uses, how, bg);
        l.note(|| format!("{} secret {s}, uses {h:?}", k.name));
        // reference lives: secrets 0 and 1, never used, plainly dropped
        let base = base.get_or_init(|| {
            (0..2)
                .map(|s| {
                    let r = life(&|| (k.make)(s), &|_| (), How::Plain, 0);
                    (r.0, r.1)
                })
                .collect()
        });
        let (before, after, ok) = go(s, 0);
        let (_, after2, _) = go(s, 0xa5);
        l.t(2 + h.len() as u64);
        l.s(&before);
        l.check(ok, || format!("{}: dropping wrote outside the value", k.name));
        if s < 2 && h.is_empty() {
            l.check(base[0].0 != base[1].0, || format!("{}: images of different secrets do not differ (harness error)", k.name));
        }
        let public = (k.public)(s);
        let pub8: HashSet<&[u8]> = public.windows(8).collect();
        let pub4: HashSet<&[u8]> = public.windows(4).collect();
        let secret = (k.secret)(s);
        // recognisable four-byte pieces of the secret
        let sec4: HashSet<&[u8]> = secret.windows(4).filter(|w| w.iter().filter(|b| **b != 0).count() >= 3 && !pub4.contains(w)).collect();
        for (after, bg) in [(&after, 0u8), (&after2, 0xa5)] {
            let other = &base[if s == 0 { 1 } else { 0 }].1;
            for w in 0..after.len() / 8 {
                let word = &after[8 * w..8 * w + 8];
                // cleared, or background showing through padding; the same for
                // every secret; or public
                if word.iter().all(|b| *b == 0 || *b == bg) || word == &other[8 * w..8 * w + 8] || pub8.contains(word) {
                    continue;
                }
                // the end of public data, next to something else
                if word[4..] == [0; 4] && pub4.contains(&word[..4]) {
                    continue;
                }
                l.check(false, || format!("{}: after the drop, bytes {}..{} of {} still hold {} (secret {s}, uses {h:?})", k.name, 8 * w, 8 * w + 8, after.len(), hex(word)));
            }
            for w in after.windows(4) {
                l.check(!sec4.contains(w), || format!("{}: bytes {} of the secret remain after the drop", k.name, hex(w)));
            }
        }
    });
}

/// secrets: dense ones, then each single bit (thorough), all bytes distinct
fn sec<const N: usize>(i: usize) -> [u8; N] {
    match i {
        0 => arr(11),
        1 => arr(12),
        2 => [0x7f; N],
        3 => std::array::from_fn(|j| (j * 7 + 1) as u8 & 0x7f),
        _ => {
            let mut b = [0u8; N];
            let bit = (i - 4) % (N * 8);
            b[bit / 8] = 1 << (bit % 8);
            b[N - 1] |= 1;
            b[0] &= 0x7f;
            b
        }
    }
}
/// below the group order of P-256 and P-384
fn scalar<const N: usize>(i: usize) -> [u8; N] {
    let mut b = sec::<N>(i);
    b[0] &= 0x7f;
    b
}

fn none<A>() -> Box<dyn Fn(A) -> Vec<u8> + Sync> {
    Box::new(|_| vec![])
}

macro_rules! uses {
    ($($f:expr),* $(,)?) => { vec![$(Box::new($f)),*] }
}

fn with_bytes<T>(b: Vec<u8>, f: impl FnOnce() -> T) -> T {
    rng::with(State::new(Src::BytesThen(b, 5)), f).0
}

fn aeads(ctx: &Ctx, n: usize) {
    for (klen, name) in [(16, "AesGcm-128"), (32, "AesGcm-256")] {
        run(ctx, Kind::<AesGcm> {
            name,
            secrets: n,
            make: Box::new(move |i| AesGcm::new(&sec::<32>(i)[..klen])),
            uses: uses![
                |k: &AesGcm| {
                    for l in [0, 16, 100, 700] {
                        let (mut b, mut t) = (vec![1u8; l], [0; 16]);
                        k.encrypt(&[3; 12], b"a", &mut b, &mut t);
                        assert!(k.decrypt(&[3; 12], b"a", &mut b, &t).is_ok());
                    }
                },
                |k: &AesGcm| assert!(k.decrypt(&[3; 12], b"a", &mut [0u8; 300], &[0; 16]).is_err()),
                |k: &AesGcm| assert!(k.decrypt(&[3; 12], b"a", &mut [0u8; 30], &[0; 15]).is_err()),
            ],
            public: none(),
            secret: Box::new(move |i| sec::<32>(i)[..klen].to_vec()),
            slow: false,
        });
    }
    run(ctx, Kind::<ChaCha20Poly1305> {
        name: "ChaCha20Poly1305",
        secrets: n,
        make: Box::new(|i| ChaCha20Poly1305::new(sec(i))),
        uses: uses![
            |k: &ChaCha20Poly1305| {
                let (mut b, mut t) = ([1u8; 300], [0; 16]);
                k.encrypt(&[3; 12], b"a", &mut b, &mut t);
                assert!(k.decrypt(&[3; 12], b"a", &mut b, &t).is_ok());
            },
            |k: &ChaCha20Poly1305| assert!(k.decrypt(&[3; 12], b"a", &mut [0u8; 300], &[0; 16]).is_err()),
        ],
        public: none(),
        secret: Box::new(|i| sec::<32>(i).to_vec()),
        slow: false,
    });
    run(ctx, Kind::<XChaCha20Poly1305> {
        name: "XChaCha20Poly1305",
        secrets: n,
        make: Box::new(|i| XChaCha20Poly1305::new(sec(i))),
        uses: uses![
            |k: &XChaCha20Poly1305| {
                let (mut b, mut t) = ([1u8; 300], [0; 16]);
                k.encrypt(&[3; 24], b"a", &mut b, &mut t);
                assert!(k.decrypt(&[3; 24], b"a", &mut b, &t).is_ok());
            },
            |k: &XChaCha20Poly1305| assert!(k.decrypt(&[3; 24], b"a", &mut [0u8; 300], &[0; 16]).is_err()),
        ],
        public: none(),
        secret: Box::new(|i| sec::<32>(i).to_vec()),
        slow: false,
    });
}

fn x(ctx: &Ctx, n: usize) {
    let peer = || x25519::StaticPrivateKey::from_array(&[9; 32]).public_key();
    let makes: [(&'static str, Box<dyn Fn(usize) -> x25519::StaticPrivateKey + Sync>); 3] = [
        ("x25519::StaticPrivateKey::from_array", Box::new(|i| x25519::StaticPrivateKey::from_array(&sec(i)))),
        ("x25519::StaticPrivateKey::try_from_slice", Box::new(|i| x25519::StaticPrivateKey::try_from_slice(&sec::<32>(i)).unwrap())),
        ("x25519::StaticPrivateKey::new_random", Box::new(|i| with_bytes(sec::<32>(i).to_vec(), || x25519::StaticPrivateKey::new_random().unwrap()))),
    ];
    for (name, make) in makes {
        run(ctx, Kind {
            name,
            secrets: n,
            make,
            uses: uses![
                |k: &x25519::StaticPrivateKey| drop(k.public_key()),
                move |k: &x25519::StaticPrivateKey| drop(k.diffie_hellman(&peer())),
                |k: &x25519::StaticPrivateKey| drop(k.diffie_hellman(&x25519::PublicKey::from_array(&[0; 32]))),
            ],
            public: none(),
            secret: Box::new(|i| sec::<32>(i).to_vec()),
            slow: false,
        });
    }
    run(ctx, Kind {
        name: "x25519::PrivateKey::new_random",
        secrets: n,
        make: Box::new(|i| with_bytes(sec::<32>(i).to_vec(), || x25519::PrivateKey::new_random().unwrap())),
        uses: uses![|k: &x25519::PrivateKey| drop(k.public_key())],
        public: none(),
        secret: Box::new(|i| sec::<32>(i).to_vec()),
        slow: false,
    });
    run(ctx, Kind {
        name: "x25519::SharedSecret",
        secrets: n,
        make: Box::new(move |i| x25519::StaticPrivateKey::from_array(&sec(if i < 4 { i } else { 4 + (i - 4) % 240 })).diffie_hellman(&peer()).unwrap()),
        uses: uses![|k: &x25519::SharedSecret| assert!(k.0 != [0; 32])],
        public: none(),
        secret: none(),
        slow: false,
    });
}

macro_rules! nist {
    ($ctx:expr, $n:expr, $m:ident, $c:ident, $len:literal, $name:literal) => {{
        let (ctx, n) = ($ctx, $n);
        fn peer() -> $m::PublicKey {
            let k = $m::StaticPrivateKey::from_bytes(&scalar::<$len>(0)).unwrap();
            $m::PublicKey::from_x962_uncompressed(&k.public_key_uncompressed()).unwrap()
        }
        let makes: [(&'static str, Box<dyn Fn(usize) -> $m::StaticPrivateKey + Sync>); 2] = [
            (concat!($name, "::StaticPrivateKey::from_bytes"), Box::new(|i| $m::StaticPrivateKey::from_bytes(&scalar::<$len>(i)).unwrap())),
            (concat!($name, "::StaticPrivateKey::new_random"), Box::new(|i| with_bytes(scalar::<$len>(i).to_vec(), || $m::StaticPrivateKey::new_random().unwrap()))),
        ];
        for (name, make) in makes {
            run(ctx, Kind {
                name,
                secrets: n,
                make,
                uses: uses![
                    |k: &$m::StaticPrivateKey| drop(k.public_key_uncompressed()),
                    |k: &$m::StaticPrivateKey| drop(k.diffie_hellman(&peer())),
                    |k: &$m::StaticPrivateKey| drop(k.as_bytes()),
                ],
                public: none(),
                secret: Box::new(|i| scalar::<$len>(i).to_vec()),
                slow: false,
            });
        }
        run(ctx, Kind {
            name: concat!($name, "::PrivateKey::new_random"),
            secrets: n,
            make: Box::new(|i| with_bytes(scalar::<$len>(i).to_vec(), || $m::PrivateKey::new_random().unwrap())),
            uses: uses![|k: &$m::PrivateKey| drop(k.public_key_uncompressed())],
            public: none(),
            secret: Box::new(|i| scalar::<$len>(i).to_vec()),
            slow: false,
        });
        run(ctx, Kind {
            name: concat!($name, "::SharedSecret"),
            secrets: n,
            make: Box::new(|i| $m::StaticPrivateKey::from_bytes(&scalar::<$len>(i)).unwrap().diffie_hellman(&peer()).unwrap()),
            uses: uses![|k: &$m::SharedSecret| assert!(k.0 != [0; $len])],
            public: none(),
            secret: none(),
            slow: false,
        });
        // ECDSA signing keys, by every way of getting one
        fn der(i: usize, pkcs8: bool) -> Vec<u8> {
            let k = with_bytes(scalar::<$len>(i).to_vec(), || ecdsa::SigningKey::<ecdsa::$c>::generate().unwrap());
            let mut b = [0u8; 400];
            if pkcs8 { k.to_pkcs8_der(&mut b).unwrap().to_vec() } else { k.to_sec1_der(&mut b).unwrap().to_vec() }
        }
        type S = ecdsa::SigningKey<ecdsa::$c>;
        let makes: [(&'static str, Box<dyn Fn(usize) -> S + Sync>); 3] = [
            (concat!("ecdsa-", $name, "::generate"), Box::new(|i| with_bytes(scalar::<$len>(i).to_vec(), || S::generate().unwrap()))),
            (concat!("ecdsa-", $name, "::from_pkcs8_der"), Box::new(|i| S::from_pkcs8_der(&der(i, true)).unwrap())),
            (concat!("ecdsa-", $name, "::from_sec1_der"), Box::new(|i| S::from_sec1_der(&der(i, false)).unwrap())),
        ];
        for (name, make) in makes {
            run(ctx, Kind {
                name,
                secrets: n.min(40),
                make,
                uses: uses![
                    |k: &S| drop(k.sign::<Sha256>(&[b"m"], &mut [0u8; 2 * $len]).unwrap().to_vec()),
                    |k: &S| drop(k.sign_asn1::<Sha256>(&[b"m"], &mut [0u8; 150]).unwrap().to_vec()),
                    |k: &S| assert!(k.sign_asn1::<Sha256>(&[b"m"], &mut [0u8; 5]).is_err()),
                    |k: &S| drop(k.to_pkcs8_der(&mut [0u8; 400]).unwrap().to_vec()),
                    |k: &S| drop(k.to_spki_der(&mut [0u8; 400]).unwrap().to_vec()),
                ],
                public: none(),
                secret: Box::new(|i| scalar::<$len>(i).to_vec()),
                slow: true,
            });
        }
    }};
}

fn ed(ctx: &Ctx, n: usize) {
    type S = eddsa::Ed25519SigningKey;
    fn der(i: usize) -> Vec<u8> {
        let mut b = [0u8; 200];
        S::from_bytes(&sec::<32>(i)).unwrap().to_pkcs8_der(&mut b).unwrap().to_vec()
    }
    let makes: [(&'static str, Box<dyn Fn(usize) -> S + Sync>); 3] = [
        ("Ed25519SigningKey::from_bytes", Box::new(|i| S::from_bytes(&sec::<32>(i)).unwrap())),
        ("Ed25519SigningKey::generate", Box::new(|i| with_bytes(sec::<32>(i).to_vec(), || S::generate().unwrap()))),
        ("Ed25519SigningKey::from_pkcs8_der", Box::new(|i| S::from_pkcs8_der(&der(i)).unwrap())),
    ];
    for (name, make) in makes {
        run(ctx, Kind {
            name,
            secrets: n,
            make,
            uses: uses![
                |k: &S| drop(k.sign(b"m")),
                |k: &S| drop(k.public_key()),
                |k: &S| drop(k.to_pkcs8_der(&mut [0u8; 200]).unwrap().to_vec()),
            ],
            public: Box::new(|i| {
                let vk = S::from_bytes(&sec::<32>(i)).unwrap().public_key();
                [image(&vk), vk.as_bytes().to_vec()].concat()
            }),
            secret: Box::new(|i| sec::<32>(i).to_vec()),
            slow: false,
        });
    }
}

fn mlkem(ctx: &Ctx, n: usize) {
    use mlkem768::*;
    fn seed(i: usize) -> [u8; 64] {
        // secrets 0 and 1 share nothing; the rest are single bits and patterns
        sec::<64>(i)
    }
    let makes: [(&'static str, Box<dyn Fn(usize) -> DecapKey + Sync>); 2] = [
        ("DecapKey::keygen_internal", Box::new(|i| DecapKey::keygen_internal(&seed(i)))),
        ("DecapKey::generate", Box::new(|i| with_bytes(seed(i).to_vec(), || DecapKey::generate().unwrap()))),
    ];
    for (name, make) in makes {
        run(ctx, Kind {
            name,
            secrets: n,
            make,
            uses: uses![
                |k: &DecapKey| {
                    let (_, ct) = k.encapsulation_key().encaps_internal(Message([7; 32]));
                    drop(k.decaps_internal(&ct));
                },
                |k: &DecapKey| drop(k.decaps_internal(&[7u8; 1088].into())),
                |k: &DecapKey| drop(k.encapsulation_key().as_bytes()),
            ],
            public: Box::new(|i| {
                let k = DecapKey::keygen_internal(&seed(i));
                let ek = k.encapsulation_key();
                [image(&ek), ek.as_bytes().to_vec(), mc::hashref::sha3_256(&ek.as_bytes()).to_vec()].concat()
            }),
            secret: Box::new(|i| {
                let k = DecapKey::keygen_internal(&seed(i)).as_bytes();
                [&k[..1152], &k[2368..]].concat()
            }),
            slow: false,
        });
    }
    run(ctx, Kind {
        name: "mlkem768::SharedSecret (encapsulated)",
        secrets: n,
        make: Box::new(|i| DecapKey::keygen_internal(&[1; 64]).encapsulation_key().encaps_internal(Message(sec(i))).0),
        uses: uses![|s: &SharedSecret| assert!(*s.as_ref() != [0; 32])],
        public: none(),
        secret: none(),
        slow: false,
    });
    run(ctx, Kind {
        name: "mlkem768::SharedSecret (implicit rejection)",
        secrets: n,
        make: Box::new(|i| {
            let mut c = [0u8; 1088];
            c[..32].copy_from_slice(&sec::<32>(i));
            DecapKey::keygen_internal(&[1; 64]).decaps_internal(&c.into())
        }),
        uses: uses![|s: &SharedSecret| assert!(*s.as_ref() != [0; 32])],
        public: none(),
        secret: none(),
        slow: false,
    });
    run(ctx, Kind {
        name: "mlkem768::Message",
        secrets: n,
        make: Box::new(|i| Message(sec(i))),
        uses: uses![|s: &Message| assert!(s.0 != [0; 32])],
        public: none(),
        secret: Box::new(|i| sec::<32>(i).to_vec()),
        slow: false,
    });
}

fn rsa_keys(ctx: &Ctx) {
    // two keys of every size, through both encodings
    let mut sizes: Vec<(usize, Vec<mc::rsaref::Key>)> = vec![];
    for k in mc::rsaref::fixtures().into_iter().chain(mc::rsaref::samples()) {
        let b = k.n.bits();
        match sizes.iter_mut().find(|s| s.0 == b) {
            Some(s) => s.1.push(k),
            None => sizes.push((b, vec![k])),
        }
    }
    for (bits, keys) in sizes {
        if rsa::SigningKey::from_pkcs1_der(&keys[0].pkcs1()).is_err() {
            continue;
        }
        let mut keys: Vec<_> = keys.into_iter().filter(|k| rsa::SigningKey::from_pkcs1_der(&k.pkcs1()).is_ok()).collect();
        if keys.len() == 1 {
            // the same key with its primes in the other order is another secret image
            let k = &keys[0];
            if let Some(s) = mc::rsaref::Key::from_primes(&k.q, &k.p, &k.e) {
                keys.push(s);
            }
        }
        if keys.len() < 2 || (ctx.quick() && bits > 4096 && bits != 8192) {
            continue;
        }
        keys.truncate(ctx.pick(2, 6));
        let name: &'static str = Box::leak(format!("rsa-{bits}").into_boxed_str());
        let keys = std::sync::Arc::new(keys);
        let (k2, k3, k4) = (keys.clone(), keys.clone(), keys.clone());
        type S = rsa::SigningKey;
        run(ctx, Kind::<S> {
            name,
            secrets: keys.len(),
            make: Box::new(move |i| S::from_pkcs1_der(&k2[i].pkcs1()).unwrap()),
            uses: uses![
                |k: &S| drop(k.sign_pkcs1_sha256(&mut [0u8; 1024], b"m").map(|s| s.to_vec())),
                |k: &S| drop(k.sign_pss_sha256(&mut [0u8; 1024], b"m").map(|s| s.to_vec())),
                |k: &S| assert!(k.sign_pkcs1_sha256(&mut [0u8; 3], b"m").is_err()),
                |k: &S| drop(k.to_pkcs8_der(&mut [0u8; 8192]).unwrap().to_vec()),
            ],
            public: Box::new(move |i| {
                let vk = S::from_pkcs1_der(&k3[i].pkcs1()).unwrap().public_key();
                image(&vk)
            }),
            secret: Box::new(move |i| {
                let k = &k4[i];
                let mut o = vec![];
                for p in [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.qi] {
                    let mut b = p.bytes();
                    b.reverse();
                    o.extend(b);
                    o.extend([0; 8]);
                }
                o
            }),
            slow: true,
        });
    }
    // freshly generated keys
    type S = rsa::SigningKey;
    run(ctx, Kind::<S> {
        name: "rsa-generate-2048",
        secrets: ctx.pick(3, 12),
        make: Box::new(|i| rng::seeded(900 + i as u64, || S::generate(rsa::KeySize::Rsa2048).unwrap())),
        uses: uses![|k: &S| drop(k.sign_pkcs1_sha256(&mut [0u8; 256], b"m").unwrap().to_vec())],
        public: Box::new(|i| image(&rng::seeded(900 + i as u64, || S::generate(rsa::KeySize::Rsa2048).unwrap()).public_key())),
        secret: none(),
        slow: true,
    });
}

fn main() {
    fw::main("C19", |ctx| {
        ctx.assume("The memory a value occupies is the place it is dropped in; copies Rust leaves behind when a value is moved are outside the property.");
        let n = ctx.pick(12, 4 + 256);
        for deny in [&[][..], &["avx512f"], &["vaes"]] {
            ctx.cpu_mask(deny);
            aeads(ctx, ctx.pick(12, 4 + 256));
        }
        ctx.cpu_mask(&[]);
        x(ctx, n);
        nist!(ctx, n, p256, P256, 32, "p256");
        nist!(ctx, n, p384, P384, 48, "p384");
        ed(ctx, n);
        mlkem(ctx, ctx.pick(6, 4 + 512));
        rsa_keys(ctx);
    })
}
