//! C18: a failing random source always surfaces as an error; successful
//! operations draw, and use, the randomness they are specified to.
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::big::B;
use mc::hashref::H;
use mc::rsaref::mgf1;
use mc::nist::{Nist, P256, P384};
use mc::ops::{self, Op};
use mc::rng::{self, Src, State};

const FILLS: u8 = 5;

/// run with request `k` failing; the result has to be an error
fn failing(l: &mut L, op: &Op, seed: u64, src: Src, k: usize, sticky: bool, fill: u8) {
    let mut st = State::new(src);
    st.fail_at = Some(k);
    st.fail_sticky = sticky;
    st.fail_fill = fill;
    st.max_calls = 5000;
    let run = op.run;
    let (r, st) = rng::with(st, || no_panic(|| run(seed)));
    l.t(st.calls.len() as u64 + 1);
    l.s(format!("{}/{k}/{sticky}/{fill}", op.name).as_bytes());
    match r {
        Err(p) => {
            l.check(false, || format!("{}: panicked when request {k} failed: {p}", op.name));
        }
        Ok(Ok(o)) => {
            l.check(st.calls.len() <= k, || format!("{}: request {k} of the random source failed (buffer left as kind {fill}, later requests {}), but the operation succeeded with {}", op.name, if sticky { "fail too" } else { "succeed" }, hex(&o)));
        }
        Ok(Err(_)) => {}
    }
}

fn failures(ctx: &Ctx) {
    let ops: Vec<Op> = ops::all().into_iter().filter(|o| o.name != "rsa2048-generate").collect();
    let seeds = ctx.pick(2u64, 20);
    // every operation, every request it makes
    let plan: Vec<(usize, u64, usize)> = ops
        .iter()
        .enumerate()
        .flat_map(|(i, o)| {
            (0..if o.slow { 1 } else { seeds }).flat_map(move |s| {
                let run = o.run;
                let n = rng::with(State::new(Src::Stream(s)), || no_panic(|| run(s))).1.calls.len();
                // a failure scheduled beyond the last request is never met
                (0..n + 1).map(move |k| (i, s, k))
            })
        })
        .collect();
    ctx.section("fail-each-request", plan.len(), |i, l| {
        let (o, s, k) = plan[i];
        let op = &ops[o];
        l.note(|| format!("{} request {k} fails", op.name));
        for fill in 0..FILLS {
            for sticky in [true, false] {
                failing(l, op, s, Src::Stream(s), k, sticky, fill);
            }
        }
    });
}

fn consumption(ctx: &Ctx) {
    let ops: Vec<Op> = ops::all().into_iter().filter(|o| o.rng_bytes.is_some()).collect();
    ctx.section("amount-drawn", ops.len(), |i, l| {
        let op = &ops[i];
        for s in 0..ctx.pick(4u64, 40) {
            let run = op.run;
            let (r, st) = rng::with(State::new(Src::Stream(s)), || run(s));
            l.t(1);
            l.check(r.is_ok(), || format!("{}: {r:?} with a working source", op.name));
            let want = op.rng_bytes.unwrap();
            l.check(st.out.len() >= want, || format!("{}: drew {} bytes, specification needs {want}", op.name, st.out.len()));
        }
    });
    // every drawn bit matters: flipping any one of them changes the result
    let ops: Vec<Op> = ops.into_iter().filter(|o| o.rng_bytes != Some(0)).collect();
    let plan: Vec<(usize, usize)> = ops.iter().enumerate().flat_map(|(i, o)| (0..o.rng_bytes.unwrap()).map(move |b| (i, b))).collect();
    ctx.section("every-drawn-bit-matters", plan.len(), |i, l| {
        let (o, b) = plan[i];
        let op = &ops[o];
        let run = op.run;
        for s in 0..if op.slow { 1 } else { ctx.pick(1u64, 4) } {
            let mut base = rng::bytes(s + 500, op.rng_bytes.unwrap());
            // keep scalars in range whatever bit is flipped
            if op.name.starts_with('p') || op.name.contains("generate") {
                base[0] = 0x35;
            }
            let go = |d: &[u8]| rng::with(State::new(Src::BytesThen(d.to_vec(), 9)), || run(s)).0;
            let r0 = go(&base);
            l.check(r0.is_ok(), || format!("{}: {r0:?}", op.name));
            for bit in 0..8 {
                // X25519 clamps these away
                let clamped = op.name == "x25519" && ((b == 0 && bit < 3) || (b == 31 && bit >= 6));
                // as does a static key, if it chooses to clamp before export
                let clampable = op.name.starts_with("x25519") && ((b == 0 && bit < 3) || (b == 31 && bit >= 6));
                let mut d = base.clone();
                d[b] ^= 1 << bit;
                let r = go(&d);
                l.t(1);
                if let Ok(v) = &r {
                    l.s(v);
                }
                if clamped {
                    l.check(r == r0, || format!("{}: clamped bit changes the result", op.name));
                } else if !clampable {
                    l.check(r.is_ok() && r != r0, || format!("{}: bit {bit} of drawn byte {b} does not influence the result", op.name));
                }
            }
        }
    });
}

/// rejection sampling: every history of out-of-range candidates
fn candidates<const N: usize, T: Nist<N>>(ctx: &Ctx, name: &str, gens: &[(&str, fn() -> Result<Vec<u8>, String>)], n_be: &[u8]) {
    let len = n_be.len();
    let add = |x: &[u8], v: i32| {
        let mut o = x.to_vec();
        let mut c = v;
        for b in o.iter_mut().rev() {
            let t = *b as i32 + c;
            *b = t.rem_euclid(256) as u8;
            c = t.div_euclid(256);
        }
        o
    };
    let zero = vec![0u8; len];
    let bad = [zero.clone(), n_be.to_vec(), add(n_be, 1), vec![0xff; len], add(n_be, 5)];
    let good = [add(&zero, 1), add(&zero, 2), add(n_be, -1), add(n_be, -2), {
        let mut x = zero.clone();
        x[0] = 0x80;
        x
    }];
    let pubs: Vec<Vec<u8>> = good.iter().map(|g| T::c().enc(&T::c().mul_g(&mc::mont::from_be::<N>(g)))).collect();
    // histories of up to `depth` arbitrary candidates, then an end
    let depth = ctx.pick(3usize, 5);
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < hist.len() {
        if hist[at].len() < depth {
            for k in 0..bad.len() {
                let mut h = hist[at].clone();
                h.push(k);
                hist.push(h);
            }
        }
        at += 1;
    }
    for k in 0..bad.len() {
        for r in [depth + 1, 10, 31, 32, 62, 63, 64, 65, 100, 300] {
            hist.push(vec![k; r]);
        }
    }
    let ends = good.len() + 2;
    ctx.section(&format!("candidates-{name}"), hist.len() * gens.len(), |i, l| {
        let (h, g) = (&hist[i / gens.len()], &gens[i % gens.len()]);
        for end in 0..ends {
            let mut d: Vec<u8> = h.iter().flat_map(|k| bad[*k].clone()).collect();
            let mut st = State::new(Src::Const(0));
            let want = if end < good.len() {
                d.extend(&good[end]);
                st.src = Src::BytesThenConst(d, 0);
                Some(&good[end])
            } else if end == good.len() {
                // the source fails for good after the bad candidates
                st.src = Src::Bytes(d);
                None
            } else {
                // fails once, then would deliver a good one
                d.extend(&good[0]);
                st.src = Src::BytesThenConst(d, 0);
                st.fail_at = Some(h.len());
                st.fail_sticky = false;
                None
            };
            st.max_calls = 1000;
            let (r, st) = rng::with(st, || no_panic(g.1));
            l.t(st.calls.len() as u64);
            l.s(format!("{name}{h:?}{end}").as_bytes());
            match (r, want) {
                (Err(p), _) => {
                    // neither an error nor a key after a long streak of bad candidates
                    l.check(false, || format!("{} {}: panic or no end: {p}", name, g.0));
                }
                (Ok(Err(_)), None) => {}
                (Ok(Ok(k)), None) => {
                    l.check(false, || format!("{name} {}: produced key {} although the source failed after {} out-of-range candidates", g.0, hex(&k), h.len()));
                }
                (Ok(Ok(k)), Some(w)) => {
                    let eq = if k[0] == 4 && k.len() == 2 * len + 1 { k == pubs[end] } else { &k == w };
                    l.check(eq, || format!("{name} {}: key {} is not the first in-range candidate {} (after {} out-of-range ones)", g.0, hex(&k), hex(w), h.len()));
                }
                (Ok(Err(e)), Some(_)) => {
                    // giving up is an error: fine after a streak no sound source produces
                    l.check(h.len() > 2, || format!("{name} {}: {e} after only {} out-of-range candidates", g.0, h.len()));
                }
            }
        }
    });
}

fn fill(ctx: &Ctx) {
    let n = ctx.pick(1100, 5000);
    ctx.section("random-fill-lengths", n, |i, l| {
        for pre in [0u8, 0xa5] {
            let mut b = vec![pre; i + 16];
            let (r, st) = rng::with(State::new(Src::Stream(i as u64)), || graviola::random::fill(&mut b[8..i + 8]));
            l.t(1);
            l.check(r.is_ok(), || format!("fill({i}) failed: {r:?}"));
            // the bytes delivered are exactly the source's
            l.check(st.out.len() >= i && st.out[..i] == b[8..i + 8], || format!("fill({i}): output is not what the source delivered"));
            l.check(b[..8] == [pre; 8] && b[i + 8..] == [pre; 8], || format!("fill({i}): wrote outside its buffer"));
            for k in 0..st.calls.len() {
                let mut s2 = State::new(Src::Stream(i as u64));
                s2.fail_at = Some(k);
                s2.fail_sticky = pre == 0;
                let r = rng::with(s2, || graviola::random::fill(&mut b)).0;
                l.t(1);
                l.check(r.is_err(), || format!("fill({i}): request {k} failed but Ok returned"));
            }
        }
    });
}

/// RSA: fail every request of whole generations
fn rsa_generation(ctx: &Ctx) {
    let gen2048 = ops::all().into_iter().find(|o| o.name == "rsa2048-generate").unwrap();
    // the fastest of the first few sources, so that every request can be failed
    let mut best = (0u64, usize::MAX);
    let counts: std::sync::Mutex<Vec<(u64, usize)>> = Default::default();
    std::thread::scope(|sc| {
        for t in 0..8u64 {
            let counts = &counts;
            sc.spawn(move || {
                for s in (t..ctx.pick(24, 24)).step_by(8) {
                    let (_, st) = rng::with(State::new(Src::Stream(s + 1000)), || no_panic(|| (gen2048.run)(0)));
                    counts.lock().unwrap().push((s + 1000, st.calls.len()));
                }
            });
        }
    });
    let mut c = counts.into_inner().unwrap();
    c.sort();
    for (s, n) in c {
        if n < best.1 {
            best = (s, n);
        }
    }
    let (s, n) = best;
    ctx.section("rsa-generation-fails", n * 2, |i, l| {
        failing(l, &gen2048, 0, Src::Stream(s), i / 2, i % 2 == 0, (i % FILLS as usize) as u8);
    });
    // constant sources never yield a key
    ctx.section("constant-source", 256 * 9, |i, l| {
        let v = (i / 9) as u8;
        let mut st = State::new(Src::Const(v));
        st.max_calls = 3000;
        let g: (&str, fn() -> Result<Vec<u8>, String>) = GENS[i % 9];
        // the RSA generator may search forever on a constant source (no
        // candidate is prime): C15 covers it.
        let (r, st) = rng::with(st, || no_panic(g.1));
        l.t(1);
        match r {
            Err(p) => {
                l.check(false, || format!("{}: {p}", g.0));
            }
            Ok(Ok(k)) => {
                // a key made only of source bytes
                l.check(!st.out.is_empty(), || format!("{}: key {} without drawing randomness", g.0, hex(&k)));
                l.check(k.iter().all(|b| *b == v), || format!("{}: key {} from a constant source of {v:02x}", g.0, hex(&k)));
            }
            Ok(Err(_)) => {
                l.check(v == 0 || v == 0xff, || format!("{}: refused the in-range candidate {v:02x}…", g.0));
            }
        }
    });
}

fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
type G = (&'static str, fn() -> Result<Vec<u8>, String>);
fn sec1_scalar(b: &[u8], n: usize) -> Vec<u8> {
    // SEQUENCE { INTEGER 1, OCTET STRING key, ...
    let o = if b[1] & 0x80 != 0 { 2 + (b[1] & 0x7f) as usize } else { 2 };
    b[o + 5..o + 5 + n].to_vec()
}
const P256_GENS: &[G] = &[
    ("StaticPrivateKey::new_random", || p256::StaticPrivateKey::new_random().map(|k| k.as_bytes().to_vec()).map_err(e)),
    ("SigningKey::generate", || {
        let k = ecdsa::SigningKey::<ecdsa::P256>::generate().map_err(e)?;
        let mut b = [0u8; 300];
        Ok(sec1_scalar(k.to_sec1_der(&mut b).map_err(e)?, 32))
    }),
    // ephemeral keys are only visible through their public key
    ("PrivateKey::new_random", || p256::PrivateKey::new_random().map(|k| k.public_key_uncompressed().to_vec()).map_err(e)),
];
const P384_GENS: &[G] = &[
    ("StaticPrivateKey::new_random", || p384::StaticPrivateKey::new_random().map(|k| k.as_bytes().to_vec()).map_err(e)),
    ("SigningKey::generate", || {
        let k = ecdsa::SigningKey::<ecdsa::P384>::generate().map_err(e)?;
        let mut b = [0u8; 300];
        Ok(sec1_scalar(k.to_sec1_der(&mut b).map_err(e)?, 48))
    }),
    ("PrivateKey::new_random", || p384::PrivateKey::new_random().map(|k| k.public_key_uncompressed().to_vec()).map_err(e)),
];
const GENS: &[G] = &[
    P256_GENS[0],
    P256_GENS[1],
    P384_GENS[0],
    P384_GENS[1],
    ("x25519 static", || x25519::StaticPrivateKey::new_random().map(|k| k.as_bytes().to_vec()).map_err(e)),
    ("ed25519", || eddsa::Ed25519SigningKey::generate().map(|k| k.as_seed().to_vec()).map_err(e)),
    ("random::fill", || {
        let mut b = [0u8; 77];
        graviola::random::fill(&mut b).map(|_| b.to_vec()).map_err(e)
    }),
    ("ML-KEM seed", || {
        // z is the last 32 bytes of the encoded key
        mlkem768::DecapKey::generate().map(|k| k.as_bytes()[2400 - 32..].to_vec()).map_err(e)
    }),
    ("RSA-PSS salt", || {
        let k = rsa::SigningKey::from_pkcs8_der(ops::RSA2048).map_err(e)?;
        let mut b = [0u8; 256];
        k.sign_pss_sha256(&mut b, b"m").map_err(e)?;
        let key = mc::rsaref::Key::from_pkcs1(ops::RSA2048_PKCS1).unwrap();
        let em = B::from_be(&b).pow(&key.e, &key.n).be(256);
        let db: Vec<u8> = em[..223].iter().zip(mgf1(H::S256, &em[223..255], 223)).map(|(a, b)| a ^ b).collect();
        Ok(db[223 - 32..].to_vec())
    }),
];

fn main() {
    fw::main("C18", |ctx| {
        ctx.assume("The random source is the getrandom crate's custom back end, scripted per thread; the library reaches entropy through getrandom only, so the operating system back end is outside the boundary.");
        failures(ctx);
        consumption(ctx);
        candidates::<4, P256>(ctx, "p256", P256_GENS, &mc::mont::to_be(&<P256 as Nist<4>>::c().n.m, 32));
        candidates::<6, P384>(ctx, "p384", P384_GENS, &mc::mont::to_be(&<P384 as Nist<6>>::c().n.m, 48));
        fill(ctx);
        rsa_generation(ctx);
    })
}
