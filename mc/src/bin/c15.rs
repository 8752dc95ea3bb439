//! C15: RSA key generation, under every scripted behaviour of the random source.
use graviola::signing::rsa::{KeySize, SigningKey, VerifyingKey};
use mc::big::B;
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::hashref::H;
use mc::rng::{self, Src, State};
use mc::rsaref::{self, Key};

/// per prime size: fixture numbers by kind
#[derive(Default, Clone)]
struct Fx {
    bits: usize,
    primes: Vec<B>,
    emod: Vec<B>,
    comp: Vec<B>,
    pseudo: Vec<(B, Vec<B>)>,
    fermat: Vec<(B, Vec<B>)>,
}
fn hexb(s: &str) -> B {
    B::from_be(&fw::unhex(&format!("{}{s}", if s.len() % 2 == 1 { "0" } else { "" })))
}
fn load() -> Vec<Fx> {
    let mut v: Vec<Fx> = vec![];
    for l in include_str!("../../data/rsa_keygen.txt").lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let bits: usize = w[1].parse().unwrap();
        let f = match v.iter_mut().position(|f| f.bits == bits) {
            Some(i) => &mut v[i],
            None => {
                v.push(Fx { bits, ..Fx::default() });
                v.last_mut().unwrap()
            }
        };
        let x: Vec<B> = w[2..].iter().map(|s| hexb(s)).collect();
        match w[0] {
            "prime" => f.primes.push(x[0].clone()),
            "emod" => f.emod.push(x[0].clone()),
            "comp" => f.comp.push(x[0].clone()),
            "pseudo" => f.pseudo.push((x[0].clone(), x[1..].to_vec())),
            "fermat" => f.fermat.push((x[0].clone(), x[1..].to_vec())),
            k => panic!("{k}"),
        }
    }
    v.sort_by_key(|f| f.bits);
    v
}
fn size_of(prime_bits: usize) -> KeySize {
    KeySize::try_from(prime_bits * 2).unwrap()
}
/// rounds FIPS 186-5 table B.1 requires for a prime of this size (the sizes it
/// does not list need no more)
fn rounds(prime_bits: usize) -> usize {
    if prime_bits == 1024 { 5 } else { 4 }
}
/// witnesses drawn per accepted candidate by the current implementation: only
/// used to lay out scripts, never to judge
fn drawn(prime_bits: usize) -> usize {
    rounds(prime_bits) + 1
}

/// Generate under the script `items` (requests of the prime's length) followed
/// by a stream; judge the outcome.  Returns the key's primes.
fn run(l: &mut L, fx: &Fx, what: &str, script: Vec<u8>, tail: Option<u64>, setup: impl FnOnce(&mut State)) -> Option<(B, B)> {
    let src = match tail {
        Some(s) => Src::BytesThen(script, s),
        None => Src::Bytes(script),
    };
    let mut st = State::new(src);
    st.max_calls = 60_000;
    setup(&mut st);
    let size = size_of(fx.bits);
    let (res, st) = rng::with(st, || no_panic(|| SigningKey::generate(size)));
    l.t(st.calls.len() as u64 + 1);
    let res = match res {
        Ok(r) => r,
        Err(e) => {
            l.check(false, || format!("{what}: key generation panicked or kept asking a dead random source: {e}"));
            return None;
        }
    };
    let failed_source = st.fail_at.is_some_and(|f| st.calls.len() > f) || st.pos < st.calls.iter().sum::<usize>();
    let key = match res {
        Ok(k) => k,
        Err(_) => {
            l.s(&[b"err", what.as_bytes()].concat());
            return None;
        }
    };
    if failed_source {
        l.check(false, || format!("{what}: a key was returned although the random source failed"));
        return None;
    }
    judge(l, fx, what, &key, &st)
}

fn judge(l: &mut L, fx: &Fx, what: &str, key: &SigningKey, st: &State) -> Option<(B, B)> {
    let mut buf = [0u8; 8192];
    let der = match key.to_pkcs1_der(&mut buf) {
        Ok(d) => d.to_vec(),
        Err(e) => {
            l.check(false, || format!("{what}: generated key does not encode: {e:?}"));
            return None;
        }
    };
    l.s(&der);
    let Some(k) = Key::from_pkcs1(&der) else {
        l.check(false, || format!("{what}: generated key encodes badly: {}", hex(&der)));
        return None;
    };
    l.check(k.n.bits() == 2 * fx.bits, || format!("{what}: modulus has {} bits", k.n.bits()));
    l.check(key.modulus_len_bytes() == fx.bits / 4, || format!("{what}: modulus_len_bytes {}", key.modulus_len_bytes()));
    l.check(k.p.bits() == fx.bits && k.q.bits() == fx.bits, || format!("{what}: primes of {} and {} bits", k.p.bits(), k.q.bits()));
    l.check(k.p != k.q, || format!("{what}: p = q"));
    l.check(k.e == B::u(65537), || format!("{what}: public exponent {}", hex(&k.e.bytes())));
    l.check(k.consistent(), || format!("{what}: private components are inconsistent: {}", hex(&der)));
    // d is an inverse of e for both primes
    let one = B::u(1);
    for p in [&k.p, &k.q] {
        l.check(k.e.mul(&k.d).rem(&p.sub(&one)) == one, || format!("{what}: d is not an inverse of e: {}", hex(&der)));
        let known = fx.primes.iter().chain(&fx.emod).any(|x| x == p);
        l.check(known || p.is_prime(), || format!("{what}: factor is composite: {}", hex(&p.bytes())));
    }
    // each factor is one of the candidates drawn, up to the forced bits
    let len = fx.bits / 8;
    let norm = |b: &[u8]| {
        let mut b = b.to_vec();
        b[0] |= 0xc0;
        b[len - 1] |= 1;
        b
    };
    let mut at = 0;
    let mut drawn = vec![];
    for c in &st.calls {
        if *c == len && at + c <= st.out.len() {
            drawn.push(norm(&st.out[at..at + c]));
        }
        at += c;
    }
    for p in [&k.p, &k.q] {
        if p.bits() == fx.bits {
            let b = norm(&p.be(len));
            l.check(drawn.contains(&b), || format!("{what}: factor was not drawn from the random source"));
        }
    }
    // use it
    let vk = key.public_key();
    let mut sig = [0u8; 1024];
    let mut sig2 = [0u8; 1024];
    let s = no_panic(|| key.sign_pkcs1_sha256(&mut sig, b"generated").map(|x| x.to_vec()));
    match s {
        Ok(Ok(s)) => {
            l.check(vk.verify_pkcs1_sha256(&s, b"generated").is_ok(), || format!("{what}: generated key's signature does not verify"));
            if fx.bits == 1024 {
                let em = rsaref::pkcs1_em(H::S256, b"generated", k.k());
                let want = k.private(&B::from_be(&em)).be(k.k());
                l.check(s == want, || format!("{what}: generated key signs wrongly"));
            }
            // and after a round trip through both encodings
            let re = SigningKey::from_pkcs1_der(&der);
            let mut b8 = [0u8; 8192];
            let re8 = key.to_pkcs8_der(&mut b8).and_then(|d| SigningKey::from_pkcs8_der(d));
            for r in [re, re8] {
                match r {
                    Ok(r) => {
                        let t = r.sign_pkcs1_sha256(&mut sig2, b"generated").map(|x| x.to_vec());
                        l.check(t.as_deref() == Ok(&s[..]), || format!("{what}: re-imported key signs differently"));
                        let mut b = [0u8; 8192];
                        l.check(r.to_pkcs1_der(&mut b) == Ok(&der[..]), || format!("{what}: re-imported key encodes differently"));
                    }
                    Err(e) => {
                        l.check(false, || format!("{what}: generated key does not re-import: {e:?}"));
                    }
                }
            }
            let mut pb = [0u8; 2048];
            match vk.to_pkcs1_der(&mut pb).and_then(|d| VerifyingKey::from_pkcs1_der(d)) {
                Ok(v) => {
                    l.check(v.verify_pkcs1_sha256(&s, b"generated").is_ok(), || format!("{what}: re-imported public key does not verify"));
                }
                Err(e) => {
                    l.check(false, || format!("{what}: public key does not re-import: {e:?}"));
                }
            }
        }
        other => {
            l.check(false, || format!("{what}: generated key does not sign: {other:?}"));
        }
    }
    Some((k.p, k.q))
}

/// a candidate followed by enough good witnesses for the current implementation
fn cand(fx: &Fx, c: &B, seed: u64) -> Vec<u8> {
    let len = fx.bits / 8;
    let mut v = c.be(len);
    for i in 0..drawn(fx.bits) {
        let mut w = rng::bytes(seed * 31 + i as u64, len);
        w[0] &= 0x7f; // always below the candidate
        v.extend(w);
    }
    v
}
/// a witness that refutes this composite
fn refuter(fx: &Fx, w: &B, seed: u64) -> Vec<u8> {
    (0..)
        .map(|t| {
            let mut b = rng::bytes(seed * 131 + t, fx.bits / 8);
            b[0] &= 0x7f;
            b
        })
        .find(|b| !w.passes_base(&B::from_be(b)))
        .unwrap()
}
fn only(fx: &Fx, c: &B) -> Vec<u8> {
    c.be(fx.bits / 8)
}

fn want_pair(l: &mut L, what: &str, got: &Option<(B, B)>, a: &B, b: &B) {
    let (hi, lo) = if a.lt(b) { (b, a) } else { (a, b) };
    l.note(|| format!("{what}: key from the two supplied primes"));
    if let Some((p, q)) = got {
        let same = (p == hi && q == lo) || (p == lo && q == hi);
        l.s(&[same as u8]);
    }
}

fn main() {
    fw::main("C15", explore);
}
fn explore(ctx: &Ctx) {
    let fxs = load();
    ctx.assume("primality of generated factors is judged by an independent Miller-Rabin test with the first primes as bases; fixture primes were produced the same way offline");
    // every size name
    ctx.section("key-sizes", ctx.pick(40_000, 400_000), |i, l| {
        let got = KeySize::try_from(i);
        l.t(1);
        l.check(got.is_ok() == [2048, 3072, 4096, 6144, 8192].contains(&i), || format!("KeySize::try_from({i}) = {got:?}"));
    });
    // every ordered pair of fixture primes
    for fx in &fxs {
        let n = fx.primes.len();
        let pairs: Vec<(usize, usize)> = if ctx.quick() && fx.bits > 1024 {
            // each prime in each position, against the extremes
            let mut v: Vec<(usize, usize)> = (0..n).flat_map(|i| [(i, (i + 1) % n), ((i + 1) % n, i)]).collect();
            v.extend([(0, 0), (1, 1)]);
            if fx.bits > 2048 {
                v.truncate(6);
            }
            v
        } else {
            (0..n * n).map(|i| (i / n, i % n)).collect()
        };
        ctx.section(&format!("prime-pairs-{}", fx.bits * 2), pairs.len(), |i, l| {
            let (a, b) = pairs[i];
            let what = format!("primes {a},{b}");
            let s = [cand(fx, &fx.primes[a], 1), cand(fx, &fx.primes[b], 2)].concat();
            // nothing after the script: equal primes must end in an error
            let got = run(l, fx, &what, s, None, |_| {});
            if a == b {
                l.check(got.is_none() || l.failed(), || format!("{what}: a key came out of one prime"));
            } else {
                want_pair(l, &what, &got, &fx.primes[a], &fx.primes[b]);
            }
        });
    }
    // the same prime twice, in every variation of the bits key generation forces
    for fx in fxs.iter().filter(|f| f.bits <= ctx.pick(2048, 4096)) {
        ctx.section(&format!("same-prime-{}", fx.bits * 2), 64.min(ctx.pick(16, 64)), |i, l| {
            let p = &fx.primes[2 + i % 2];
            let mut v = cand(fx, p, 3);
            let mut w = cand(fx, p, 4);
            let len = fx.bits / 8;
            for (s, x) in [(i >> 1, &mut v), (i >> 3, &mut w)] {
                if s & 1 != 0 {
                    x[0] &= 0x3f;
                }
                if s & 2 != 0 {
                    x[len - 1] &= 0xfe;
                }
            }
            let got = run(l, fx, "same prime twice", [v, w].concat(), None, |_| {});
            l.check(got.is_none() || l.failed(), || "a key came out of one prime".into());
        });
    }
    // crafted composites among the candidates; every witness is honest
    for fx in &fxs {
        let mut comps: Vec<&B> = fx.comp.iter().collect();
        comps.extend(fx.pseudo.iter().map(|p| &p.0));
        comps.push(&fx.primes[0]); // control
        let reps = ctx.pick(if fx.bits == 1024 { 6 } else if fx.bits <= 2048 { 2 } else { 1 }, 6);
        ctx.section(&format!("composites-{}", fx.bits * 2), comps.len() * 2 * reps, |i, l| {
            let c = comps[i % comps.len()];
            let first = (i / comps.len()) % 2 == 0;
            let seed = (i / comps.len() / 2) as u64;
            // a composite is refuted by its first honest witness
            let comp = if c == &fx.primes[0] { cand(fx, c, 9) } else { [only(fx, c), refuter(fx, c, 77 + seed)].concat() };
            let p = cand(fx, &fx.primes[2], 5);
            let q = cand(fx, &fx.primes[3], 6);
            let s = if first { [comp, p, q].concat() } else { [p, comp, q].concat() };
            run(l, fx, &format!("composite candidate {}", i % comps.len()), s, None, |_| {});
        });
    }
    // strong liars as the first witnesses: fewer than the required number of
    // rounds must not be enough
    for fx in &fxs {
        let r = rounds(fx.bits);
        let np = fx.pseudo.len();
        let reps = ctx.pick(if fx.bits <= 2048 { 8 } else { 2 }, 8);
        ctx.section(&format!("strong-liars-{}", fx.bits * 2), r * reps * np, |i, l| {
            let (w, liars) = &fx.pseudo[i % np];
            let i = i / np;
            let n = liars.len();
            let k = i % r; // 0..r-1 liars, then honest witnesses
            let rot = i / r;
            let mut s = only(fx, w);
            for j in 0..k {
                s.extend(liars[(j + rot) % n].be(fx.bits / 8));
            }
            for j in 0..4 {
                s.extend(refuter(fx, w, 900 + j));
            }
            // realign on a whole number of honest candidates
            s.extend(cand(fx, &fx.primes[2], 7));
            s.extend(cand(fx, &fx.primes[3], 8));
            let tail = if fx.bits == 1024 { Some(5) } else { None };
            run(l, fx, &format!("pseudoprime with {k} lying witnesses"), s, tail, |_| {});
        });
        // Fermat liars that are not strong liars: whatever else is drawn, in
        // any number
        let nf = fx.fermat.len();
        let n = fx.fermat.iter().map(|f| f.1.len()).min().unwrap();
        let reps = ctx.pick(if fx.bits <= 2048 { n } else { 2 }, n);
        ctx.section(&format!("fermat-liars-{}", fx.bits * 2), nf * reps * (r + 1), |i, l| {
            let (w, f) = &fx.fermat[i % nf];
            let strong = fx.pseudo.iter().find(|p| &p.0 == w);
            let k = i / nf % (r + 1);
            let rot = i / nf / (r + 1);
            let mut s = only(fx, w);
            // k strong liars (too few to be accepted), all others Fermat liars
            let k = if strong.is_some() { k.min(r - 1) } else { 0 };
            for j in 0..k {
                s.extend(strong.unwrap().1[(j + rot) % n].be(fx.bits / 8));
            }
            for j in k..drawn(fx.bits) + 2 {
                s.extend(f[(j + rot) % f.len()].be(fx.bits / 8));
            }
            s.extend(cand(fx, &fx.primes[2], 7));
            s.extend(cand(fx, &fx.primes[3], 8));
            let tail = if fx.bits == 1024 { Some(6) } else { None };
            run(l, fx, &format!("pseudoprime with {k} strong liars, then Fermat liars"), s, tail, |_| {});
        });
        // bases outside 2..w-2
        ctx.section(&format!("bad-bases-{}", fx.bits * 2), 9 * nf, |i, l| {
            let (w, f) = &fx.fermat[i % nf];
            let j = i / nf;
            let one = B::u(1);
            let out: Vec<B> = vec![B::zero(), one.clone(), w.sub(&one), w.clone(), w.add(&one), B::pow2(fx.bits).sub(&one)];
            let mut s = only(fx, w);
            for t in 0..drawn(fx.bits) + 3 {
                let b = if j < out.len() { &out[j] } else { &out[(j * 7 + t * (j - out.len() + 1)) % out.len()] };
                s.extend(b.be(fx.bits / 8));
            }
            s.extend(f[0].be(fx.bits / 8));
            s.extend(cand(fx, &fx.primes[2], 7));
            s.extend(cand(fx, &fx.primes[3], 8));
            run(l, fx, "pseudoprime with trivial bases", s, None, |_| {});
        });
    }
    // all sequences of candidate kinds up to a depth
    for fx in fxs.iter().filter(|f| f.bits == 1024 || !ctx.quick()) {
        let (len, b) = (fx.bits / 8, fx.bits);
        let mut alpha: Vec<Vec<u8>> = vec![
            cand(fx, &fx.primes[0], 11),
            cand(fx, &fx.primes[2], 12),
            cand(fx, &fx.primes[3], 13),
            cand(fx, &fx.emod[0], 14),
            [only(fx, &fx.comp[0]), refuter(fx, &fx.comp[0], 1)].concat(),
            only(fx, &fx.comp[2]), // multiple of 3: refuted without a witness
        ];
        let mut liar = only(fx, &fx.pseudo[0].0);
        for j in 0..rounds(b) - 1 {
            liar.extend(fx.pseudo[0].1[j].be(len));
        }
        liar.extend(fx.fermat[0].1[0].be(len));
        alpha.push(liar);
        let a = alpha.len();
        let depth = if fx.bits == 1024 { ctx.pick(3, 4) } else { 2 };
        let total: usize = (1..=depth).map(|d| a.pow(d as u32)).sum();
        // each also followed by honest random bytes for ever, where generation
        // has to end (the number of requests is bounded by `run`)
        let tails = if b == 1024 { 2 } else { 1 };
        ctx.section(&format!("candidate-sequences-{}", b * 2), total * tails, |mut i, l| {
            let tail = (i >= total).then_some(70_000 + i as u64);
            i %= total;
            let mut d = 1;
            while i >= a.pow(d as u32) {
                i -= a.pow(d as u32);
                d += 1;
            }
            let mut s = vec![];
            let mut names = vec![];
            for _ in 0..d {
                names.push(i % a);
                s.extend(&alpha[i % a]);
                i /= a;
            }
            run(l, fx, &format!("candidate kinds {names:?}"), s, tail, |_| {});
        });
    }
    // failure at every request
    for fx in fxs.iter().filter(|f| f.bits <= ctx.pick(2048, 4096)) {
        let per = drawn(fx.bits) + 1;
        ctx.section(&format!("source-failures-{}", fx.bits * 2), (2 * per + 1) * 2, |i, l| {
            let at = i / 2;
            let s = [cand(fx, &fx.primes[2], 1), cand(fx, &fx.primes[3], 2), cand(fx, &fx.primes[0], 3)].concat();
            let got = run(l, fx, &format!("failure of request {at}"), s, Some(3), |st| {
                st.fail_at = Some(at);
                st.fail_sticky = i % 2 == 0;
            });
            l.s(&[got.is_some() as u8]);
        });
    }
    // constant sources: no output may come of them
    ctx.section("constant-sources", ctx.pick(4, 16), |i, l| {
        let c = [0u8, 0xff, 0x55, 0xaa, 1, 0x80, 0x0f, 0xf0, 3, 0xc1, 7, 0x3f, 0x7f, 0xfe, 0x11, 0xee][i];
        let st = {
            let mut s = State::new(Src::Const(c));
            s.max_calls = 300;
            s
        };
        // a constant candidate that is composite repeats for ever (the number
        // of requests is bounded here, by panicking inside the source)
        let (r, st) = rng::with(st, || no_panic(|| SigningKey::generate(KeySize::Rsa2048)));
        l.t(st.calls.len() as u64);
        l.check(!matches!(r, Ok(Ok(_))), || format!("a key came out of a random source stuck at {c:#x}"));
    });
    // honest streams
    for fx in fxs.iter() {
        let n = match fx.bits {
            1024 => ctx.pick(16, 400),
            1536 => ctx.pick(2, 60),
            2048 => ctx.pick(1, 24),
            _ => ctx.pick(0, 8),
        };
        if n == 0 {
            continue;
        }
        ctx.section(&format!("streams-{}", fx.bits * 2), n, |i, l| {
            let got = run(l, fx, &format!("stream {i}"), vec![], Some(40_000 + i as u64), |_| {});
            l.check(got.is_some() || l.failed(), || format!("stream {i}: no key"));
        });
    }
}
