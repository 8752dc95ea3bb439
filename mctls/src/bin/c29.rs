//! C29: TLS transcript hashing, HKDF and PRF.
use mc::fw::{self, Ctx, L, no_panic};
use mc::hashref::H;
use mc::rng::bytes;
use mctls::{Spec, specs};
use rustls::SupportedCipherSuite;
use rustls::crypto::hash::{self, Hash, HashAlgorithm};
use rustls::crypto::tls12::Prf;
use rustls::crypto::tls13::{Hkdf, HkdfExpander, OkmBlock};
use rustls::crypto::{ActiveKeyExchange, SharedSecret};

fn hash_of(s: &Spec) -> &'static dyn Hash {
    match s.suite {
        SupportedCipherSuite::Tls13(x) => x.common.hash_provider,
        SupportedCipherSuite::Tls12(x) => x.common.hash_provider,
    }
}
fn h_of(s: &Spec) -> H {
    if s.h384 { H::S384 } else { H::S256 }
}

// ------------------------------------------------------------- hash contexts

/// pieces a context is fed
fn pieces(h: H) -> [usize; 4] {
    [1, h.block() - 1, h.block(), 2 * h.block() + 5]
}
const FORK: usize = 4;
const PEEK: usize = 5;
const DROP: usize = 6;
/// operations on one of the live contexts
const PER: usize = 7;
const LIVE: usize = 3;

/// What can be done next: (context, operation) of `live` contexts.
fn step(l: &mut L, h: H, ctxs: &mut Vec<(Box<dyn hash::Context>, Vec<u8>)>, c: usize, o: usize, hist: &[(usize, usize)]) {
    match o {
        FORK => {
            let n = (ctxs[c].0.fork(), ctxs[c].1.clone());
            ctxs.push(n);
        }
        PEEK => {
            let d = ctxs[c].0.fork_finish();
            let want = h.hash(&ctxs[c].1);
            l.eq(d.as_ref(), &want, || format!("{h:?} fork_finish of context {c} after {hist:?}"));
        }
        DROP => {
            let (x, m) = ctxs.swap_remove(c);
            let d = x.finish();
            let want = h.hash(&m);
            l.eq(d.as_ref(), &want, || format!("{h:?} finish of context {c} after {hist:?}"));
        }
        _ => {
            let n = pieces(h)[o];
            let at = ctxs[c].1.len() as u64;
            // (so that equal lengths do not mean equal contents)
            let b = bytes(at + (hist.len() as u64) * 1000 + c as u64, n);
            ctxs[c].0.update(&b);
            ctxs[c].1.extend(b);
        }
    }
    l.t(1);
}
fn all_finish(l: &mut L, h: H, ctxs: Vec<(Box<dyn hash::Context>, Vec<u8>)>, hist: &[(usize, usize)]) {
    for (i, (x, m)) in ctxs.into_iter().enumerate() {
        let want = h.hash(&m);
        l.eq(x.finish().as_ref(), &want, || format!("{h:?} context {i} of the history {hist:?}"));
    }
}
/// depth-first over every history; contexts are rebuilt by replay, since
/// `fork` itself is under test
fn histories(l: &mut L, p: &dyn Hash, h: H, hist: &mut Vec<(usize, usize)>, depth: usize, live: usize) {
    if l.failed() {
        return;
    }
    // replay
    let mut ctxs: Vec<(Box<dyn hash::Context>, Vec<u8>)> = vec![(p.start(), vec![])];
    for k in 0..hist.len() {
        let (c, o) = hist[k];
        step(l, h, &mut ctxs, c, o, &hist[..k]);
    }
    all_finish(l, h, ctxs, hist);
    if hist.len() == depth {
        return;
    }
    for c in 0..live {
        for o in 0..PER {
            let next = match o {
                FORK if live == LIVE => continue,
                FORK => live + 1,
                DROP => live - 1,
                _ => live,
            };
            hist.push((c, o));
            histories(l, p, h, hist, depth, next);
            hist.pop();
        }
    }
}

fn hashing(ctx: &Ctx) {
    let sp = specs();
    ctx.section("suite-hash", sp.len(), |i, l| {
        let s = &sp[i];
        let p = hash_of(s);
        let want = if s.h384 { HashAlgorithm::SHA384 } else { HashAlgorithm::SHA256 };
        l.check(p.algorithm() == want, || format!("{}: hash is {:?}", s.name, p.algorithm()));
        l.check(p.output_len() == h_of(s).len(), || format!("{}: hash length {}", s.name, p.output_len()));
        l.check(s.suite.suite() == s.id, || format!("{}: suite is {:?}", s.name, s.suite.suite()));
        l.t(3);
    });
    let lens = ctx.pick(700usize, 4200);
    ctx.section("one-shot", 2 * lens, |i, l| {
        let s = &sp[i % 2];
        let m = bytes(i as u64, i / 2);
        let want = h_of(s).hash(&m);
        l.eq(hash_of(s).hash(&m).as_ref(), &want, || format!("{} hash of {} bytes", s.name, m.len()));
        // the same through a context, in two pieces, at a third of the way
        let mut c = hash_of(s).start();
        c.update(&m[..m.len() / 3]);
        let fork = c.fork();
        c.update(&m[m.len() / 3..]);
        l.eq(c.fork_finish().as_ref(), &want, || format!("{} context of {} bytes", s.name, m.len()));
        l.eq(c.finish().as_ref(), &want, || format!("{} context of {} bytes", s.name, m.len()));
        l.eq(fork.finish().as_ref(), &h_of(s).hash(&m[..m.len() / 3]), || format!("{} fork", s.name));
    });
    // the first two operations index the case
    let depth = ctx.pick(6, 7);
    let live = |live: usize, o: usize| match o {
        FORK => live + 1,
        DROP => live - 1,
        _ => live,
    };
    let mut first = vec![];
    for s in 0..2usize {
        for a in 0..PER {
            for c in 0..live(1, a) {
                for b in 0..PER {
                    first.push((s, a, c, b));
                }
            }
        }
    }
    ctx.section("context-histories", first.len(), |i, l| {
        let (s, a, c, b) = first[i];
        l.note(|| format!("{}: every history of {depth} operations that begins with {a} and {b} on context {c}", sp[s].name));
        histories(l, hash_of(&sp[s]), h_of(&sp[s]), &mut vec![(0, a), (c, b)], depth, live(live(1, a), b));
    });
}

// ------------------------------------------------------------- TLS 1.3

fn hkdf_expand(h: H, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let (mut out, mut t) = (vec![], vec![]);
    let mut i = 1u8;
    while out.len() < n {
        t = h.hmac(prk, &[&t[..], info, &[i]].concat());
        out.extend(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    out
}
fn hkdf_of(s: &Spec) -> &'static dyn Hkdf {
    match s.suite {
        SupportedCipherSuite::Tls13(x) => x.hkdf_provider,
        _ => unreachable!(),
    }
}
fn tls13(ctx: &Ctx) {
    let sp: Vec<Spec> = specs().into_iter().filter(|s| s.v13).collect();
    let n = sp.len();
    let expand = |l: &mut L, s: &Spec, e: &dyn HkdfExpander, prk: &[u8], what: &dyn Fn() -> String| {
        let h = h_of(s);
        l.check(e.hash_len() == h.len(), || format!("{}: hash_len {}", what(), e.hash_len()));
        let info = bytes(5, 80);
        for split in [&[][..], &[0], &[80], &[10, 20, 50], &[80, 0], &[1, 63, 16]] {
            let mut parts = vec![];
            let mut at = 0;
            for n in split {
                parts.push(&info[at..at + n]);
                at += n;
            }
            let b = e.expand_block(&parts);
            l.eq(b.as_ref(), &hkdf_expand(h, prk, &info[..at], h.len()), || format!("{}: expand_block of {split:?}", what()));
            for n in [0usize, 1, 12, 16, 32, 33, 48, 49, 64, 97, 255, 255 * h.len()] {
                let mut o = vec![0xa5u8; n];
                let r = e.expand_slice(&parts, &mut o);
                l.check(r.is_ok(), || format!("{}: expand_slice of {n} bytes fails", what()));
                l.eq(&o, &hkdf_expand(h, prk, &info[..at], n), || format!("{}: expand_slice of {n} bytes with {split:?}", what()));
            }
            l.check(e.expand_slice(&parts, &mut vec![0u8; 255 * h.len() + 1]).is_err(), || format!("{}: expand_slice of too much works", what()));
        }
    };
    let lens = ctx.pick(200usize, 1200);
    ctx.section("hkdf-extract", n * lens, |i, l| {
        let s = &sp[i % n];
        let len = i / n;
        let (h, k) = (h_of(s), hkdf_of(s));
        let secret = bytes(i as u64, len);
        let zeros = vec![0u8; h.len()];
        for salt in [None, Some(0), Some(1), Some(h.len()), Some(h.block()), Some(h.block() + 1), Some(len)] {
            let salt = salt.map(|n| bytes(9, n));
            let key = salt.clone().unwrap_or(zeros.clone());
            let what = || format!("{}: HKDF with a salt of {:?} and a secret of {len} bytes", s.name, salt.as_ref().map(|s| s.len()));
            let prk = h.hmac(&key, &secret);
            l.t(1);
            let e = k.extract_from_secret(salt.as_deref(), &secret);
            if len % 50 == 48 {
                expand(l, s, &*e, &prk, &what);
            } else {
                l.eq(e.expand_block(&[b"info"]).as_ref(), &hkdf_expand(h, &prk, b"info", h.len()), what);
            }
            let e = k.extract_from_zero_ikm(salt.as_deref());
            let prk = h.hmac(&key, &zeros);
            l.eq(e.expand_block(&[b"info"]).as_ref(), &hkdf_expand(h, &prk, b"info", h.len()), || format!("{} (zero secret)", what()));
        }
    });
    // several expansions from one key, in any order, do not influence each other
    ctx.section("hkdf-histories", n * 6usize.pow(4), |i, l| {
        let s = &sp[i % n];
        let (h, k) = (h_of(s), hkdf_of(s));
        let secret = bytes(3, 32);
        let prk = h.hmac(&bytes(4, h.len()), &secret);
        let e = k.extract_from_secret(Some(&bytes(4, h.len())), &secret);
        let okm = OkmBlock::new(&bytes(11, h.len()));
        let e2 = k.expander_for_okm(&okm);
        let mut x = i / n;
        for t in 0..4 {
            let info = bytes(t as u64 + 20, 7 + t * 30);
            match x % 6 {
                0 => l.eq(e.expand_block(&[&info]).as_ref(), &hkdf_expand(h, &prk, &info, h.len()), || format!("{} history {i} step {t}", s.name)),
                1 => l.eq(e2.expand_block(&[&info]).as_ref(), &hkdf_expand(h, okm.as_ref(), &info, h.len()), || format!("{} history {i} step {t}", s.name)),
                2 => {
                    let mut o = [0u8; 100];
                    let ok = e.expand_slice(&[&info[..3], &info[3..]], &mut o).is_ok();
                    l.check(ok, || format!("{} history {i} step {t}: fails", s.name)) && l.eq(&o, &hkdf_expand(h, &prk, &info, 100), || format!("{} history {i} step {t}", s.name))
                }
                3 => {
                    let mut o = [0u8; 16];
                    let ok = e2.expand_slice(&[&info], &mut o).is_ok();
                    l.check(ok, || format!("{} history {i} step {t}: fails", s.name)) && l.eq(&o, &hkdf_expand(h, okm.as_ref(), &info, 16), || format!("{} history {i} step {t}", s.name))
                }
                4 => l.eq(k.hmac_sign(&okm, &info).as_ref(), &h.hmac(okm.as_ref(), &info), || format!("{} history {i} step {t}", s.name)),
                _ => l.check(e.expand_slice(&[&info], &mut vec![0u8; 255 * h.len() + 1]).is_err(), || format!("{} history {i} step {t}: too much", s.name)),
            };
            x /= 6;
        }
    });
}

// ------------------------------------------------------------- TLS 1.2

fn prf(h: H, secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let ls = [label, seed].concat();
    let mut a = h.hmac(secret, &ls);
    let mut out = vec![];
    while out.len() < n {
        out.extend(h.hmac(secret, &[&a[..], &ls].concat()));
        a = h.hmac(secret, &a);
    }
    out.truncate(n);
    out
}
fn prf_of(s: &Spec) -> &'static dyn Prf {
    match s.suite {
        SupportedCipherSuite::Tls12(x) => x.prf_provider,
        _ => unreachable!(),
    }
}
/// a key exchange whose secret is known
struct Fixed(Vec<u8>, bool);
impl ActiveKeyExchange for Fixed {
    fn complete(self: Box<Self>, peer: &[u8]) -> Result<SharedSecret, rustls::Error> {
        if self.1 && peer == b"peer" { Ok(SharedSecret::from(&self.0[..])) } else { Err(rustls::PeerMisbehaved::InvalidKeyShare.into()) }
    }
    fn pub_key(&self) -> &[u8] {
        b"share"
    }
    fn group(&self) -> rustls::NamedGroup {
        rustls::NamedGroup::X25519
    }
}
fn tls12(ctx: &Ctx) {
    let sp: Vec<Spec> = specs().into_iter().filter(|s| !s.v13).collect();
    let n = sp.len();
    let lens = ctx.pick(160usize, 600);
    ctx.section("prf", n * lens, |i, l| {
        let s = &sp[i % n];
        let (h, p) = (h_of(s), prf_of(s));
        let len = i / n + 1;
        for (slen, llen, out) in [(len, 13, 48), (48, len, 12), (48, 13, len), (len, len, len), (48, 1, 104), (1, 1, 1), (len % 140 + 1, 15, 500)] {
            let (secret, label, seed) = (bytes(len as u64, slen), bytes(len as u64 + 1, llen), bytes(len as u64 + 2, 64));
            let want = prf(h, &secret, &label, &seed, out);
            let mut o = vec![0u8; out];
            p.for_secret(&mut o, &secret, &label, &seed);
            l.eq(&o, &want, || format!("{}: PRF of a {slen}-byte secret and a {llen}-byte label to {out} bytes", s.name));
            let mut o = [0u8; 48];
            let r = p.for_key_exchange(&mut o, Box::new(Fixed(secret.clone(), true)), b"peer", &label, &seed);
            l.check(r.is_ok(), || format!("{}: {r:?}", s.name));
            l.eq(&o, &prf(h, &secret, &label, &seed, 48), || format!("{}: master secret from a {slen}-byte secret", s.name));
            let r = p.for_key_exchange(&mut o, Box::new(Fixed(secret, false)), b"peer", &label, &seed);
            l.check(r.is_err(), || format!("{}: a failed key exchange gives a master secret", s.name));
        }
    });
}

fn explore(ctx: &Ctx) {
    let r = no_panic(|| ());
    assert!(r.is_ok());
    hashing(ctx);
    tls13(ctx);
    tls12(ctx);
}

fn main() {
    fw::main("C29", explore);
}
