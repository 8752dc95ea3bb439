//! C14: RSA signing returns the right signature or an error.
use graviola::signing::rsa::SigningKey;
use mc::big::B;
use mc::fw::{self, Ctx, L};
use mc::hashref::H;
use mc::rng::{self, Src, State};
use mc::rsaref::*;

/// Sign; the outcome is judged against the public half (n, e) of the key.
/// `must`: the key is sound, so signing has to succeed.
fn judge(l: &mut L, sk: &SigningKey, k: &Key, h: H, pss: bool, m: &[u8], seed: u64, must: bool, what: &dyn Fn() -> String) {
    let kl = k.k();
    let mut buf = vec![0xa5u8; kl + 9];
    let (got, st) = rng::with(State::new(Src::Stream(seed)), || fw::no_panic(|| lib_sign(sk, h, pss, m, &mut buf).map(|s| s.to_vec())));
    l.t(1);
    match got {
        Ok(Ok(s)) => {
            l.s(&s);
            let ok = verify(&k.n, &k.e, h, pss, m, &s);
            l.check(ok, || format!("{}: {h:?} pss={pss}: released a wrong signature ({} bytes, modulus {} bits) {}", what(), s.len(), k.n.bits(), fw::hex(&s)));
            l.check(buf[kl..].iter().all(|b| *b == 0xa5) && buf[..s.len().min(kl)] == s[..s.len().min(kl)], || format!("{}: buffer", what()));
            if must {
                let want = if pss {
                    l.check(st.out.len() == h.len(), || format!("{}: drew {} random bytes", what(), st.out.len()));
                    pss_em(h, m, &st.out, k.n.bits())
                } else {
                    l.check(st.out.is_empty(), || format!("{}: drew randomness", what()));
                    pkcs1_em(h, m, kl)
                };
                let want = k.private(&B::from_be(&want)).be(kl);
                l.check(s == want, || format!("{}: not the expected signature", what()));
            }
        }
        Ok(Err(e)) => {
            l.s64(seed);
            l.check(!must, || format!("{}: {h:?} pss={pss} n {} p {} q {} bits: {e:?}", what(), k.n.bits(), k.p.bits(), k.q.bits()));
            if !must {
                // nothing of a refused signature may be left behind either
                let v = B::from_be(&buf[..kl]);
                let leaked = buf[..kl].iter().any(|b| *b != 0xa5) && !v.is_zero() && !verify(&k.n, &k.e, h, pss, m, &buf[..kl]);
                l.check(!leaked, || format!("{}: faulty signature left in the buffer after an error", what()));
            }
        }
        Err(p) => {
            l.check(false, || format!("{}: panic {p}", what()));
        }
    }
}
fn load(k: &Key) -> Result<Result<SigningKey, graviola::Error>, String> {
    fw::no_panic(|| SigningKey::from_pkcs1_der(&k.pkcs1()))
}

fn run(cx: &Ctx) {
    let mut keys: Vec<Key> = fixtures().into_iter().chain(samples()).collect();
    let nf = keys.len();
    for i in 0..nf {
        let k = Key::from_primes(&keys[i].q, &keys[i].p, &keys[i].e).unwrap();
        keys.push(k);
    }
    let balanced = |k: &Key| k.p.bits().abs_diff(k.q.bits()) <= 1;
    let algs: Vec<(H, bool)> = HS.iter().flat_map(|h| [(*h, false), (*h, true)]).collect();
    let reps = cx.pick(3, 40);
    cx.section("keys", keys.len() * 6 * reps, |i, l| {
        let k = &keys[i % keys.len()];
        let (h, pss) = algs[i / keys.len() % 6];
        if cx.quick() && k.n.bits() > 4100 && i / keys.len() > 5 {
            return;
        }
        match load(k) {
            Ok(Ok(sk)) => {
                l.check(sk.modulus_len_bytes() == k.k(), || "modulus_len_bytes".into());
                judge(l, &sk, k, h, pss, &rng::bytes(i as u64, i % 77), i as u64, balanced(k), &|| "sound key".into());
            }
            e => {
                l.check(false, || format!("sound key refused: {:?}", e.map(|x| x.map(|_| ()))));
            }
        }
        l.note(|| format!("p {} q {} bits e {:?} {h:?} pss={pss}", k.p.bits(), k.q.bits(), k.e.0));
    });
    // primes next to limb patterns, all ordered pairs of one size
    let pr: Vec<B> = include_str!("../../data/rsa_pairs.txt").lines().map(|l| B::from_be(&fw::unhex(l.split(' ').nth(1).unwrap()))).collect();
    let mut pairs = vec![];
    for i in 0..pr.len() {
        for j in 0..pr.len() {
            if pr[i] != pr[j] && pr[i].bits() == pr[j].bits() {
                pairs.push((i, j));
            }
        }
    }
    cx.section("structured-primes", pairs.len() * cx.pick(2, 30), |i, l| {
        let (a, b) = pairs[i % pairs.len()];
        let k = Key::from_primes(&pr[a], &pr[b], &B::u(65537)).unwrap();
        let r = i / pairs.len();
        match load(&k) {
            Ok(Ok(sk)) => {
                let (h, pss) = algs[(i + r) % 6];
                judge(l, &sk, &k, h, pss, &rng::bytes(i as u64, 9), i as u64, true, &|| format!("structured primes {a}, {b}"));
            }
            e => {
                l.check(false, || format!("refused: {:?}", e.map(|x| x.map(|_| ()))));
            }
        }
    });
    // messages
    let k0 = &keys[0];
    let sk0 = load(k0).unwrap().unwrap();
    cx.section("messages", cx.pick(260, 1200), |i, l| {
        for (h, pss) in &algs {
            judge(l, &sk0, k0, *h, *pss, &rng::bytes(i as u64, i), i as u64, true, &|| "message".into());
        }
    });
    // salts: every byte value, extremes
    cx.section("salts", 256, |i, l| {
        for h in HS {
            let mut buf = [0; 256];
            let salt = vec![i as u8; h.len()];
            let (g, _) = rng::with(State::new(Src::Bytes(salt.clone())), || fw::no_panic(|| lib_sign(&sk0, h, true, b"m", &mut buf).map(|s| s.to_vec())));
            let want = k0.private(&B::from_be(&pss_em(h, b"m", &salt, 2048))).be(256);
            l.t(1);
            l.check(g == Ok(Ok(want)), || format!("{h:?} salt of {i}"));
        }
    });
    // exponents equivalent modulo p-1, and other private exponents
    cx.section("equivalent-exponents", 40, |i, l| {
        let mut k = keys[i % 5].clone();
        let one = B::u(1);
        match i / 5 {
            0 => k.dp = k.dp.add(&k.p.sub(&one)),
            1 => k.dq = k.dq.add(&k.q.sub(&one)),
            2 => k.d = k.d.add(&k.p.sub(&one).mul(&k.q.sub(&one))),
            3 => k.d = k.d.rem(&k.p.sub(&one)),
            4 => k.d = B::u(1),
            5 => k.dp = k.dp.add(&k.p.sub(&one).mul(&B::u(3))),
            6 => k.qi = k.qi.add(&k.p),
            _ => k.d = k.n.sub(&one),
        }
        let must = i / 5 != 6 && k.k() % 8 == 0;
        match load(&k) {
            Ok(Ok(sk)) => judge(l, &sk, &k, H::S256, i % 2 == 0, b"m", i as u64, must && balanced(&k) && k.dp.bits() <= 64 * k.p.0.len() && k.dq.bits() <= 64 * k.q.0.len(), &|| format!("equivalent form {}", i / 5)),
            Ok(Err(_)) => l.t(1),
            Err(p) => {
                l.check(false, || format!("panic {p}"));
            }
        }
    });
    // one component altered: every bit
    let bits: Vec<usize> = k0.parts().iter().map(|p| p.bits() + 3).collect();
    let total: usize = bits.iter().sum();
    let names = ["n", "e", "d", "p", "q", "dp", "dq", "qinv"];
    let alter = |k: &mut Key, c: usize, f: &dyn Fn(&B) -> Option<B>| -> bool {
        let part = match c {
            0 => &mut k.n,
            1 => &mut k.e,
            2 => &mut k.d,
            3 => &mut k.p,
            4 => &mut k.q,
            5 => &mut k.dp,
            6 => &mut k.dq,
            _ => &mut k.qi,
        };
        match f(part) {
            Some(v) => {
                *part = v;
                true
            }
            None => false,
        }
    };
    let outcome = |l: &mut L, k: &Key, i: usize, what: &dyn Fn() -> String| match load(k) {
        Ok(Ok(sk)) => {
            let (h, pss) = algs[i % 6];
            judge(l, &sk, k, h, pss, b"fault", i as u64, false, what);
            let (h, pss) = algs[(i + 3) % 6];
            judge(l, &sk, k, h, pss, b"fault", i as u64, false, what);
        }
        Ok(Err(_)) => {
            l.t(1);
            l.s64(i as u64);
        }
        Err(p) => {
            l.check(false, || format!("{}: panic on load {p}", what()));
        }
    };
    cx.section("component-bits", total, |i, l| {
        let (mut c, mut b) = (0, i);
        while b >= bits[c] {
            b -= bits[c];
            c += 1;
        }
        let mut k = k0.clone();
        let flip = |x: &B| {
            let p = B::pow2(b);
            Some(if x.bit(b) { x.sub(&p) } else { x.add(&p) })
        };
        alter(&mut k, c, &flip);
        outcome(l, &k, i, &|| format!("{} bit {b} flipped", names[c]));
        l.note(|| format!("{} bit {b} flipped", names[c]));
    });
    // each component replaced by each of a set of values
    let specials: Vec<(String, Box<dyn Fn(&Key, &B) -> Option<B> + Sync>)> = {
        let mut v: Vec<(String, Box<dyn Fn(&Key, &B) -> Option<B> + Sync>)> = vec![];
        for c in [0u64, 1, 2, 3, 4, 5, 65537, u32::MAX as u64, 1 << 32, u64::MAX] {
            v.push((format!("{c}"), Box::new(move |_, _| Some(B::u(c)))));
        }
        for c in [1u64, 2, 3, 4, 1 << 63] {
            v.push((format!("+{c}"), Box::new(move |_, x| Some(x.add(&B::u(c))))));
            v.push((format!("-{c}"), Box::new(move |_, x| if x.lt(&B::u(c)) { None } else { Some(x.sub(&B::u(c))) })));
            v.push((format!("*{}", c + 1), Box::new(move |_, x| Some(x.mul(&B::u(c + 1))))));
        }
        for b in [64usize, 512, 1023, 1024, 1025, 1088, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8200] {
            v.push((format!("2^{b}"), Box::new(move |_, _| Some(B::pow2(b)))));
            v.push((format!("2^{b}-1"), Box::new(move |_, _| Some(B::pow2(b).sub(&B::u(1))))));
            v.push((format!("2^{b}+1"), Box::new(move |_, _| Some(B::pow2(b).add(&B::u(1))))));
            v.push((format!("+2^{b}"), Box::new(move |_, x| Some(x.add(&B::pow2(b))))));
        }
        for c in 0..8usize {
            v.push((format!("component {c}"), Box::new(move |k, _| Some(k.parts()[c].clone()))));
            v.push((format!("component {c} + this"), Box::new(move |k, x| Some(k.parts()[c].add(x)))));
        }
        for s in [1usize, 8, 64] {
            v.push((format!(">>{s}"), Box::new(move |_, x| Some(x.shr(s)))));
            v.push((format!("<<{s}"), Box::new(move |_, x| Some(x.mul(&B::pow2(s))))));
        }
        v.push(("other key's".into(), Box::new(|_, _| None)));
        v
    };
    let base: Vec<usize> = (0..nf).filter(|i| [2048, 2050, 2111, 3072].contains(&keys[*i].n.bits())).collect();
    cx.section("component-values", base.len() * 8 * specials.len(), |i, l| {
        let ki = base[i % base.len()];
        let c = i / base.len() % 8;
        let (nm, f) = &specials[i / base.len() / 8];
        let orig = &keys[ki];
        let mut k = orig.clone();
        let other = &keys[(ki + 1) % nf];
        let done = alter(&mut k, c, &|x| if nm.starts_with("other") { Some(other.parts()[c].clone()) } else { f(orig, x) });
        if done && k.e.bits() <= 64 {
            outcome(l, &k, i, &|| format!("{} of key {ki} replaced by {nm}", names[c]));
        }
    });
    // two components altered together
    let few: Vec<usize> = (0..specials.len()).step_by(cx.pick(7, 2)).collect();
    cx.section("component-pairs", 28 * few.len() * few.len(), |i, l| {
        let mut pr = vec![];
        for a in 0..8 {
            for b in a + 1..8 {
                pr.push((a, b));
            }
        }
        let (a, b) = pr[i % 28];
        let r = i / 28;
        let (fa, fb) = (&specials[few[r % few.len()]], &specials[few[r / few.len()]]);
        let mut k = k0.clone();
        if alter(&mut k, a, &|x| fa.1(k0, x)) && alter(&mut k, b, &|x| fb.1(k0, x)) && k.e.bits() <= 64 {
            outcome(l, &k, i, &|| format!("{} := {} and {} := {}", names[a], fa.0, names[b], fb.0));
        }
    });
    // wholly mismatched halves
    cx.section("mismatched", nf * nf, |i, l| {
        let (a, b) = (&keys[i / nf], &keys[i % nf]);
        if a.n == b.n || (cx.quick() && (a.n.bits() > 3100 || b.n.bits() > 3100)) {
            return;
        }
        let mut k = a.clone();
        k.n = b.n.clone();
        k.e = b.e.clone();
        outcome(l, &k, i, &|| format!("private half of key {}, public half of {}", i / nf, i % nf));
        let mut k = a.clone();
        k.q = b.q.clone();
        k.dq = b.dq.clone();
        outcome(l, &k, i, &|| "second prime of another key".into());
        let mut k = a.clone();
        std::mem::swap(&mut k.p, &mut k.q);
        outcome(l, &k, i, &|| "p and q swapped alone".into());
    });
}

fn main() {
    fw::main("C14", |cx| {
        cx.assume("oracle: RFC 8017 signatures over independent big-integer arithmetic; faulty keys judged by verification under the key's own (n, e)");
        run(cx);
    });
}
