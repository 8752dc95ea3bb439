//! C11: ECDSA signing: valid, exactly encoded, hedged-deterministic nonces.
use graviola::signing::ecdsa::{SigningKey, VerifyingKey};
use mc::der;
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::*;
use mc::rng::{self, Src, State};
#[path = "../shared/script.rs"]
mod script;

/// SP 800-90A HMAC_DRBG as RFC 6979 uses it.
struct Drbg<F> {
    f: std::marker::PhantomData<F>,
    k: Vec<u8>,
    v: Vec<u8>,
}
impl<F: Hf> Drbg<F> {
    fn new(seed: &[u8]) -> Self {
        let n = F::R.len();
        let mut d = Drbg { f: Default::default(), k: vec![0; n], v: vec![1; n] };
        d.upd(Some(seed));
        d
    }
    fn upd(&mut self, data: Option<&[u8]>) {
        for b in 0..=1u8 {
            if b == 1 && data.is_none() {
                break;
            }
            let m = [&self.v[..], &[b], data.unwrap_or(&[])].concat();
            self.k = F::hmac(&self.k, &m);
            self.v = F::hmac(&self.k, &self.v);
        }
    }
    /// `forced`: have the (scripted) hash function come out so that this is it
    fn take(&mut self, n: usize, forced: Option<&[u8]>) -> Vec<u8> {
        let mut o = vec![];
        while o.len() < n {
            if let Some(f) = forced {
                let outer = script::hmac_outer(F::R, &self.k, &self.v);
                let mut v = F::R.hash(&outer);
                let part = &f[o.len()..n.min(o.len() + v.len())];
                v[..part.len()].copy_from_slice(part);
                script::set(F::R, &outer, &v);
            }
            self.v = F::hmac(&self.k, &self.v);
            o.extend_from_slice(&self.v);
        }
        o.truncate(n);
        self.upd(None);
        o
    }
}
/// nonce, r, s, number of candidates drawn
fn forced<const N: usize, T: Sig<N>, F: Hf>(d: &[u64; N], m: &[u8], rnd: &[u8], plan: &[Vec<u8>]) -> ([u64; N], [u64; N], [u64; N], usize) {
    let c = T::c();
    let e = c.hash_to_scalar(&F::hash(m));
    let mut g = Drbg::<F>::new(&[&to_be(d, T::LEN)[..], &to_be(&e, T::LEN), rnd].concat());
    for i in 0.. {
        let k = from_be::<N>(&g.take(T::LEN, plan.get(i).map(|x| &x[..])));
        if is_zero(&k) || !cmp(&k, &c.n.m).is_lt() {
            continue;
        }
        let Some((r, s)) = c.ecdsa_sign(d, &e, &k) else { continue };
        return (k, r, s, i + 1);
    }
    unreachable!()
}
fn model<const N: usize, T: Sig<N>, F: Hf>(d: &[u64; N], m: &[u8], rnd: &[u8]) -> ([u64; N], [u64; N], [u64; N], usize) {
    forced::<N, T, F>(d, m, rnd, &[])
}

fn one<const N: usize, T: Sig<N>, F: Hf>(l: &mut L, sk: &SigningKey<T::C>, vk: Option<&VerifyingKey<T::C>>, d: &[u64; N], m: &[&[u8]], rnd: [u8; 16]) -> (Vec<u8>, usize) {
    let whole = m.concat();
    let (_, r, s, tries) = model::<N, T, F>(d, &whole, &rnd);
    let want = [to_be(&r, T::LEN), to_be(&s, T::LEN)].concat();
    let wantd = der::seq(&[der::uint(&to_be(&r, T::LEN)), der::uint(&to_be(&s, T::LEN))]);
    let mut buf = [0xa5u8; 160];
    let (got, st) = rng::with(State::new(Src::Bytes(rnd.to_vec())), || fw::no_panic(|| sk.sign::<F::H>(m, &mut buf).map(|x| x.to_vec())));
    let ctx = || format!("d {} msg {} bytes rnd {}", fw::hex(&to_be(d, T::LEN)), whole.len(), fw::hex(&rnd));
    match got {
        Ok(Ok(g)) => {
            l.eq(&g, &want, || format!("signature: {}", ctx()));
            l.check(st.calls == [16], || format!("random requests {:?}: {}", st.calls, ctx()));
            if let Some(v) = vk {
                l.t(1);
                l.check(v.verify::<F::H>(m, &g).is_ok(), || format!("own signature rejected: {}", ctx()));
            }
        }
        e => {
            l.check(false, || format!("sign: {e:?}: {}", ctx()));
        }
    }
    let mut buf = [0xa5u8; 160];
    let (got, st) = rng::with(State::new(Src::Bytes(rnd.to_vec())), || fw::no_panic(|| sk.sign_asn1::<F::H>(m, &mut buf).map(|x| x.to_vec())));
    match got {
        Ok(Ok(g)) => {
            l.eq(&g, &wantd, || format!("ASN.1 signature: {}", ctx()));
            l.check(st.calls == [16], || format!("random requests {:?}: {}", st.calls, ctx()));
            if let Some(v) = vk {
                l.t(1);
                l.check(v.verify_asn1::<F::H>(m, &g).is_ok(), || format!("own ASN.1 signature rejected: {}", ctx()));
            }
        }
        e => {
            l.check(false, || format!("sign_asn1: {e:?}: {}", ctx()));
        }
    }
    (want, tries)
}

fn with<const N: usize, T: Sig<N>, F: Hf>(cx: &Ctx) {
    let c = T::c();
    let nm = format!("{}/{:?}", T::NAME, F::R);
    // every boundary private key
    let mut ks: Vec<[u64; N]> = vec![];
    for i in 1..=cx.pick(16u64, 128) {
        ks.push(from_u64(i));
        ks.push(c.n.neg(&from_u64(i)));
    }
    for b in 0..8 * T::LEN {
        ks.push(c.n.reduce(&pow2(b)));
        ks.push(c.n.reduce(&c.n.neg(&c.n.reduce(&pow2(b)))));
        let (v, _) = sub_raw(&pow2::<N>(b), &from_u64(1));
        if !is_zero(&v) {
            ks.push(c.n.reduce(&v));
        }
    }
    for p in limb_patterns::<N>(&[0, 1, u64::MAX]).into_iter().step_by(if cx.quick() && N == 6 { 7 } else { 1 }) {
        if !is_zero(&p) && cmp(&p, &c.n.m).is_lt() {
            ks.push(p);
        }
    }
    ks.sort();
    ks.dedup();
    cx.section(&format!("{nm}/private-keys"), ks.len(), |i, l| {
        let d = &ks[i];
        let sk = T::signer(d);
        let vk = VerifyingKey::<T::C>::from_x962_uncompressed(&c.enc(&c.mul_g(d))).ok().unwrap();
        one::<N, T, F>(l, &sk, Some(&vk), d, &[b"message"], rng::arr(i as u64));
        l.note(|| format!("private key {}", fw::hex(&to_be(d, T::LEN))));
    });
    // message lengths and divisions
    let d = c.n.reduce(&from_be(&rng::bytes(7, T::LEN)));
    cx.section(&format!("{nm}/messages"), cx.pick(300, 1100), |i, l| {
        let sk = T::signer(&d);
        let m = rng::bytes(i as u64, i);
        one::<N, T, F>(l, &sk, None, &d, &[&m], [i as u8; 16]);
        let (a, b) = m.split_at(i / 3);
        let (x, _) = one::<N, T, F>(l, &sk, None, &d, &[a, &[], b], [i as u8; 16]);
        if i == 0 {
            let (y, _) = one::<N, T, F>(l, &sk, None, &d, &[], [0; 16]);
            l.check(x == y, || "no slices".into());
        }
        if i <= 12 {
            // every division into slices
            for mask in 0..1u32 << i.saturating_sub(1) {
                let mut parts: Vec<&[u8]> = vec![];
                let mut s = 0;
                for j in 1..i {
                    if mask >> (j - 1) & 1 == 1 {
                        parts.push(&m[s..j]);
                        s = j;
                    }
                }
                parts.push(&m[s..]);
                let mut buf = [0; 96];
                let g = rng::with(State::new(Src::Bytes(vec![i as u8; 16])), || sk.sign::<F::H>(&parts, &mut buf).map(|x| x.to_vec())).0;
                l.t(1);
                l.check(g.as_deref().is_ok_and(|g| g == &x[..]), || format!("slices {mask:b}"));
            }
        }
    });
    // randomness: every single bit, constants; nonces never collide
    cx.section(&format!("{nm}/randomness"), 4, |i, l| {
        let sk = T::signer(&d);
        let m: &[u8] = [&b""[..], b"a", b"b", b"longer message"][i];
        let mut seen = std::collections::HashSet::new();
        for b in 0..128 + 256 {
            let mut r = [0u8; 16];
            if b < 128 {
                r[b / 8] = 1 << (b % 8);
            } else {
                r = [(b - 128) as u8; 16];
            }
            let (k, ..) = model::<N, T, F>(&d, m, &r);
            let (s, _) = one::<N, T, F>(l, &sk, None, &d, &[m], r);
            l.check(seen.insert(s[..T::LEN].to_vec()), || "nonce repeated for different randomness".into());
            l.check(!is_zero(&k), || "zero nonce".into());
        }
    });
    // the same (worst case) randomness every time: nonces differ by message and by key
    cx.section(&format!("{nm}/constant-randomness"), 4, |i, l| {
        let mut seen = std::collections::HashSet::new();
        for j in 0..cx.pick(150u64, 2000) {
            let (d, m) = if i < 2 { (d, rng::bytes(j, 20)) } else { (from_u64(j + 1), b"same".to_vec()) };
            let (s, _) = one::<N, T, F>(l, &T::signer(&d), None, &d, &[&m], [if i % 2 == 0 { 0 } else { 0xff }; 16]);
            l.check(seen.insert(s[..T::LEN].to_vec()), || "nonce repeated".into());
        }
    });
    // DER forms: enough signatures that r and s with leading zeros and high bits all occur
    cx.section(&format!("{nm}/der-shapes"), 1, |_, l| {
        let sk = T::signer(&d);
        let mut shapes = std::collections::HashSet::new();
        let mut i = 0u128;
        // (length class of r) x (length class of s): short, exact, padded
        while shapes.len() < 8 && i < 20000 {
            let (_, r, s, _) = model::<N, T, F>(&d, b"shape", &i.to_le_bytes());
            let cl = |x: &[u64; N]| {
                let b = to_be(x, T::LEN);
                if b[0] >= 0x80 { 2 } else if b[0] == 0 { if b[1] >= 0x80 { 3 } else { 0 } } else { 1 }
            };
            let sh = (cl(&r), cl(&s));
            let interesting = sh.0 == 0 || sh.1 == 0 || sh.0 == 3 || sh.1 == 3 || i < 4;
            if interesting && shapes.insert(sh) {
                one::<N, T, F>(l, &sk, None, &d, &[b"shape"], i.to_le_bytes());
            }
            i += 1;
        }
        l.note(|| format!("integer shapes reached: {shapes:?}"));
    });
}

/// Random private keys: candidates from the system source, rejected until in range.
fn generate<const N: usize, T: Sig<N>>(cx: &Ctx) {
    let c = T::c();
    let bad: Vec<Vec<u8>> = vec![vec![0; T::LEN], to_be(&c.n.m, T::LEN), vec![0xff; T::LEN], to_be(&add_raw(&c.n.m, &from_u64(1)).0, T::LEN)];
    let good: Vec<Vec<u8>> = vec![to_be(&from_u64::<N>(1), T::LEN), to_be(&sub_raw(&c.n.m, &from_u64(1)).0, T::LEN), rng::bytes(1, T::LEN)];
    cx.section(&format!("{}/generate", T::NAME), 70 * good.len(), |i, l| {
        let (rej, g) = (i / good.len(), &good[i % good.len()]);
        let mut b = vec![];
        for k in 0..rej {
            b.extend_from_slice(&bad[k % bad.len()]);
        }
        b.extend_from_slice(g);
        let (got, st) = rng::with(State::new(Src::Bytes(b)), || fw::no_panic(|| SigningKey::<T::C>::generate()));
        l.t(1);
        match got {
            Ok(Ok(k)) => {
                let mut buf = [0; 400];
                let e = k.to_sec1_der(&mut buf).map(|x| x.to_vec());
                let q = c.enc(&c.mul_g(&from_be(g)));
                let want = der::seq(&[
                    der::int_raw(&[1]),
                    der::octets(g),
                    der::tlv(0xa0, &der::oid(T::OID)),
                    der::tlv(0xa1, &der::bits(&q)),
                ]);
                l.check(e.as_deref().is_ok_and(|e| e == &want[..]), || format!("generated key after {rej} rejected candidates: {:?}", e.map(|e| fw::hex(&e))));
                l.check(st.calls.iter().sum::<usize>() == (rej + 1) * T::LEN, || format!("requests {:?}", st.calls));
            }
            Ok(Err(e)) => {
                l.check(rej >= 64, || format!("{e:?} after {rej} rejected candidates"));
            }
            Err(p) => {
                l.check(false, || format!("panic {p}"));
            }
        }
    });
}

/// Randomness (message "shape", the key of `with`) whose r or s has two
/// leading zero bytes, found by search.
const SHAPES4: [u128; 9] = [3934, 4120, 84459, 172647, 246644, 198385, 344707, 446985, 549286];
const SHAPES6: [u128; 9] = [15962, 32847, 58885, 85097, 102922, 147282, 204635, 322800, 391789];

fn shapes<const N: usize, T: Sig<N>, F: Hf>(cx: &Ctx, ctrs: &[u128]) {
    let d = T::c().n.reduce(&from_be(&rng::bytes(7, T::LEN)));
    cx.section(&format!("{}/{:?}/short-integers", T::NAME, F::R), ctrs.len(), |i, l| {
        let (w, _) = one::<N, T, F>(l, &T::signer(&d), None, &d, &[b"shape"], ctrs[i].to_le_bytes());
        l.check(w[..2] == [0, 0] || w[T::LEN..T::LEN + 2] == [0, 0], || "fixture".into());
    });
}

/// Nonce candidates chosen at will, through a hash function with chosen outputs.
fn nonces<const N: usize, T: Sig<N>, F: Hf>(cx: &Ctx) {
    let c = T::c();
    let n = c.n.m;
    let nm = format!("{}/{:?}", T::NAME, F::R);
    // good candidates at every edge of the scalar multiplication and inversion
    let mut ks: Vec<[u64; N]> = vec![];
    for i in 1..=cx.pick(40u64, 300) {
        ks.push(from_u64(i));
        ks.push(c.n.neg(&from_u64(i)));
        ks.push(c.n.pinv(&from_u64(i)));
    }
    for b in 0..8 * T::LEN {
        let p = c.n.reduce(&pow2(b));
        ks.push(p);
        ks.push(c.n.neg(&p));
        ks.push(c.n.pinv(&p));
        ks.push(c.n.sub(&p, &from_u64(1)));
    }
    for (w, step) in [(5usize, 5usize), (7, 7), (6, 6), (4, 4)] {
        for i in (0..8 * T::LEN).step_by(step) {
            for dig in cx.pick(vec![1i64, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1], (1..1 << w).collect()) {
                let k = c.window(dig, i);
                ks.push(k);
                ks.push(c.n.neg(&k));
            }
        }
    }
    for p in limb_patterns::<N>(&[0, 1, u64::MAX]) {
        ks.push(p);
    }
    ks.retain(|k| !is_zero(k) && cmp(k, &n).is_lt());
    ks.sort();
    ks.dedup();
    let d = c.n.reduce(&from_be(&rng::bytes(11, T::LEN)));
    cx.section(&format!("{nm}/chosen-nonces"), ks.len(), |i, l| {
        for (d, m) in [(d, &b"nonce"[..]), (c.n.neg(&from_u64(1)), b"")] {
            script::clear();
            let rnd: [u8; 16] = rng::arr(i as u64);
            let (k, ..) = forced::<N, T, script::S<F>>(&d, m, &rnd, &[to_be(&ks[i], T::LEN)]);
            l.check(k == ks[i], || "fixture".into());
            l.s(&to_be(&k, T::LEN));
            one::<N, T, script::S<F>>(l, &T::signer(&d), None, &d, &[m], rnd);
        }
        l.note(|| format!("nonce {}", fw::hex(&to_be(&ks[i], T::LEN))));
    });
    // every sequence of unusable candidates: 0, out of range, and a nonce for
    // which s would be 0 (private key -e/r)
    let depth = cx.pick(4u32, 6);
    let kinds = 6usize;
    let total: usize = (0..=depth).map(|x| kinds.pow(x)).sum();
    cx.section(&format!("{nm}/unusable-nonces"), total, |i, l| {
        let (mut j, mut len) = (i, 0);
        while j >= kinds.pow(len) {
            j -= kinds.pow(len);
            len += 1;
        }
        let m = b"retry";
        script::clear();
        let k0 = c.n.reduce(&from_be(&rng::bytes(i as u64 % 7, T::LEN)));
        let e = c.hash_to_scalar(&F::R.hash(m));
        let r0 = c.n.reduce(&c.mul_g(&k0).unwrap().0);
        let d = c.n.neg(&c.n.pmul(&e, &c.n.pinv(&r0)));
        let mut plan = vec![];
        for _ in 0..len {
            plan.push(match j % kinds {
                0 => vec![0; T::LEN],
                1 => to_be(&n, T::LEN),
                2 => to_be(&add_raw(&n, &from_u64(1)).0, T::LEN),
                3 => vec![0xff; T::LEN],
                // out of range by its highest part only
                4 => {
                    let mut x = to_be(&n, T::LEN);
                    x[T::LEN / 2 - 1] = 0xff;
                    x[T::LEN / 2..].fill(0);
                    if cmp(&from_be(&x), &n).is_lt() { vec![0xff; T::LEN] } else { x }
                }
                _ => to_be(&k0, T::LEN),
            });
            j /= kinds;
        }
        let rnd: [u8; 16] = rng::arr(i as u64);
        let (.., tries) = forced::<N, T, script::S<F>>(&d, m, &rnd, &plan);
        l.check(tries == len as usize + 1, || "fixture".into());
        l.s(&i.to_le_bytes());
        let vk = VerifyingKey::<T::C>::from_x962_uncompressed(&c.enc(&c.mul_g(&d))).ok().unwrap();
        one::<N, T, script::S<F>>(l, &T::signer(&d), Some(&vk), &d, &[m], rnd);
    });
    // message hashes at the edges: zero, around the order, single bits
    let mut es: Vec<Vec<u8>> = vec![];
    let hl = F::R.len();
    let mut put = |x: Vec<u8>| {
        for fill in [0u8, 0xff] {
            let mut x = x.clone();
            x.truncate(hl);
            x.resize(hl, fill);
            es.push(x);
        }
    };
    for i in 0..16u64 {
        put(to_be(&from_u64::<N>(i), T::LEN));
        put(to_be(&add_raw(&n, &from_u64(i)).0, T::LEN));
        put(to_be(&sub_raw(&n, &from_u64(i)).0, T::LEN));
    }
    put(vec![0xff; T::LEN]);
    for b in 0..8 * hl {
        let mut x = vec![0; hl];
        x[b / 8] = 0x80 >> (b % 8);
        es.push(x);
    }
    es.sort();
    es.dedup();
    cx.section(&format!("{nm}/chosen-hashes"), es.len(), |i, l| {
        for d in [d, from_u64(1), c.n.neg(&from_u64(1))] {
            script::clear();
            script::set(F::R, b"hash", &es[i]);
            let vk = VerifyingKey::<T::C>::from_x962_uncompressed(&c.enc(&c.mul_g(&d))).ok().unwrap();
            l.s(&es[i]);
            one::<N, T, script::S<F>>(l, &T::signer(&d), Some(&vk), &d, &[b"ha", b"sh"], rng::arr(i as u64));
        }
    });
}

fn main() {
    fw::main("C11", |cx| {
        cx.assume("oracle: independent RFC 6979 / HMAC_DRBG nonce derivation and ECDSA equations");
        with::<4, P256, F256>(cx);
        with::<4, P256, F384>(cx);
        with::<4, P256, F512>(cx);
        with::<6, P384, F256>(cx);
        with::<6, P384, F384>(cx);
        with::<6, P384, F512>(cx);
        shapes::<4, P256, F256>(cx, &SHAPES4);
        shapes::<6, P384, F384>(cx, &SHAPES6);
        generate::<4, P256>(cx);
        generate::<6, P384>(cx);
        nonces::<4, P256, F256>(cx);
        nonces::<4, P256, F512>(cx);
        nonces::<6, P384, F256>(cx);
        nonces::<6, P384, F384>(cx);
    });
}
