//! C10: ECDSA verification accepts exactly the valid signatures.
use graviola::signing::ecdsa::VerifyingKey;
use mc::der;
use mc::ec::Aff;
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::*;
use mc::rng;
#[path = "../shared/script.rs"]
mod script;

struct V<const N: usize, T: Sig<N>> {
    q: Aff<N>,
    k: VerifyingKey<T::C>,
}
fn key<const N: usize, T: Sig<N>>(q: &Aff<N>) -> V<N, T> {
    V { q: *q, k: VerifyingKey::from_x962_uncompressed(&T::c().enc(q)).ok().expect("valid key") }
}
/// Fixed-length form, judged by the reference predicate.
fn fixed<const N: usize, T: Sig<N>, F: Hf>(l: &mut L, v: &V<N, T>, m: &[u8], sig: &[u8], what: &dyn Fn() -> String) -> bool {
    let c = T::c();
    let e = c.hash_to_scalar(&F::hash(m));
    let want = sig.len() == 2 * T::LEN && c.ecdsa_verify(&v.q, &e, &from_be(&sig[..T::LEN]), &from_be(&sig[T::LEN..]));
    let got = fw::no_panic(|| v.k.verify::<F::H>(&[m], sig).is_ok());
    l.t(1);
    l.s(sig);
    l.check(got == Ok(want), || {
        format!("{}: {:?} key {} msg {} sig {}: got {got:?} want {want}", what(), F::R, fw::hex(&c.enc(&v.q)), fw::hex(m), fw::hex(sig))
    });
    want
}
fn asn1<const N: usize, T: Sig<N>, F: Hf>(l: &mut L, v: &V<N, T>, m: &[u8], sig: &[u8], what: &dyn Fn() -> String) -> bool {
    let c = T::c();
    let e = c.hash_to_scalar(&F::hash(m));
    let parsed = (|| {
        let mut r = der::R(sig);
        let mut s = r.seq()?;
        let (a, b) = (s.uint()?, s.uint()?);
        (r.empty() && s.empty()).then_some((a, b))
    })();
    let want = parsed.is_some_and(|(a, b)| a.len() <= T::LEN && b.len() <= T::LEN && c.ecdsa_verify(&v.q, &e, &from_be(a), &from_be(b)));
    let got = fw::no_panic(|| v.k.verify_asn1::<F::H>(&[m], sig).is_ok());
    l.t(1);
    l.s(sig);
    l.check(got == Ok(want), || {
        format!("{}: {:?} ASN.1 key {} msg {} sig {}: got {got:?} want {want}", what(), F::R, fw::hex(&c.enc(&v.q)), fw::hex(m), fw::hex(sig))
    });
    want
}
fn sigb<const N: usize, T: Sig<N>>(r: &[u64; N], s: &[u64; N]) -> Vec<u8> {
    [to_be(r, T::LEN), to_be(s, T::LEN)].concat()
}
fn sigd<const N: usize, T: Sig<N>>(r: &[u64; N], s: &[u64; N]) -> Vec<u8> {
    der::seq(&[der::uint(&to_be(r, T::LEN)), der::uint(&to_be(s, T::LEN))])
}
/// a key under which (x(R) mod n, s) is a valid signature of e
fn key_for<const N: usize, T: Sig<N>>(rp: &Aff<N>, s: &[u64; N], e: &[u64; N]) -> Option<(Aff<N>, [u64; N])> {
    let c = T::c();
    let r = c.n.reduce(&rp.unwrap().0);
    if is_zero(&r) || is_zero(s) {
        return None;
    }
    // Q = r^-1 (s R - e G)
    let ri = c.n.pinv(&r);
    let q = c.mul(&ri, &c.add(&c.mul(s, rp), &c.neg(&c.mul_g(e))));
    q?;
    Some((q, r))
}

fn with<const N: usize, T: Sig<N>, F: Hf>(cx: &Ctx) {
    let c = T::c();
    let n = c.n.m;
    let len = T::LEN;
    let nm = format!("{}/{:?}", T::NAME, F::R);
    let e_of = |m: &[u8]| c.hash_to_scalar(&F::hash(m));
    // honest signatures: messages of every length, split every way over slices
    cx.section(&format!("{nm}/honest"), cx.pick(300, 2000), |i, l| {
        let d = c.n.reduce(&from_be(&rng::bytes(i as u64, len)));
        let k = c.n.reduce(&from_be(&rng::bytes(i as u64 + 5000, len)));
        let m = rng::bytes(i as u64, i);
        let v = key::<N, T>(&c.mul_g(&d));
        let (r, s) = c.ecdsa_sign(&d, &e_of(&m), &k).unwrap();
        let b = sigb::<N, T>(&r, &s);
        let ok = fixed::<N, T, F>(l, &v, &m, &b, &|| format!("honest {i}"));
        l.check(ok, || "reference".into());
        asn1::<N, T, F>(l, &v, &m, &sigd::<N, T>(&r, &s), &|| format!("honest {i}"));
        // (r, n-s) is valid too; r/s swapped or the other half is not
        fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &c.n.neg(&s)), &|| "n-s".into());
        fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&s, &r), &|| "swapped".into());
        fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&c.n.neg(&r), &s), &|| "n-r".into());
        let other = key::<N, T>(&c.neg(&v.q));
        fixed::<N, T, F>(l, &other, &m, &b, &|| "negated key".into());
        // the message given as slices
        for cut in [0, 1, i / 3, i / 2, i] {
            let cut = cut.min(i);
            let (x, y) = m.split_at(cut);
            let got = v.k.verify::<F::H>(&[x, &[], y], &b).is_ok() && v.k.verify_asn1::<F::H>(&[x, y], &sigd::<N, T>(&r, &s)).is_ok();
            l.t(2);
            l.check(got, || format!("message in slices at {cut}"));
        }
        if i > 0 {
            let mut m2 = m.clone();
            m2[i / 2] ^= 1;
            fixed::<N, T, F>(l, &v, &m2, &b, &|| "other message".into());
        }
        l.note(|| format!("honest signature, message of {i} bytes"));
    });
    let m = b"the message".to_vec();
    let e = e_of(&m);
    // valid signatures with u1 (then u2) sweeping every window and digit
    let w1 = if N == 4 { 7 } else { 5 };
    let sweep = |name: &str, w: usize, first: bool| {
        let wins = (8 * len).div_ceil(w) + 1;
        let half = 1i64 << (w - 1);
        let digits: Vec<i64> = (-half..=half).filter(|d| *d != 0 && (!cx.quick() || F::R == mc::hashref::H::S256 || d.abs().count_ones() == 1)).collect();
        cx.section(&format!("{nm}/{name}-windows"), wins * digits.len(), |i, l| {
            let (win, d) = (i / digits.len(), digits[i % digits.len()]);
            let back = if i % 2 == 0 { [0; N] } else { c.n.reduce(&from_be(&rng::bytes(3, len))) };
            let t = c.scalar_add(&c.window(d, win * w), &back);
            if is_zero(&t) {
                return;
            }
            let rp = c.mul_g(&from_u64(1000 + i as u64));
            let r = c.n.reduce(&rp.unwrap().0);
            let ti = c.n.pinv(&t);
            let s = if first { c.n.pmul(&e, &ti) } else { c.n.pmul(&r, &ti) };
            let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) else { return };
            let v = key::<N, T>(&q);
            let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| format!("{name} window {win} digit {d}"));
            l.check(ok, || "crafted signature should be valid".into());
            let s2 = c.n.add(&s, &from_u64(1));
            fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s2), &|| format!("{name} window {win} digit {d}, s+1"));
        });
    };
    sweep("u1", w1, true);
    sweep("u2", 5, false);
    // small u1, u2 and their negatives: all pairs
    let small: Vec<[u64; N]> = (1..=cx.pick(10u64, 40)).flat_map(|v| [from_u64(v), sub_raw(&n, &from_u64(v)).0]).collect();
    let ns = small.len();
    cx.section(&format!("{nm}/small-u1-u2"), ns * ns, |i, l| {
        // choose Q = dG so that u1 + u2 d = k for a chosen k with r = x(kG): u2 = r/s
        // given u1, s = e/u1; then r is free through R
        let u1 = small[i / ns];
        let s = c.n.pmul(&e, &c.n.pinv(&u1));
        let kk = small[i % ns];
        let rp = c.mul_g(&kk);
        let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) else { return };
        let v = key::<N, T>(&q);
        let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| format!("u1 case {} k case {}", i / ns, i % ns));
        l.check(ok, || "crafted".into());
    });
    // exceptional final additions
    cx.section(&format!("{nm}/exceptional"), cx.pick(120, 2000), |i, l| {
        let k: [u64; N] = if i < 40 { from_u64(i as u64 + 1) } else { c.n.reduce(&from_be(&rng::bytes(i as u64, len))) };
        let rp = c.mul_g(&k);
        let r = c.n.reduce(&rp.unwrap().0);
        let half = c.n.pinv(&from_u64(2));
        // equal addends: u1 = k/2 and u2 d = k/2
        let u1 = c.n.pmul(&k, &half);
        let s = c.n.pmul(&e, &c.n.pinv(&u1));
        let (q, r2) = key_for::<N, T>(&rp, &s, &e).unwrap();
        let v = key::<N, T>(&q);
        let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r2, &s), &|| "equal addends".into());
        l.check(ok, || "crafted".into());
        // result at infinity: d = -e/r, any r and s
        let d = c.n.neg(&c.n.pmul(&e, &c.n.pinv(&r)));
        let v = key::<N, T>(&c.mul_g(&d));
        for s in [from_u64::<N>(1), u1, r, c.n.neg(&r)] {
            let bad = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| "result at infinity".into());
            l.check(!bad, || "reference accepts infinity".into());
            asn1::<N, T, F>(l, &v, &m, &sigd::<N, T>(&r, &s), &|| "result at infinity".into());
        }
        // Q = +-G and small multiples
        for (dd, neg) in [(1u64, false), (1, true), (2, false), (2, true), (3, false)] {
            let d: [u64; N] = if neg { c.n.neg(&from_u64(dd)) } else { from_u64(dd) };
            let v = key::<N, T>(&c.mul_g(&d));
            if let Some((r, s)) = c.ecdsa_sign(&d, &e, &k) {
                let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| format!("Q = {}{dd}G", if neg { "-" } else { "" }));
                l.check(ok, || "crafted".into());
            }
        }
        l.note(|| format!("nonce case {i}: doubling, infinity, Q = +-1,2,3 G"));
    });
    // the two addends P and tP in a small ratio, and r fitting every other
    // small combination of them: what a wrong case of the addition would give
    let ratios: Vec<[u64; N]> = {
        let mut v = vec![];
        for i in 1..=cx.pick(4u64, 8) {
            for x in [from_u64(i), c.n.pinv(&from_u64(i))] {
                v.push(x);
                v.push(c.n.neg(&x));
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let na = cx.pick(3usize, 24);
    cx.section(&format!("{nm}/wrong-sums"), ratios.len() * na, |i, l| {
        let t = ratios[i / na];
        let a: [u64; N] = match i % na {
            0 => from_u64(1),
            1 => c.n.reduce(&from_be(&rng::bytes(i as u64, len))),
            2 => c.n.neg(&from_u64(5)),
            j => c.n.reduce(&pow2(j * 8 * len / na)),
        };
        let s = c.n.pmul(&e, &c.n.pinv(&a));
        let mut bs = vec![];
        for x in 0..4u64 {
            for y in 0..4u64 {
                let (fx, fy) = (from_u64::<N>(x), c.n.pmul(&from_u64(y), &t));
                bs.push(c.n.add(&fx, &fy));
                bs.push(c.n.sub(&fx, &fy));
            }
        }
        bs.sort();
        bs.dedup();
        let mut valid = 0;
        for b in bs.iter().filter(|b| !is_zero(*b)) {
            let r = c.n.reduce(&c.mul_g(&c.n.pmul(b, &a)).unwrap().0);
            let d = c.n.pmul(&c.n.pmul(&t, &e), &c.n.pinv(&r));
            let v = key::<N, T>(&c.mul_g(&d));
            if fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| format!("ratio {} combination {}", fw::hex(&to_be(&t, len)), fw::hex(&to_be(b, len)))) {
                valid += 1;
            }
        }
        // only the sum itself (or its negative)
        l.check(valid <= 2, || "reference".into());
    });
    // x(R) in [n, p): r is the reduced value; the unreduced one is out of range
    let gap = sub_raw(&c.f.m, &n).0;
    cx.section(&format!("{nm}/x-above-order"), cx.pick(200, 3000), |i, l| {
        let off = if i % 2 == 0 { from_u64::<N>(i as u64 / 2 + 1) } else { sub_raw(&gap, &from_u64(i as u64 / 2 + 1)).0 };
        let x = add_raw(&n, &off).0;
        for rp in c.both(&x) {
            for s in [from_u64::<N>(1), from_u64(2), c.n.reduce(&from_be(&rng::bytes(i as u64, len))), c.n.neg(&from_u64(1))] {
                let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) else { continue };
                let v = key::<N, T>(&q);
                let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| "x(R) >= n".into());
                l.check(ok, || "crafted".into());
                fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&x, &s), &|| "unreduced r".into());
                asn1::<N, T, F>(l, &v, &m, &sigd::<N, T>(&x, &s), &|| "unreduced r".into());
                asn1::<N, T, F>(l, &v, &m, &sigd::<N, T>(&r, &s), &|| "x(R) >= n".into());
            }
        }
        // and small x(R) (r + n would also be < p): only x = r counts here
        let x = off;
        for rp in c.both(&x) {
            let s = from_u64(3);
            let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) else { continue };
            let v = key::<N, T>(&q);
            fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| "small x(R)".into());
            let (x2, o) = add_raw(&x, &n);
            if !o {
                fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&x2, &s), &|| "r + n".into());
            }
        }
    });
    // range of r and s: all pairs of boundary values, under several keys
    let mut edge: Vec<[u64; N]> = vec![[0; N]];
    for d in 0..3u64 {
        edge.push(from_u64(d + 1));
        edge.push(sub_raw(&n, &from_u64(d)).0);
        edge.push(add_raw(&n, &from_u64(d + 1)).0);
        edge.push(sub_raw(&[0; N], &from_u64(d + 1)).0);
        edge.push(sub_raw(&c.f.m, &from_u64(d)).0);
    }
    edge.push(c.n.reduce(&c.g.unwrap().0));
    edge.push(pow2(64 * N - 1));
    let ne = edge.len();
    let vs: Vec<V<N, T>> = (1..5u64).map(|d| key::<N, T>(&c.mul_g(&from_u64(d)))).collect();
    cx.section(&format!("{nm}/range-pairs"), ne * ne, |i, l| {
        for v in &vs {
            fixed::<N, T, F>(l, v, &m, &sigb::<N, T>(&edge[i / ne], &edge[i % ne]), &|| "boundary r, s".into());
            asn1::<N, T, F>(l, v, &m, &sigd::<N, T>(&edge[i / ne], &edge[i % ne]), &|| "boundary r, s".into());
        }
    });
    // out-of-range twins of valid r and s: +n wherever it fits the encoding
    cx.section(&format!("{nm}/twins"), cx.pick(60, 500), |i, l| {
        let s = if i % 2 == 0 { from_u64::<N>(i as u64 + 1) } else { c.n.reduce(&from_be(&rng::bytes(i as u64, len))) };
        let rp = c.mul_g(&from_u64(i as u64 + 1));
        let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) else { return };
        let v = key::<N, T>(&q);
        let ok = fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s), &|| "valid".into());
        l.check(ok, || "crafted".into());
        let (s2, o) = add_raw(&s, &n);
        if !o {
            fixed::<N, T, F>(l, &v, &m, &sigb::<N, T>(&r, &s2), &|| "s + n".into());
            asn1::<N, T, F>(l, &v, &m, &sigd::<N, T>(&r, &s2), &|| "s + n".into());
        }
    });
    // every bit of a valid signature, fixed and DER
    let d = c.n.reduce(&from_be(&rng::bytes(77, len)));
    let v = key::<N, T>(&c.mul_g(&d));
    let sigs: Vec<([u64; N], [u64; N])> = (0..cx.pick(3u64, 10)).map(|k| c.ecdsa_sign(&d, &e, &c.n.reduce(&from_be(&rng::bytes(k + 88, len)))).unwrap()).collect();
    cx.section(&format!("{nm}/bit-flips"), sigs.len() * 2 * len * 8, |i, l| {
        let per = 2 * len * 8;
        let (r, s) = &sigs[i / per];
        let mut b = sigb::<N, T>(r, s);
        b[i % per / 8] ^= 1 << (i % 8);
        fixed::<N, T, F>(l, &v, &m, &b, &|| format!("bit {}", i % per));
        let mut b = sigd::<N, T>(r, s);
        if i % per / 8 < b.len() {
            b[i % per / 8] ^= 1 << (i % 8);
            asn1::<N, T, F>(l, &v, &m, &b, &|| format!("bit {}", i % per));
        }
    });
    // fixed-length form: every length, including leading-zero variants
    cx.section(&format!("{nm}/lengths"), 4 * len + 10, |k, l| {
        for (r, s) in &sigs {
            let b = sigb::<N, T>(r, s);
            let cut: Vec<u8> = b.iter().copied().chain(std::iter::repeat(0)).take(k).collect();
            fixed::<N, T, F>(l, &v, &m, &cut, &|| format!("{k} bytes"));
            if k >= 2 * len && k % 2 == 0 {
                // each half zero-extended on the left
                let h = k / 2;
                let mut z = to_be(r, h);
                z.extend(to_be(s, h));
                fixed::<N, T, F>(l, &v, &m, &z, &|| format!("halves of {h} bytes"));
            }
            asn1::<N, T, F>(l, &v, &m, &cut, &|| format!("fixed form of {k} bytes as ASN.1"));
            let dd = sigd::<N, T>(r, s);
            let cut: Vec<u8> = dd.iter().copied().chain(std::iter::repeat(0)).take(k).collect();
            asn1::<N, T, F>(l, &v, &m, &cut, &|| format!("DER cut or extended to {k} bytes"));
            fixed::<N, T, F>(l, &v, &m, &cut, &|| format!("DER of {k} bytes as fixed"));
        }
    });
    if F::R != mc::hashref::H::S256 && cx.quick() {
        return;
    }
    // DER: every byte value at every position, insertions, deletions; for
    // signatures with short, high-bit and zero-leading integers
    let mut ders: Vec<(V<N, T>, Vec<u8>)> = vec![];
    for (s, k) in [(from_u64::<N>(1), 5u64), (from_u64(0x80), 6), (from_u64(0x1ff), 7), (pow2(8 * len - 9), 8), (pow2(8 * len - 8), 9), (c.n.neg(&from_u64(1)), 10), (pow2(8 * len - 17), 11)] {
        let (q, r) = key_for::<N, T>(&c.mul_g(&from_u64(k)), &s, &e).unwrap();
        let v = key::<N, T>(&q);
        ders.push((v, sigd::<N, T>(&r, &s)));
    }
    // tiny r as well
    let mut found = 0;
    for x in 1u64.. {
        if let Some(rp) = c.lift_x(&from_u64(x)) {
            let s = from_u64::<N>(2 + found);
            let (q, r) = key_for::<N, T>(&Some(rp), &s, &e).unwrap();
            ders.push((key::<N, T>(&q), sigd::<N, T>(&r, &s)));
            found += 1;
            if found == 3 {
                break;
            }
        }
    }
    for (k, (v, d)) in ders.iter().enumerate() {
        let stride = if cx.quick() && k > 3 { 7 } else { 1 };
        cx.section(&format!("{nm}/der{k}-bytes"), (d.len() + 1) * 256, |i, l| {
            if i % stride != 0 {
                return;
            }
            let (p, b) = (i / 256, i as u8);
            if i == 0 {
                let ok = asn1::<N, T, F>(l, v, &m, d, &|| "valid".into());
                l.check(ok, || "crafted".into());
            }
            if p < d.len() {
                let mut x = d.clone();
                x[p] = b;
                asn1::<N, T, F>(l, v, &m, &x, &|| format!("byte {p} = {b:#x}"));
                if b == 0 {
                    let mut x = d.clone();
                    x.remove(p);
                    asn1::<N, T, F>(l, v, &m, &x, &|| format!("byte {p} removed"));
                }
            }
            let mut x = d.clone();
            x.insert(p, b);
            asn1::<N, T, F>(l, v, &m, &x, &|| format!("byte {b:#x} inserted at {p}"));
        });
    }
    // structured DER variants: lengths, padding, tags, extra elements
    cx.section(&format!("{nm}/der-variants"), ders.len(), |i, l| {
        let (v, d) = &ders[i];
        let mut rd = der::R(d);
        let mut s = rd.seq().unwrap();
        let (a, b) = (s.int().unwrap().to_vec(), s.int().unwrap().to_vec());
        let mut forms: Vec<Vec<u8>> = vec![];
        let lenforms = |n: usize| -> Vec<Vec<u8>> {
            let mut o = vec![der::len(n)];
            for k in 1..=8usize {
                let mut x = vec![0x80 | k as u8];
                x.extend(std::iter::repeat_n(0, k - 1));
                x.push(n as u8);
                o.push(x);
            }
            o.push(vec![0x80]);
            o
        };
        let pads = |x: &[u8]| -> Vec<Vec<u8>> {
            let mut o = vec![x.to_vec()];
            for k in 1..=4 {
                o.push([vec![0; k], x.to_vec()].concat());
                o.push([vec![0xff; k], x.to_vec()].concat());
            }
            if x[0] == 0 {
                o.push(x[1..].to_vec());
            }
            o.push([x, &[0]].concat());
            o.push(vec![]);
            o
        };
        for pa in pads(&a) {
            for pb in pads(&b) {
                for ta in [2u8, 0x22, 0x82, 0x03, 0x0a] {
                    for tb in [2u8, 0x22, 0x82, 0x03, 0x0a] {
                        if ta != 2 && tb != 2 {
                            continue;
                        }
                        forms.push(der::tlv(0x30, &[der::tlv(ta, &pa), der::tlv(tb, &pb)].concat()));
                    }
                }
            }
        }
        for la in lenforms(a.len()) {
            for lb in lenforms(b.len()) {
                let body = [&[2], &la[..], &a, &[2], &lb[..], &b].concat();
                forms.push(der::tlv(0x30, &body));
                for ls in lenforms(body.len()) {
                    forms.push([&[0x30], &ls[..], &body].concat());
                    // indefinite-style end
                    forms.push([&[0x30], &ls[..], &body, &[0, 0]].concat());
                }
            }
        }
        let (ia, ib) = (der::int_raw(&a), der::int_raw(&b));
        for extra in [der::int_raw(&[1]), der::null(), vec![0], vec![5], der::octets(&[])] {
            forms.push(der::seq(&[ia.clone(), ib.clone(), extra.clone()]));
            forms.push(der::seq(&[extra.clone(), ia.clone(), ib.clone()]));
            forms.push([der::seq(&[ia.clone(), ib.clone()]), extra].concat());
        }
        for t in [0x10u8, 0x31, 0x70, 0xb0, 0x20, 0x00, 0x24, 0xa0] {
            forms.push(der::tlv(t, &[ia.clone(), ib.clone()].concat()));
        }
        forms.push(der::seq(&[ib.clone(), ia.clone()]));
        forms.push(der::seq(&[ia.clone()]));
        forms.push(der::seq(&[]));
        forms.push([ia.clone(), ib.clone()].concat());
        forms.push(der::seq(&[der::seq(&[ia.clone(), ib.clone()])]));
        // negated integers
        let neg = |x: &[u8]| {
            let mut y: Vec<u8> = x.iter().map(|b| !b).collect();
            for k in (0..y.len()).rev() {
                let (z, c) = y[k].overflowing_add(1);
                y[k] = z;
                if !c {
                    break;
                }
            }
            y
        };
        forms.push(der::seq(&[der::int_raw(&neg(&a)), ib.clone()]));
        forms.push(der::seq(&[ia.clone(), der::int_raw(&neg(&b))]));
        for f in forms {
            asn1::<N, T, F>(l, v, &m, &f, &|| format!("variant of DER signature {i}"));
        }
    });
}

/// Messages (8-byte little-endian counters) found by search whose hash, cut to
/// 256 bits, is at or above the P-256 group order.
const BIG_E: [u64; 3] = [0x873a897f, 0x17bdb5bc8, 0x4b1383c8];

fn big_hash<F: Hf>(cx: &Ctx, ctr: u64) {
    let c = mc::ec::p256();
    let m = ctr.to_le_bytes();
    let h = F::R.hash(&m);
    assert!(cmp(&from_be::<4>(&h[..32]), &c.n.m).is_ge(), "{:?} fixture is not above n", F::R);
    let e = c.hash_to_scalar(&h);
    cx.section(&format!("p256/{:?}/hash-above-order", F::R), 64, |i, l| {
        let d = c.n.reduce(&from_be(&rng::bytes(i as u64, 32)));
        let k = c.n.reduce(&from_be(&rng::bytes(i as u64 + 99, 32)));
        let v = key::<4, P256>(&c.mul_g(&d));
        let (r, s) = c.ecdsa_sign(&d, &e, &k).unwrap();
        let ok = fixed::<4, P256, F>(l, &v, &m, &sigb::<4, P256>(&r, &s), &|| "hash >= n".into());
        l.check(ok, || "reference".into());
        // the library's own signature over that message
        let mut out = [0u8; 64];
        let sk = P256::signer(&d);
        match rng::seeded(i as u64, || sk.sign::<F::H>(&[&m], &mut out).map(|x| x.to_vec())) {
            Ok(x) => {
                let ok = fixed::<4, P256, F>(l, &v, &m, &x, &|| "own signature, hash >= n".into());
                l.check(ok, || "own signature invalid".into());
            }
            Err(e) => {
                l.check(false, || format!("{e:?}"));
            }
        }
    });
}

/// Message hashes chosen at will.
fn hashes<const N: usize, T: Sig<N>, F: Hf>(cx: &Ctx) {
    let c = T::c();
    let n = c.n.m;
    let nm = format!("{}/{:?}", T::NAME, F::R);
    let hl = F::R.len();
    let mut es: Vec<Vec<u8>> = vec![];
    let mut put = |x: Vec<u8>| {
        for fill in [0u8, 0xff] {
            let mut x = x.clone();
            x.truncate(hl);
            x.resize(hl, fill);
            es.push(x);
        }
    };
    for i in 0..cx.pick(24u64, 200) {
        put(to_be(&from_u64::<N>(i), T::LEN));
        put(to_be(&add_raw(&n, &from_u64(i)).0, T::LEN));
        put(to_be(&sub_raw(&n, &from_u64(i)).0, T::LEN));
        put(to_be(&c.n.pinv(&from_u64(i + 2)), T::LEN));
    }
    put(vec![0xff; T::LEN]);
    for b in 0..8 * hl {
        let mut x = vec![0; hl];
        x[b / 8] = 0x80 >> (b % 8);
        put(x.clone());
        put(x.iter().map(|b| !b).collect());
    }
    for p in limb_patterns::<N>(&[0, 1, u64::MAX]).into_iter().step_by(cx.pick(if N == 6 { 9 } else { 1 }, 1)) {
        put(to_be(&p, T::LEN));
    }
    es.sort();
    es.dedup();
    let m = b"hash";
    cx.section(&format!("{nm}/chosen-hashes"), es.len(), |i, l| {
        script::clear();
        script::set(F::R, m, &es[i]);
        let e = c.hash_to_scalar(&es[i]);
        let d = c.n.reduce(&from_be(&rng::bytes(i as u64, T::LEN)));
        let v = key::<N, T>(&c.mul_g(&d));
        let k = c.n.reduce(&from_be(&rng::bytes(i as u64 + 7, T::LEN)));
        let what = || format!("hash {}", fw::hex(&es[i]));
        let (r, s) = c.ecdsa_sign(&d, &e, &k).unwrap();
        let ok = fixed::<N, T, script::S<F>>(l, &v, m, &sigb::<N, T>(&r, &s), &what);
        l.check(ok, || "reference".into());
        fixed::<N, T, script::S<F>>(l, &v, m, &sigb::<N, T>(&r, &c.n.neg(&s)), &what);
        // s that lets the hash part, or the key part, be a given multiple
        for t in 1..4u64 {
            let s = c.n.pmul(&e, &c.n.pinv(&from_u64(t)));
            if !is_zero(&s) {
                // u1 = t
                let rp = c.mul_g(&k);
                if let Some((q, r)) = key_for::<N, T>(&rp, &s, &e) {
                    let ok = fixed::<N, T, script::S<F>>(l, &key(&q), m, &sigb::<N, T>(&r, &s), &what);
                    l.check(ok, || "reference".into());
                }
            }
        }
        // the same signature for every other hash of the list nearby: rarely valid
        for j in [i.wrapping_sub(1), i + 1] {
            if let Some(o) = es.get(j) {
                script::clear();
                script::set(F::R, m, o);
                fixed::<N, T, script::S<F>>(l, &v, m, &sigb::<N, T>(&r, &s), &|| format!("hash {} signed {}", fw::hex(o), fw::hex(&es[i])));
            }
        }
    });
    // every bit of the hash the curve's order can hold counts, no other does
    cx.section(&format!("{nm}/hash-bits"), cx.pick(2, 16), |i, l| {
        let h = rng::bytes(i as u64 + 50, hl);
        let d = c.n.reduce(&from_be(&rng::bytes(i as u64, T::LEN)));
        let v = key::<N, T>(&c.mul_g(&d));
        let k = c.n.reduce(&from_be(&rng::bytes(i as u64 + 7, T::LEN)));
        let (r, s) = c.ecdsa_sign(&d, &c.hash_to_scalar(&h), &k).unwrap();
        for b in 0..8 * hl {
            let mut x = h.clone();
            x[b / 8] ^= 0x80 >> (b % 8);
            script::clear();
            script::set(F::R, m, &x);
            let ok = fixed::<N, T, script::S<F>>(l, &v, m, &sigb::<N, T>(&r, &s), &|| format!("bit {b} of the hash changed"));
            l.check(ok == (b >= 8 * T::LEN), || "reference".into());
        }
    });
}

fn main() {
    fw::main("C10", |cx| {
        cx.assume("oracle: FIPS 186-5 verification predicate over independent reference arithmetic and a strict DER reader");
        with::<4, P256, F256>(cx);
        with::<4, P256, F384>(cx);
        with::<4, P256, F512>(cx);
        with::<6, P384, F256>(cx);
        with::<6, P384, F384>(cx);
        with::<6, P384, F512>(cx);
        big_hash::<F256>(cx, BIG_E[0]);
        big_hash::<F384>(cx, BIG_E[1]);
        big_hash::<F512>(cx, BIG_E[2]);
        hashes::<4, P256, F256>(cx);
        hashes::<4, P256, F384>(cx);
        hashes::<4, P256, F512>(cx);
        hashes::<6, P384, F256>(cx);
        hashes::<6, P384, F384>(cx);
        hashes::<6, P384, F512>(cx);
    });
}
