//! C06: P-256 / P-384 key agreement is the exact group operation.
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::*;
use mc::rng::{self, Src, State};

fn dh_case<const N: usize, T: Nist<N>>(l: &mut L, k: &[u64; N], p: &mc::ec::Aff<N>, pk: &T::Pk, what: &dyn Fn() -> String) {
    let c = T::c();
    let kb = to_be(k, T::LEN);
    l.t(3);
    let sk = match T::sk(&kb) {
        Ok(s) => s,
        Err(e) => {
            l.check(false, || format!("{}: private key refused: {e:?}", what()));
            return;
        }
    };
    let want = c.mul(k, p);
    let want = to_be(&want.unwrap().0, T::LEN);
    match T::dh(&sk, pk) {
        Ok(v) => {
            l.eq(&v, &want, || format!("shared secret, {}", what()));
        }
        Err(e) => {
            l.check(false, || format!("{}: agreement failed: {e:?}", what()));
        }
    }
}
fn pub_case<const N: usize, T: Nist<N>>(l: &mut L, k: &[u64; N], what: &dyn Fn() -> String) {
    let c = T::c();
    let kb = to_be(k, T::LEN);
    l.t(3);
    match T::sk(&kb) {
        Ok(s) => {
            l.eq(&T::sk_bytes(&s), &kb, || format!("private key bytes, {}", what()));
            l.eq(&T::sk_pub(&s), &c.enc(&c.mul_g(k)), || format!("public key, {}", what()));
        }
        Err(e) => {
            l.check(false, || format!("{}: private key refused: {e:?}", what()));
        }
    }
}

fn curve<const N: usize, T: Nist<N>>(cx: &Ctx) {
    let c = T::c();
    let bits = 8 * T::LEN;
    let n = c.n.m;
    let nm = T::NAME;
    // scalar near both ends of the range
    let edge = cx.pick(512u64, 8192);
    cx.section(&format!("{nm}/public/edges"), 2 * edge as usize, |i, l| {
        let d = 1 + (i as u64) / 2;
        let k = if i % 2 == 0 { from_u64(d) } else { sub_raw(&n, &from_u64(d)).0 };
        pub_case::<N, T>(l, &k, &|| format!("scalar {}{d}", if i % 2 == 0 { "" } else { "n-" }));
        l.note(|| format!("scalar {}{d}", if i % 2 == 0 { "" } else { "n-" }));
    });
    // a fixed variable point for scalar sweeps
    let q0 = c.mul_g(&from_u64(0x1234567));
    let pk0 = T::pk(&c.enc(&q0)).ok().expect("valid point");
    cx.section(&format!("{nm}/agreement/edges"), 2 * edge as usize, |i, l| {
        let d = 1 + (i as u64) / 2;
        let k = if i % 2 == 0 { from_u64(d) } else { sub_raw(&n, &from_u64(d)).0 };
        dh_case::<N, T>(l, &k, &q0, &pk0, &|| format!("scalar {}{d}", if i % 2 == 0 { "" } else { "n-" }));
    });
    // every (window, digit) of both recodings, in several surroundings
    let backs: Vec<[u64; N]> = {
        let mut v: Vec<[u64; N]> = vec![[0; N]];
        for s in 0..cx.pick(2u64, 6) {
            v.push(c.n.reduce(&from_be(&rng::bytes(100 + s, T::LEN))));
        }
        v
    };
    for (w, which) in [(7usize, "public"), (5, "agreement")] {
        if N == 6 && w == 7 {
            continue;
        }
        let wins = bits.div_ceil(w) + 1;
        let half = 1i64 << (w - 1);
        let digits: Vec<i64> = (-half..=half).filter(|d| *d != 0).collect();
        cx.section(&format!("{nm}/{which}/window{w}-digits"), wins * digits.len(), |i, l| {
            let (win, d) = (i / digits.len(), digits[i % digits.len()]);
            let t = c.window(d, win * w);
            for (bi, b) in backs.iter().enumerate() {
                let k = c.scalar_add(&t, b);
                if is_zero(&k) {
                    continue;
                }
                let what = || format!("window {win} digit {d} background {bi}");
                if which == "public" {
                    pub_case::<N, T>(l, &k, &what);
                } else {
                    dh_case::<N, T>(l, &k, &q0, &pk0, &what);
                    if N == 6 {
                        pub_case::<N, T>(l, &k, &what);
                    }
                }
                if l.failed() {
                    return;
                }
            }
            l.note(|| format!("window {win}, digit {d}, {} surroundings", backs.len()));
        });
        // all values of two adjacent windows (carries between digits)
        let vals = 1usize << w;
        let step = cx.pick(if w == 7 { 4 } else { 2 }, 1);
        cx.section(&format!("{nm}/{which}/window{w}-pairs"), wins * vals, |i, l| {
            let (win, a) = (i / vals, i % vals);
            for b in (a % step..vals).step_by(step) {
                let v = (a | b << w) as i64;
                let k = c.window(v, win * w);
                if is_zero(&k) || win * w + 2 * w > bits {
                    continue;
                }
                let what = || format!("windows {win},{} = {a},{b}", win + 1);
                if which == "public" {
                    pub_case::<N, T>(l, &k, &what);
                } else {
                    dh_case::<N, T>(l, &k, &q0, &pk0, &what);
                }
                if l.failed() {
                    return;
                }
            }
        });
    }
    // single bits and runs of ones
    let runs: Vec<(usize, usize)> = (0..bits)
        .flat_map(|a| (a + 1..=bits).map(move |b| (a, b)))
        .filter(|(a, b)| b - a <= 2 || !cx.quick() || (a * 31 + b) % 8 == 0)
        .collect();
    cx.section(&format!("{nm}/runs-of-ones"), runs.len(), |i, l| {
        let (a, b) = runs[i];
        // 2^b - 2^a
        let hi = if b == bits { [0; N] } else { pow2(b) };
        let k = sub_raw(&hi, &pow2(a)).0;
        if cmp(&k, &n).is_ge() {
            return;
        }
        pub_case::<N, T>(l, &k, &|| format!("2^{b}-2^{a}"));
        dh_case::<N, T>(l, &k, &q0, &pk0, &|| format!("2^{b}-2^{a}"));
    });
    // scalars with limbs from a small alphabet
    let alpha: &[u64] = if N == 4 { &[0, 1, 1 << 63, u64::MAX, 0x5555555555555555] } else { &[0, 1, u64::MAX] };
    let pats = limb_patterns::<N>(alpha);
    cx.section(&format!("{nm}/scalar-limb-patterns"), pats.len(), |i, l| {
        let k = pats[i];
        if is_zero(&k) || cmp(&k, &n).is_ge() {
            return;
        }
        pub_case::<N, T>(l, &k, &|| format!("limbs {k:x?}"));
        dh_case::<N, T>(l, &k, &q0, &pk0, &|| format!("limbs {k:x?}"));
    });
    // points: coordinates at extremes, in plain and in Montgomery form
    let few: Vec<[u64; N]> = {
        let mut v: Vec<[u64; N]> = (1..=33u64).map(from_u64).collect();
        v.push(sub_raw(&n, &from_u64(1)).0);
        v.push(sub_raw(&n, &from_u64(2)).0);
        for s in 0..2 {
            v.push(c.n.reduce(&from_be(&rng::bytes(7 + s, T::LEN))));
        }
        v
    };
    let point_case = |p: &mc::ec::Aff<N>, ks: &[[u64; N]], l: &mut L, what: &dyn Fn() -> String| {
        let enc = c.enc(p);
        l.t(2);
        match T::pk(&enc) {
            Ok(pk) => {
                l.eq(&T::pk_bytes(&pk), &enc, || format!("re-encoding of {}", what()));
                for k in ks {
                    dh_case::<N, T>(l, k, p, &pk, &|| format!("{} times {}", what(), fw::hex(&to_be(k, T::LEN))));
                }
            }
            Err(e) => {
                l.check(false, || format!("valid point refused ({e:?}): {}", what()));
            }
        }
    };
    let xs = cx.pick(400usize, 3000);
    cx.section(&format!("{nm}/points/x-edges"), 4 * xs, |i, l| {
        let v = from_u64((i / 4) as u64);
        let x = match i % 4 {
            0 => v,
            1 => sub_raw(&c.f.m, &add_raw(&v, &from_u64(1)).0).0,
            2 => c.f.from(&v),
            _ => c.f.from(&sub_raw(&c.f.m, &add_raw(&v, &from_u64(1)).0).0),
        };
        for p in c.both(&x) {
            point_case(&p, &few[..], l, &|| format!("point with x = {}", fw::hex(&to_be(&x, T::LEN))));
        }
        l.note(|| format!("x = {} (if on curve), both y, {} scalars", fw::hex(&to_be(&x, T::LEN)), few.len()));
    });
    let ys = cx.pick(60usize, 500);
    cx.section(&format!("{nm}/points/y-edges"), 2 * ys, |i, l| {
        let v = from_u64::<N>((i / 2) as u64);
        let y = if i % 2 == 0 { v } else { c.f.from(&v) };
        if let Some(x) = c.solve_y(&y) {
            let p = Some((x, y));
            assert!(c.on_curve(&x, &y));
            point_case(&p, &few[..], l, &|| format!("point with y = {}", fw::hex(&to_be(&y, T::LEN))));
            let p = c.neg(&p);
            point_case(&p, &few[..], l, &|| format!("point with -y = {}", fw::hex(&to_be(&y, T::LEN))));
        }
    });
    let alpha: &[u64] = if N == 4 {
        &[0, 1, 2, 1 << 63, u64::MAX, u64::MAX - 1, 0x00000000ffffffff, 0xffffffff00000000]
    } else {
        &[0, 1, u64::MAX, 0x00000000ffffffff]
    };
    let pats = limb_patterns::<N>(alpha);
    cx.section(&format!("{nm}/points/limb-patterns"), 2 * pats.len(), |i, l| {
        let v = pats[i / 2];
        if cmp(&v, &c.f.m).is_ge() {
            return;
        }
        let x = if i % 2 == 0 { v } else { c.f.from(&v) };
        for p in c.both(&x) {
            point_case(&p, &few[1..cx.pick(4, 35)], l, &|| format!("point with x = {}", fw::hex(&to_be(&x, T::LEN))));
        }
    });
    // shared secrets of every shape: the peer is the preimage of a point whose
    // x-coordinate has zero or all-ones limbs, or leading or trailing zeros
    let mut shapes: Vec<([u64; N], [u64; N])> = vec![];
    for m in 0..3usize.pow(N as u32) {
        let (mut fix, mut free, mut q) = ([0u64; N], [0u64; N], m);
        for j in 0..N {
            match q % 3 {
                0 => {}
                1 => fix[j] = u64::MAX,
                _ => free[j] = u64::MAX,
            }
            q /= 3;
        }
        if !is_zero(&free) {
            shapes.push((fix, free));
        }
    }
    for b in 0..T::LEN {
        let mut one = vec![0u8; T::LEN];
        one[b] = 0xff;
        let only: [u64; N] = from_le(&one);
        shapes.push(([0; N], only));
        shapes.push(([0; N], only.map(|x| !x)));
        shapes.push((only, only.map(|x| !x)));
        if b > 0 {
            let lo = sub_raw(&pow2::<N>(8 * b), &from_u64(1)).0;
            shapes.push(([0; N], lo));
            shapes.push(([0; N], lo.map(|x| !x)));
        }
    }
    let sks: Vec<[u64; N]> = vec![from_u64(1), few[few.len() - 1], few[few.len() - 2]];
    cx.section(&format!("{nm}/secret-shapes"), shapes.len(), |i, l| {
        let (fix, free) = &shapes[i];
        for t in 0..200u64 {
            let v: [u64; N] = if free.iter().map(|f| f.count_ones()).sum::<u32>() <= 8 {
                [t.wrapping_mul(0x0101010101010101); N]
            } else {
                from_le(&rng::bytes(9000 + t, T::LEN))
            };
            let x: [u64; N] = std::array::from_fn(|j| fix[j] | (v[j] & free[j]));
            let p = c.lift_x(&x);
            if p.is_none() {
                continue;
            }
            for k in &sks {
                let q = c.mul(&c.n.pinv(k), &p);
                let what = || format!("shared secret {}", fw::hex(&to_be(&x, T::LEN)));
                point_case(&q, &[*k], l, &what);
            }
            l.note(|| format!("shared secret x = {}, {} scalars", fw::hex(&to_be(&x, T::LEN)), sks.len()));
            return;
        }
    });
    // small multiples of the generator as peers: exceptional relations with G
    let ms = cx.pick(96usize, 400);
    cx.section(&format!("{nm}/points/multiples"), 2 * ms, |i, l| {
        let m = from_u64((1 + i / 2) as u64);
        let m = if i % 2 == 0 { m } else { sub_raw(&n, &m).0 };
        point_case(&c.mul_g(&m), &few[..], l, &|| format!("point {}G", fw::hex(&to_be(&m, T::LEN))));
    });
    // both parties agree, all pairs of a key set; static and ephemeral, from
    // the scripted random source including candidates that must be skipped
    let keys: Vec<[u64; N]> = {
        let mut v = few.clone();
        for s in 0..cx.pick(12, 40) {
            v.push(c.n.reduce(&from_be(&rng::bytes(500 + s, T::LEN))));
        }
        v
    };
    cx.section(&format!("{nm}/agreement/pairs"), keys.len() * keys.len(), |i, l| {
        let (a, b) = (&keys[i / keys.len()], &keys[i % keys.len()]);
        let (sa, sb) = (T::sk(&to_be(a, T::LEN)), T::sk(&to_be(b, T::LEN)));
        let (Ok(sa), Ok(sb)) = (sa, sb) else {
            l.check(false, || "valid key refused".into());
            return;
        };
        let (Ok(pa), Ok(pb)) = (T::pk(&T::sk_pub(&sa)), T::pk(&T::sk_pub(&sb))) else {
            l.check(false, || "own public key refused".into());
            return;
        };
        l.t(6);
        let x = T::dh(&sa, &pb);
        let y = T::dh(&sb, &pa);
        l.check(matches!((&x, &y), (Ok(x), Ok(y)) if x == y), || format!("parties {} {} disagree", i / keys.len(), i % keys.len()));
        // using a key twice gives the same answer
        l.check(T::dh(&sa, &pb).ok() == x.ok(), || "second use differs".into());
    });
    let bad: Vec<Vec<u8>> = vec![vec![0; T::LEN], to_be(&n, T::LEN), vec![0xff; T::LEN], to_be(&add_raw(&n, &from_u64(1)).0, T::LEN)];
    cx.section(&format!("{nm}/random-keys"), 5 * keys.len(), |i, l| {
        let k = &keys[i / 5];
        let mut script = vec![];
        for j in 0..i % 5 {
            script.extend_from_slice(&bad[(i + j) % 4]);
        }
        script.extend(to_be(k, T::LEN));
        let want_pub = c.enc(&c.mul_g(k));
        let (r, st) = rng::with(State::new(Src::Bytes(script.clone())), || T::sk_random());
        l.t(1);
        match r {
            Ok(sk) => {
                l.eq(&T::sk_bytes(&sk), &to_be(k, T::LEN), || format!("random key after {} unusable candidates", i % 5));
                l.eq(&T::sk_pub(&sk), &want_pub, || "public key".into());
            }
            Err(e) => {
                l.check(false, || format!("generation failed: {e:?}"));
            }
        }
        l.check(st.pos == script.len(), || format!("consumed {} of {} bytes", st.pos, script.len()));
        let (r, _) = rng::with(State::new(Src::Bytes(script)), || T::ephemeral(&pk0));
        l.t(3);
        match r {
            Ok((p, Ok(s))) => {
                l.eq(&p, &want_pub, || "ephemeral public key".into());
                l.eq(&s, &to_be(&c.mul(k, &q0).unwrap().0, T::LEN), || "ephemeral shared secret".into());
            }
            _ => {
                l.check(false, || "ephemeral generation or agreement failed".into());
            }
        }
    });
}

fn main() {
    fw::main("C06", |cx| {
        cx.assume("reference: independent affine/Jacobian big-integer group law (mc/src/ec.rs)");
        curve::<4, P256>(cx);
        curve::<6, P384>(cx);
    });
}
