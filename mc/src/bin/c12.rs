//! C12: Ed25519 signs per RFC 8032; verification accepts exactly valid signatures.
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use mc::edref::c25519;
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::limb_patterns;
use mc::rng::{self, Src, State};

/// verification outcome of the implementation: None = key refused
fn imp(a: &[u8], sig: &[u8], m: &[u8]) -> Result<Option<bool>, String> {
    fw::no_panic(|| Ed25519VerifyingKey::from_bytes(a).ok().map(|k| k.verify(sig, m).is_ok()))
}
fn ver(l: &mut L, a: &[u8; 32], sig: &[u8], m: &[u8], what: &dyn Fn() -> String) -> Option<bool> {
    let want = c25519().verify(a, sig, m);
    let got = imp(a, sig, m);
    l.t(2);
    l.s(&[&a[..], sig].concat());
    l.check(got == Ok(want), || {
        format!("{}: key {} sig {} msg {}: got {got:?} want {want:?}", what(), fw::hex(a), fw::hex(sig), fw::hex(m))
    });
    want
}
fn signs(l: &mut L, seed: &[u8; 32], m: &[u8], what: &dyn Fn() -> String) {
    let c = c25519();
    l.t(3);
    let Ok(k) = Ed25519SigningKey::from_bytes(seed) else {
        l.check(false, || format!("{}: seed refused", what()));
        return;
    };
    let a = c.public(seed);
    l.eq(&k.public_key().as_bytes(), &a, || format!("{}: public key", what()));
    let s = k.sign(m);
    l.eq(&s, &c.sign(seed, m), || format!("{}: signature", what()));
    l.check(imp(&a, &s, m) == Ok(Some(true)), || format!("{}: own signature rejected", what()));
    l.check(k.public_key().verify(&s, m).is_ok(), || format!("{}: own key rejects", what()));
    l.check(k.sign(m) == s, || format!("{}: not deterministic", what()));
}

fn run(cx: &Ctx) {
    let c = c25519();
    // signing: seeds and message lengths
    cx.section("sign/message-lengths", cx.pick(400, 2000), |n, l| {
        signs(l, &rng::arr(1), &rng::bytes(2, n), &|| format!("message of {n} bytes"));
        signs(l, &rng::arr(n as u64), &rng::bytes(3, n), &|| format!("seed {n}, message of {n} bytes"));
    });
    cx.section("sign/seeds", cx.pick(3000, 30000), |i, l| {
        let mut seed = [0u8; 32];
        match i {
            0 => {}
            1 => seed = [0xff; 32],
            2..258 => seed[(i - 2) / 8] |= 1 << (i % 8),
            _ => seed = rng::arr(i as u64),
        }
        signs(l, &seed, b"abc", &|| format!("seed case {i}"));
        l.note(|| format!("seed {}", fw::hex(&seed)));
    });
    cx.section("sign/generated", 64, |i, l| {
        let seed = rng::arr::<32>(i as u64 + 4000);
        let (k, st) = rng::with(State::new(Src::Bytes(seed.to_vec())), Ed25519SigningKey::generate);
        l.t(1);
        match k {
            Ok(k) => {
                l.eq(&k.public_key().as_bytes(), &c.public(&seed), || "generated key".into());
                l.eq(&k.sign(b"m"), &c.sign(&seed, b"m"), || "signature by generated key".into());
                l.check(st.pos == 32, || "consumption".into());
            }
            Err(e) => {
                l.check(false, || format!("{e:?}"));
            }
        }
    });
    cx.section("seed-lengths", 130, |n, l| {
        l.t(2);
        l.s64(n as u64);
        l.check(fw::no_panic(|| Ed25519SigningKey::from_bytes(&vec![1; n]).is_ok()) == Ok(n == 32), || format!("seed of {n} bytes"));
        // 32 bytes that decode, extended or cut
        let b: Vec<u8> = c.public(&[1; 32]).iter().copied().cycle().take(n).collect();
        l.check(fw::no_panic(|| Ed25519VerifyingKey::from_bytes(&b).is_ok()) == Ok(n == 32), || format!("public key of {n} bytes"));
    });
    // alterations of honest signatures: every bit of key, signature, message
    let fx: Vec<([u8; 32], [u8; 64], Vec<u8>)> = (0..cx.pick(4u64, 20))
        .map(|s| {
            let seed = rng::arr(s + 60);
            let m = rng::bytes(s, [0, 5, 64, 200][s as usize % 4]);
            (c.public(&seed), c.sign(&seed, &m), m)
        })
        .collect();
    cx.section("verify/bit-flips", fx.len() * 1000, |i, l| {
        let (a, s, m) = &fx[i / 1000];
        let k = i % 1000;
        let (mut a, mut s, mut m) = (*a, *s, m.clone());
        if k < 256 {
            a[k / 8] ^= 1 << (k % 8);
        } else if k < 768 {
            s[(k - 256) / 8] ^= 1 << (k % 8);
        } else if (k - 768) / 8 < m.len() {
            m[(k - 768) / 8] ^= 1 << (k % 8);
        }
        ver(l, &a, &s, &m, &|| format!("fixture {} flip {k}", i / 1000));
    });
    cx.section("verify/lengths", fx.len() * 130, |i, l| {
        let (a, s, m) = &fx[i / 130];
        let n = i % 130;
        let b: Vec<u8> = s.iter().copied().cycle().take(n).collect();
        ver(l, a, &b, m, &|| format!("signature of {n} bytes"));
        let mut b = s.to_vec();
        b.resize(n, 0);
        ver(l, a, &b, m, &|| format!("signature resized to {n} bytes"));
    });
    // s + k*l for all k that fit, and s around multiples of l
    cx.section("verify/malleated-s", fx.len() * 16, |i, l| {
        let (a, s, m) = &fx[i / 16];
        let mut v: [u64; 4] = from_le(&s[32..]);
        for _ in 0..i % 16 {
            let (w, o) = add_raw(&v, &c.l.m);
            if o {
                return;
            }
            v = w;
        }
        let mut t = *s;
        t[32..].copy_from_slice(&to_le(&v, 32));
        ver(l, a, &t, m, &|| format!("s + {} l", i % 16));
        // -s mod l with each sign of R
        let n = c.l.neg(&from_le(&s[32..]));
        let mut t = *s;
        t[32..].copy_from_slice(&to_le(&n, 32));
        t[31] ^= (i as u8 & 1) << 7;
        ver(l, a, &t, m, &|| "negated".into());
    });
    // public keys: decoding of every small / near-p / non-canonical y, both signs
    let span = cx.pick(3000u64, 50000);
    cx.section("keys/y-edges", 3 * span as usize, |i, l| {
        let v = from_u64::<4>(i as u64 / 3);
        let y = match i % 3 {
            0 => v,
            1 => sub_raw(&c.f.m, &v).0,
            _ => sub_raw(&pow2(255), &add_raw(&v, &from_u64(1)).0).0,
        };
        for sign in [0u8, 0x80] {
            let mut b: [u8; 32] = to_le(&y, 32).try_into().unwrap();
            b[31] ^= sign;
            let want = c.decode(&b).is_some();
            let got = fw::no_panic(|| Ed25519VerifyingKey::from_bytes(&b).map(|k| k.as_bytes()).ok());
            l.t(1);
            l.s(&b);
            l.check(got == Ok(if want { Some(b) } else { None }), || format!("key {}: {got:?}, valid {want}", fw::hex(&b)));
            // an invalid or valid signature under it: agreement with the reference
            let mut sig = [0u8; 64];
            sig[0] = 1;
            ver(l, &b, &sig, b"", &|| "identity R, s = 0".into());
        }
        l.note(|| format!("y = {}", fw::hex(&to_be(&y, 32))));
    });
    let pats = limb_patterns::<4>(&[0, 1, 1 << 63, u64::MAX, 0x7fffffffffffffff, u64::MAX - 18, u64::MAX - 19]);
    cx.section("keys/limb-patterns", pats.len(), |i, l| {
        let b: [u8; 32] = to_le(&pats[i], 32).try_into().unwrap();
        let want = c.decode(&b).is_some();
        let got = fw::no_panic(|| Ed25519VerifyingKey::from_bytes(&b).is_ok());
        l.t(1);
        l.s(&b);
        l.check(got == Ok(want), || format!("key {}: {got:?}, valid {want}", fw::hex(&b)));
    });
    // valid signatures made with small-order and mixed-order keys let s sweep
    // every window of the base-point and variable-point multiplication
    let t8 = c.order8();
    let small: Vec<mc::edref::Ed> = (0..8u64).map(|k| c.mul(&from_u64(k), &t8)).collect();
    // given A of small order and s: find message making (R, s) valid
    let craft = |j: usize, s: &[u64; 4], salt: u64| -> ([u8; 32], [u8; 64], Vec<u8>) {
        let a = small[j];
        let ab = c.encode(&a);
        let sb = c.mul(s, &c.b);
        for ctr in 0u64.. {
            let m = (salt << 32 | ctr).to_le_bytes().to_vec();
            let want = ctr % 8;
            // R = sB - (want)A ; valid iff challenge = want (mod order of A)
            let r = c.encode(&c.add(&sb, &c.mul(&from_u64(want), &c.neg(&a))));
            let h = c.challenge(&r, &ab, &m);
            let ra = c.encode(&c.mul(&h, &a));
            if ra == c.encode(&c.mul(&from_u64(want), &a)) {
                let mut sig = [0u8; 64];
                sig[..32].copy_from_slice(&r);
                sig[32..].copy_from_slice(&to_le(s, 32));
                return (ab, sig, m);
            }
        }
        unreachable!()
    };
    cx.section("verify/s-windows", 64 * 16, |i, l| {
        let (w, d) = (i / 16, (i % 16) as u64);
        for back in 0..cx.pick(2u64, 6) {
            let b = if back == 0 { [0; 4] } else { c.l.reduce(&rng_limbs(back)) };
            let mut v = [0u64; 4];
            v[w / 16] = d << (4 * (w % 16));
            let s = c.l.add(&c.l.reduce(&v), &b);
            for j in [0usize, 1, 4] {
                let (a, sig, m) = craft(j, &s, (i * 8 + j) as u64);
                let r = ver(l, &a, &sig, &m, &|| format!("s window {w} digit {d}, key of small order {j}"));
                l.check(r == Some(true), || "crafted signature should be valid".into());
                // and its neighbour is not
                let mut bad = sig;
                bad[32] ^= 1;
                ver(l, &a, &bad, &m, &|| "neighbour".into());
            }
        }
        l.note(|| format!("s window {w} digit {d}"));
    });
    // s at the ends of its range
    cx.section("verify/s-edges", 128, |i, l| {
        let d = from_u64::<4>(i as u64 / 2);
        let s = if i % 2 == 0 { d } else { c.l.neg(&d) };
        for j in 0..8 {
            let (a, sig, m) = craft(j, &s, (i * 8 + j) as u64 | 1 << 20);
            ver(l, &a, &sig, &m, &|| format!("s edge {i}, small-order key {j}"));
            // the same s plus l is never valid
            let (up, o) = add_raw(&s, &c.l.m);
            if !o {
                let mut t = sig;
                t[32..].copy_from_slice(&to_le(&up, 32));
                ver(l, &a, &t, &m, &|| format!("s edge {i} + l"));
            }
        }
        // s >= l with the right R for an out-of-range s
        for k in 0..4u64 {
            let (v, _) = add_raw(&c.l.m, &from_u64(k));
            let (a, sig, m) = craft(i % 8, &v, (i as u64) << 4 | k | 1 << 21);
            ver(l, &a, &sig, &m, &|| format!("s = l + {k}"));
        }
        let v = sub_raw(&[0; 4], &from_u64(1 + i as u64)).0;
        let (a, sig, m) = craft(i % 8, &v, i as u64 | 1 << 22);
        ver(l, &a, &sig, &m, &|| "s near 2^256".into());
        for bit in 252..256 {
            let (v, o) = add_raw(&s, &pow2(bit));
            if o {
                continue;
            }
            let (a, sig, m) = craft(i % 8, &v, (i * 8 + bit) as u64 | 1 << 23);
            ver(l, &a, &sig, &m, &|| format!("s + 2^{bit}"));
        }
    });
    // small-order keys x small-order R (canonical and every other encoding), s = 0
    let mut rs: Vec<[u8; 32]> = small.iter().map(|p| c.encode(p)).collect();
    // non-canonical encodings of the same points
    let mut extra = vec![];
    for e in &rs {
        let mut f = *e;
        f[31] ^= 0x80;
        extra.push(f);
        let mut yb = *e;
        yb[31] &= 0x7f;
        let (w, o) = add_raw(&from_le::<4>(&yb), &c.f.m);
        if !o && !bit(&w, 255) {
            for sg in [0, 0x80] {
                let mut f: [u8; 32] = to_le(&w, 32).try_into().unwrap();
                f[31] |= sg;
                extra.push(f);
            }
        }
    }
    rs.extend(extra);
    let ks = rs.clone();
    let nr = rs.len();
    cx.section("verify/small-order", nr * nr, |i, l| {
        for ctr in 0..cx.pick(24u64, 200) {
            let mut sig = [0u8; 64];
            sig[..32].copy_from_slice(&rs[i % nr]);
            ver(l, &ks[i / nr], &sig, &ctr.to_le_bytes(), &|| format!("small-order key {} R {}", i / nr, i % nr));
        }
    });
    // mixed-order keys: A' = A + T; cofactorless check must distinguish
    cx.section("verify/mixed-order", 8 * cx.pick(60, 400), |i, l| {
        let seed: [u8; 32] = rng::arr(i as u64 / 8 + 9000);
        let (sc, _) = c.clamped(&seed);
        let a = c.add(&c.mul(&sc, &c.b), &small[i % 8]);
        let ab = c.encode(&a);
        let r: [u64; 4] = c.l.reduce(&rng_limbs(i as u64));
        let m = (i as u64).to_le_bytes();
        for j in 0..8 {
            // R with a torsion part; s closes the prime-order part only
            let rb = c.encode(&c.add(&c.mul(&r, &c.b), &small[j]));
            let k = c.challenge(&rb, &ab, &m);
            let s = c.l.add(&c.l.pmul(&k, &c.l.reduce(&sc)), &r);
            let mut sig = [0u8; 64];
            sig[..32].copy_from_slice(&rb);
            sig[32..].copy_from_slice(&to_le(&s, 32));
            ver(l, &ab, &sig, &m, &|| format!("key torsion {} R torsion {j}", i % 8));
        }
    });
    // all (key, message, signature) cross combinations
    let nf = fx.len();
    cx.section("verify/cross", nf * nf * nf, |i, l| {
        ver(l, &fx[i % nf].0, &fx[i / nf % nf].1, &fx[i / nf / nf].2, &|| format!("cross {i}"));
    });
    // R altered to an equivalent-looking encoding
    cx.section("verify/r-values", 512, |i, l| {
        let (a, s, m) = &fx[0];
        let mut t = *s;
        t[..32].copy_from_slice(&if i < 256 { [i as u8; 32] } else { rng::arr(i as u64) });
        ver(l, a, &t, m, &|| format!("R case {i}"));
    });
}
fn rng_limbs(s: u64) -> [u64; 4] {
    from_be(&rng::bytes(s + 31337, 32))
}

fn main() {
    fw::main("C12", |cx| {
        cx.assume("reference: RFC 8032 cofactorless verification with canonical point decoding, complete Edwards addition (mc/src/edref.rs)");
        run(cx);
    });
}
