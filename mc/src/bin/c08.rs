//! C08: X25519 is RFC 7748 for every scalar and u-coordinate.
use graviola::key_agreement::x25519::{PrivateKey, PublicKey, StaticPrivateKey};
use mc::edref::c25519;
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::limb_patterns;
use mc::rng::{self, Src, State};

const NINE: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 9;
    b
};

fn public(l: &mut L, k: &[u8; 32], what: &dyn Fn() -> String) {
    let want = c25519().x25519(k, &NINE);
    let sk = StaticPrivateKey::from_array(k);
    l.t(2);
    l.eq(&sk.public_key().as_bytes(), &want, || format!("public key, {}", what()));
    l.check(sk.as_bytes() == *k, || format!("private key bytes, {}", what()));
}
fn agree(l: &mut L, k: &[u8; 32], u: &[u8; 32], what: &dyn Fn() -> String) {
    let want = c25519().x25519(k, u);
    let want = if want == [0; 32] { None } else { Some(want) };
    let got = StaticPrivateKey::from_array(k).diffie_hellman(&PublicKey::from_array(u)).ok().map(|s| s.as_bytes());
    l.t(3);
    l.s(&want.unwrap_or([0; 32]));
    l.check(got == want, || format!("{}: k={} u={} got {:?} want {:?}", what(), fw::hex(k), fw::hex(u), got.map(|x| fw::hex(&x)), want.map(|x| fw::hex(&x))));
}
fn le(v: &[u64; 4]) -> [u8; 32] {
    to_le(v, 32).try_into().unwrap()
}

fn run(cx: &Ctx) {
    let c = c25519();
    let us: Vec<[u8; 32]> = vec![NINE, rng::arr(1), rng::arr(2)];
    // every (position, value) of 4- to 8-bit windows of the scalar, in several surroundings
    let backs: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], rng::arr(3), rng::arr(4)];
    cx.section("scalar-bytes", 32 * 256, |i, l| {
        for b in &backs {
            let mut k = *b;
            k[i / 256] = i as u8;
            public(l, &k, &|| format!("byte {} = {}", i / 256, i % 256));
            agree(l, &k, &us[1], &|| format!("byte {} = {}", i / 256, i % 256));
            if l.failed() {
                return;
            }
        }
        l.note(|| format!("scalar byte {} = {:#x} in {} surroundings", i / 256, i % 256, backs.len()));
    });
    // digits straddling bytes: a 8-bit value at every bit position
    cx.section("scalar-windows", 249 * 16, |i, l| {
        let (pos, hi) = (i / 16, i % 16);
        for lo in 0..cx.pick(4u64, 16) {
            let lo = lo * cx.pick(5, 1);
            let v = (hi as u64) << 4 | lo;
            let mut k = [0u64; 4];
            k[pos / 64] |= v << (pos % 64);
            if pos % 64 > 56 && pos / 64 < 3 {
                k[pos / 64 + 1] |= v >> (64 - pos % 64);
            }
            public(l, &le(&k), &|| format!("value {v:#x} at bit {pos}"));
        }
    });
    // all pairs of bits
    cx.section("scalar-bit-pairs", 256 * 255 / 2, |i, l| {
        let (mut a, mut n) = (0, i);
        while n >= 255 - a {
            n -= 255 - a;
            a += 1;
        }
        let b = a + 1 + n;
        let mut k = [0u8; 32];
        k[a / 8] |= 1 << (a % 8);
        k[b / 8] |= 1 << (b % 8);
        public(l, &k, &|| format!("bits {a},{b}"));
    });
    // runs of ones
    let runs: Vec<(usize, usize)> = (0..256).flat_map(|a| (a + 1..=256).map(move |b| (a, b))).filter(|(a, b)| !cx.quick() || (a + 3 * b) % 4 == 0).collect();
    cx.section("scalar-runs", runs.len(), |i, l| {
        let (a, b) = runs[i];
        let hi = if b == 256 { [0; 4] } else { pow2::<4>(b) };
        let k = le(&sub_raw(&hi, &pow2(a)).0);
        public(l, &k, &|| format!("2^{b}-2^{a}"));
        agree(l, &k, &us[2], &|| format!("2^{b}-2^{a}"));
    });
    // u-coordinates: small, near p, all non-canonical, top bit, powers of two
    let ks: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], rng::arr(5), rng::arr(6)];
    let span = cx.pick(600u64, 6000);
    cx.section("u-edges", 4 * span as usize, |i, l| {
        let v = from_u64::<4>(i as u64 / 4);
        let u = match i % 4 {
            0 => v,
            1 => sub_raw(&c.f.m, &v).0,
            2 => sub_raw(&pow2(255), &add_raw(&v, &from_u64(1)).0).0,
            _ => add_raw(&pow2(255), &v).0,
        };
        for k in &ks {
            agree(l, k, &le(&u), &|| "edge u".into());
        }
        l.note(|| format!("u = {}", fw::hex(&le(&u))));
    });
    cx.section("u-bits", 256 * 8, |i, l| {
        for back in [[0u8; 32], rng::arr(9)] {
            let mut u = back;
            u[i / 8 / 8] ^= 1 << (i / 8 % 8);
            agree(l, &ks[i % 4], &u, &|| format!("u bit {}", i / 8));
            agree(l, &rng::arr(10 + i as u64), &u, &|| format!("u bit {}", i / 8));
        }
    });
    let pats = limb_patterns::<4>(&[0, 1, 1 << 63, u64::MAX, 0x7fffffffffffffff, 38, u64::MAX - 18]);
    cx.section("limb-patterns", pats.len(), |i, l| {
        let p = le(&pats[i]);
        for k in &ks {
            agree(l, k, &p, &|| "u limb pattern".into());
        }
        agree(l, &p, &us[1], &|| "scalar limb pattern".into());
        public(l, &p, &|| "scalar limb pattern".into());
    });
    // points whose small multiples are extreme: u with (u-1)/(u+1) style Edwards y small
    cx.section("edwards-y", cx.pick(500, 5000), |i, l| {
        let y = c.f.small(i as u64 + 2);
        let u = c.f.from(&c.f.mul(&c.f.add(&c.f.one(), &y), &c.f.inv(&c.f.sub(&c.f.one(), &y))));
        for k in &ks {
            agree(l, k, &le(&u), &|| format!("Edwards y = {}", i + 2));
        }
    });
    // shared secrets of every shape: which limbs, bytes, and leading or
    // trailing parts are zero or all ones (the public value is the preimage)
    let mut shapes: Vec<(String, [u64; 4], [u64; 4])> = vec![]; // fixed part, free mask
    for m in 0..81usize {
        let (mut fix, mut free) = ([0u64; 4], [0u64; 4]);
        for (j, d) in [m % 3, m / 3 % 3, m / 9 % 3, m / 27].into_iter().enumerate() {
            match d {
                0 => {}
                1 => fix[j] = u64::MAX,
                _ => free[j] = u64::MAX,
            }
        }
        fix[3] &= u64::MAX >> 1;
        free[3] &= u64::MAX >> 1;
        if free != [0; 4] {
            shapes.push((format!("limb classes {m}"), fix, free));
        }
    }
    for b in 0..32usize {
        let mut one = [0u8; 32];
        one[b] = if b == 31 { 0x7f } else { 0xff };
        let only: [u64; 4] = from_le(&one);
        let rest: [u64; 4] = sub_raw(&pow2(255), &from_u64(1)).0;
        let rest = [rest[0] & !only[0], rest[1] & !only[1], rest[2] & !only[2], rest[3] & !only[3]];
        shapes.push((format!("only byte {b} nonzero"), [0; 4], only));
        shapes.push((format!("byte {b} zero"), [0; 4], rest));
        shapes.push((format!("byte {b} all ones"), only, rest));
        let lo = sub_raw(&pow2::<4>(8 * b), &from_u64(1)).0;
        if b > 0 {
            shapes.push((format!("{} leading zero bytes", 32 - b), [0; 4], lo));
            let hi: [u64; 4] = std::array::from_fn(|j| !lo[j] & if j == 3 { u64::MAX >> 1 } else { u64::MAX });
            shapes.push((format!("{b} trailing zero bytes"), [0; 4], hi));
        }
    }
    cx.section("secret-shapes", shapes.len(), |i, l| {
        let (what, fix, free) = &shapes[i];
        for (ki, k) in ks.iter().enumerate() {
            let mut found = false;
            for t in 0..400u64 {
                let r: [u64; 4] = if free.iter().map(|f| f.count_ones()).sum::<u32>() <= 8 {
                    std::array::from_fn(|j| fix[j] | (t.wrapping_mul(0x0101010101010101) & free[j]))
                } else {
                    let v: [u64; 4] = from_le(&rng::arr::<32>(7000 + t));
                    std::array::from_fn(|j| fix[j] | (v[j] & free[j]))
                };
                if is_zero(&r) || cmp(&r, &c.f.m).is_ge() {
                    continue;
                }
                if let Some(u) = c.preimage(k, &r) {
                    assert_eq!(c.x25519(k, &u), le(&r));
                    agree(l, k, &u, &|| format!("shared secret with {what}"));
                    found = true;
                    break;
                }
            }
            if ki == 0 && found {
                l.note(|| format!("shared secret with {what}, {} scalars", ks.len()));
            }
        }
    });
    // symmetry over all pairs; repeated use; ephemeral keys from the random source
    let n = cx.pick(48usize, 200);
    let keys: Vec<[u8; 32]> = (0..n as u64).map(|i| if i < 4 { ks[i as usize] } else { rng::arr(700 + i) }).collect();
    cx.section("pairs", n * n, |i, l| {
        let (a, b) = (StaticPrivateKey::from_array(&keys[i / n]), StaticPrivateKey::from_array(&keys[i % n]));
        let (pa, pb) = (a.public_key(), b.public_key());
        let x = a.diffie_hellman(&pb).ok().map(|s| s.0);
        let y = b.diffie_hellman(&pa).ok().map(|s| s.0);
        let z = a.diffie_hellman(&pb).ok().map(|s| s.0);
        l.t(5);
        l.check(x.is_some() && x == y && x == z, || format!("pair {} {}", i / n, i % n));
        // ephemeral
        let ((p, s), st) = rng::with(State::new(Src::Bytes(keys[i / n].to_vec())), || {
            let k = PrivateKey::new_random().unwrap();
            (k.public_key().as_bytes(), k.diffie_hellman(&pb).ok().map(|s| s.0))
        });
        l.t(3);
        l.check(p == pa.as_bytes() && s == x && st.calls == [32], || format!("ephemeral {} {}", i / n, i % n));
        let (k, st) = rng::with(State::new(Src::Bytes(keys[i / n].to_vec())), || StaticPrivateKey::new_random().unwrap().as_bytes());
        l.check(k == keys[i / n] && st.calls == [32], || "random static key".into());
        if i % n == 0 {
            public(l, &keys[i / n], &|| "key set".into());
        }
    });
    // iterated use as in RFC 7748 section 5.2, from several starts
    cx.section("iterated", cx.pick(8, 64), |i, l| {
        let mut k: [u8; 32] = if i == 0 { NINE } else { rng::arr(40 + i as u64) };
        let mut u = k;
        for step in 0..cx.pick(400, 2000) {
            let want = c.x25519(&k, &u);
            let got = StaticPrivateKey::from_array(&k).diffie_hellman(&PublicKey::from_array(&u)).ok().map(|s| s.0);
            l.t(1);
            l.s(&want);
            if !l.check(got == Some(want), || format!("start {i} step {step}")) {
                return;
            }
            u = k;
            k = want;
        }
    });
}

fn main() {
    fw::main("C08", |cx| {
        cx.assume("reference: RFC 7748 ladder over an independent Montgomery field (mc/src/edref.rs)");
        run(cx);
    });
}
