//! C09: ML-KEM-768 is FIPS 203.
use graviola::key_agreement::mlkem768::{Ciphertext, DecapKey, EncapKey, Message};
use mc::fw::{self, Ctx, L};
use mc::mlkemref as r;
use mc::rng::{self, Src, State};

fn full(l: &mut L, seed: &[u8; 64], m: &[u8; 32], what: &dyn Fn() -> String) -> Option<(Vec<u8>, Vec<u8>)> {
    let (ek, dk) = r::keygen(seed);
    let k = DecapKey::keygen_internal(seed);
    l.t(5);
    l.eq(&k.encapsulation_key().as_bytes(), &ek, || format!("{}: encapsulation key", what()));
    l.eq(&k.as_bytes(), &dk, || format!("{}: decapsulation key", what()));
    let (ss, ct) = r::encaps(&ek, m);
    let (s1, c1) = k.encapsulation_key().encaps_internal(Message(*m));
    l.eq(c1.as_ref(), &ct, || format!("{}: ciphertext", what()));
    l.eq(s1.as_ref(), &ss, || format!("{}: encapsulated secret", what()));
    match EncapKey::from_bytes(ek[..].try_into().unwrap()) {
        Ok(e) => {
            l.eq(&e.as_bytes(), &ek, || format!("{}: key round trip", what()));
            let (s2, c2) = e.encaps_internal(Message(*m));
            l.eq(c2.as_ref(), &ct, || format!("{}: ciphertext from decoded key", what()));
            l.eq(s2.as_ref(), &ss, || format!("{}: secret from decoded key", what()));
        }
        Err(e) => {
            l.check(false, || format!("{}: own key refused {e:?}", what()));
        }
    }
    let c: [u8; 1088] = ct[..].try_into().unwrap();
    l.eq(k.decaps_internal(&c.into()).as_ref(), &ss, || format!("{}: decapsulated secret", what()));
    l.eq(k.decaps(&c.into()).as_ref(), &ss, || format!("{}: decapsulated secret (consuming)", what()));
    Some((dk, ct))
}

fn enc(l: &mut L, ek: &[u8; 1184], m: &[u8; 32], what: &dyn Fn() -> String) {
    match EncapKey::from_bytes(ek) {
        Ok(e) => {
            let (s, c) = e.encaps_internal(Message(*m));
            let (ss, ct) = r::encaps(ek, m);
            l.t(2);
            l.eq(c.as_ref(), &ct, || format!("{}: ciphertext", what()));
            l.eq(s.as_ref(), &ss, || format!("{}: secret", what()));
        }
        Err(e) => {
            l.check(false, || format!("{}: valid key refused {e:?}", what()));
        }
    }
}

fn run(cx: &Ctx) {
    // seeds: zero, ones, every single bit, a stream
    let n = cx.pick(2000usize, 20000);
    cx.section("seeds", 514 + n, |i, l| {
        let mut seed = [0u8; 64];
        let mut m = [0u8; 32];
        match i {
            0 => {}
            1 => {
                seed = [0xff; 64];
                m = [0xff; 32];
            }
            2..514 => seed[(i - 2) / 8] |= 1 << (i % 8),
            _ => {
                seed = rng::arr(i as u64);
                m = rng::arr(i as u64 + (1 << 32));
            }
        }
        full(l, &seed, &m, &|| format!("seed case {i}"));
        l.note(|| format!("seed case {i}: keygen, encaps, decaps, encodings"));
    });
    // every message bit under a few keys
    cx.section("message-bits", 4 * 256, |i, l| {
        let seed = rng::arr((i / 256) as u64);
        let mut m = if i / 256 % 2 == 0 { [0u8; 32] } else { [0xff; 32] };
        m[i % 256 / 8] ^= 1 << (i % 8);
        full(l, &seed, &m, &|| format!("message bit {}", i % 256));
    });
    // matrix sampling: enumerate rho; make sure every polynomial slot meets the
    // rejection-sampling continuation, alone and together
    let k = cx.pick(6000usize, 60000);
    cx.section("matrix-rho", k, |i, l| {
        let mut ek = [0u8; 1184];
        // t-hat: all ones so that v also depends on nothing else
        for j in 0..384 {
            ek[3 * j] = 1;
            ek[3 * j + 1] = 0x10;
        }
        ek[1152..].copy_from_slice(&rng::arr::<32>(i as u64 ^ 0x5555));
        let need = r::matrix_bytes(&ek[1152..]);
        let mask = need.iter().enumerate().fold(0u64, |a, (j, n)| a | ((*n > 504) as u64) << j);
        l.s64(mask | 1 << 50);
        // those without continuation are the ordinary case: keep one in eight
        if mask == 0 && i % 8 != 0 {
            return;
        }
        enc(l, &ek, &rng::arr(i as u64), &|| format!("rho {i} (continuation mask {mask:b})"));
        l.note(|| format!("rho {i}: slots needing more than three blocks {mask:b}"));
    });
    // extreme and structured t-hat
    let vals = [0u16, 1, 2, 1664, 1665, 3327, 3328];
    let pairs: Vec<(u16, u16)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (*a, *b))).collect();
    cx.section("structured-keys", pairs.len() * 16, |i, l| {
        let (a, b) = pairs[i / 16];
        let mut t = [0u16; 768];
        for (j, x) in t.iter_mut().enumerate() {
            *x = match i % 16 / 4 {
                0 => if j % 2 == 0 { a } else { b },
                1 => if j % 256 < 128 { a } else { b },
                2 => if j / 256 == 1 { a } else { b },
                _ => if j % 32 < 16 { a } else { b },
            };
        }
        let mut ek = vec![];
        for p in t.chunks(256) {
            ek.extend(r::encode(p.try_into().unwrap(), 12));
        }
        ek.extend(rng::arr::<32>((i % 4) as u64));
        let m = match i % 4 {
            0 => [0u8; 32],
            1 => [0xff; 32],
            _ => rng::arr(i as u64),
        };
        enc(l, ek[..].try_into().unwrap(), &m, &|| format!("t-hat pattern {} of {a},{b}", i % 16 / 4));
    });
    // one coefficient at a time: every position, every edge value
    cx.section("single-coefficients", 768, |i, l| {
        for v in [1u16, 3328] {
            let mut t = [0u16; 768];
            t[i] = v;
            let mut ek = vec![];
            for p in t.chunks(256) {
                ek.extend(r::encode(p.try_into().unwrap(), 12));
            }
            ek.extend([7u8; 32]);
            enc(l, ek[..].try_into().unwrap(), &[0; 32], &|| format!("t-hat[{i}] = {v}"));
        }
    });
    // implicit rejection: every single-bit change of honest ciphertexts
    let keys = cx.pick(3usize, 12);
    let fixtures: Vec<(DecapKey, Vec<u8>, Vec<u8>, Vec<u8>)> = (0..keys as u64)
        .map(|s| {
            let seed = rng::arr(s);
            let (ek, dk) = r::keygen(&seed);
            let (ss, ct) = r::encaps(&ek, &rng::bytes(s + 77, 32));
            (DecapKey::keygen_internal(&seed), dk, ct, ss)
        })
        .collect();
    let dec = |l: &mut L, f: &(DecapKey, Vec<u8>, Vec<u8>, Vec<u8>), c: &[u8; 1088], what: &dyn Fn() -> String| {
        let (want, ok) = r::decaps(&f.1, c);
        let got = fw::no_panic(|| *f.0.decaps_internal(&Ciphertext::from(*c)).as_ref());
        l.t(1);
        l.s(&want);
        l.check(got.as_ref().ok().map(|x| &x[..]) == Some(&want[..]), || format!("{}: got {got:?} want {} (accepting {ok})", what(), fw::hex(&want)));
    };
    cx.section("rejection/bit-flips", keys * 8704, |i, l| {
        let f = &fixtures[i / 8704];
        let mut c: [u8; 1088] = f.2[..].try_into().unwrap();
        c[i % 8704 / 8] ^= 1 << (i % 8);
        dec(l, f, &c, &|| format!("key {} ciphertext bit {}", i / 8704, i % 8704));
        l.note(|| format!("ciphertext bit {} flipped", i % 8704));
    });
    // differences in two places (cancelling under xor- or sum-folding compares)
    cx.section("rejection/double-flips", cx.pick(4000, 100000), |i, l| {
        let f = &fixtures[i % keys];
        let mut c: [u8; 1088] = f.2[..].try_into().unwrap();
        let a = (i * 7919) % 1088;
        let b = (a + 1 + (i * 31) % 1087) % 1088;
        let bit = 1u8 << (i % 8);
        c[a] ^= bit;
        c[b] ^= bit;
        dec(l, f, &c, &|| format!("bytes {a},{b} bit {bit:#x}"));
        let mut c: [u8; 1088] = f.2[..].try_into().unwrap();
        c[a] = c[a].wrapping_add(1);
        c[b] = c[b].wrapping_sub(1);
        dec(l, f, &c, &|| format!("byte {a} +1, byte {b} -1"));
        c.swap(a, b);
    });
    cx.section("rejection/uniform", 256 * keys, |i, l| {
        dec(l, &fixtures[i / 256], &[i as u8; 1088], &|| format!("all bytes {}", i % 256));
        let mut c = [i as u8; 1088];
        c[960..].copy_from_slice(&rng::arr::<128>(i as u64));
        dec(l, &fixtures[i / 256], &c, &|| format!("u all {}", i % 256));
        let mut c: [u8; 1088] = rng::arr(i as u64);
        c[960..].fill(i as u8);
        dec(l, &fixtures[i / 256], &c, &|| format!("v all {}", i % 256));
    });
    // ciphertexts for other keys / splices of two honest ciphertexts
    cx.section("rejection/splices", 1089 * 2, |i, l| {
        let f = &fixtures[0];
        let g = &fixtures[1];
        let cut = i / 2;
        let mut c = f.2.clone();
        if i % 2 == 0 {
            c[cut..].copy_from_slice(&g.2[cut..]);
        } else {
            // another honest ciphertext for the same key
            let (_, c2) = r::encaps(&f.1[1152..1152 + 1184], &[9; 32]);
            c[cut..].copy_from_slice(&c2[cut..]);
        }
        dec(l, f, c[..].try_into().unwrap(), &|| format!("splice at {cut}"));
    });
    // cross pairs, repeated decapsulation with one key object
    let many = cx.pick(24usize, 80);
    let ks: Vec<(DecapKey, Vec<u8>, Vec<u8>)> = (0..many as u64)
        .map(|s| {
            let seed = rng::arr(5000 + s);
            let (ek, dk) = r::keygen(&seed);
            (DecapKey::keygen_internal(&seed), ek, dk)
        })
        .collect();
    cx.section("cross", many * many, |i, l| {
        let (a, b) = (&ks[i / many], &ks[i % many]);
        let (s, c) = a.0.encapsulation_key().encaps_internal(Message(rng::arr(i as u64)));
        let (want, ok) = r::decaps(&b.2, c.as_ref());
        l.check(ok == (i / many == i % many), || "reference acceptance".into());
        l.t(2);
        l.eq(b.0.decaps_internal(&c).as_ref(), &want, || format!("encapsulated to {} decapsulated by {}", i / many, i % many));
        if ok {
            l.check(s.as_ref()[..] == want[..], || "secrets differ".into());
        }
    });
    // the public randomised interface draws exactly d||z and m
    cx.section("random-source", 256, |i, l| {
        let seed: [u8; 64] = rng::arr(i as u64);
        let m: [u8; 32] = rng::arr(i as u64 + 1000);
        let (ek, dk) = r::keygen(&seed);
        let (k, st) = rng::with(State::new(Src::Bytes(seed.to_vec())), DecapKey::generate);
        l.t(2);
        match k {
            Ok(k) => {
                l.eq(&k.as_bytes(), &dk, || "generated key".into());
                l.check(st.pos == 64, || format!("consumed {}", st.pos));
                let (e, st) = rng::with(State::new(Src::Bytes(m.to_vec())), || k.encapsulation_key().encaps());
                let (ss, ct) = r::encaps(&ek, &m);
                match e {
                    Ok((s, c)) => {
                        l.eq(s.as_ref(), &ss, || "secret".into());
                        l.eq(c.as_ref(), &ct, || "ciphertext".into());
                        l.eq(k.decaps(&c).as_ref(), &ss, || "decapsulated".into());
                        l.check(st.pos == 32, || format!("consumed {}", st.pos));
                    }
                    Err(e) => {
                        l.check(false, || format!("{e:?}"));
                    }
                }
            }
            Err(e) => {
                l.check(false, || format!("{e:?}"));
            }
        }
    });
}

fn main() {
    fw::main("C09", |cx| {
        cx.assume("reference: FIPS 203 pseudo-code, written independently (mc/src/mlkemref.rs); DecapKey::keygen_internal / decaps_internal / EncapKey::encaps_internal are the crate's doc-hidden derandomised interface");
        run(cx);
    });
}
