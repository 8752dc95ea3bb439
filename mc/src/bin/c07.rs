//! C07: invalid public values and out-of-range private scalars are refused,
//! valid ones accepted, through every way of loading them.
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::ecdsa::{SigningKey, VerifyingKey};
use mc::der;
use mc::edref::c25519;
use mc::fw::{self, Ctx, L};
use mc::mont::*;
use mc::nist::*;
use mc::rng;

fn valid_point<const N: usize, T: Nist<N>>(b: &[u8]) -> bool {
    let c = T::c();
    b.len() == 1 + 2 * T::LEN && b[0] == 4 && c.on_curve(&from_be(&b[1..1 + T::LEN]), &from_be(&b[1 + T::LEN..]))
}
fn point<const N: usize, T: Sig<N>>(l: &mut L, b: &[u8], what: &dyn Fn() -> String) {
    let want = valid_point::<N, T>(b);
    l.t(2);
    l.s(b);
    let got = fw::no_panic(|| T::pk(b).is_ok());
    l.check(got == Ok(want), || format!("{}: key-agreement public key {} -> {got:?}, valid is {want}", what(), fw::hex(b)));
    let got = fw::no_panic(|| VerifyingKey::<T::C>::from_x962_uncompressed(b).is_ok());
    l.check(got == Ok(want), || format!("{}: ECDSA public key {} -> {got:?}, valid is {want}", what(), fw::hex(b)));
}
fn scalar<const N: usize, T: Sig<N>>(l: &mut L, b: &[u8], what: &dyn Fn() -> String) {
    let c = T::c();
    let cut: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    let want = cut.len() <= T::LEN && !cut.is_empty() && cmp(&from_be(&cut), &c.n.m).is_lt();
    l.t(3);
    l.s(b);
    let canon = || {
        let mut v = vec![0; T::LEN - cut.len()];
        v.extend_from_slice(&cut);
        v
    };
    match fw::no_panic(|| T::sk(b)) {
        Ok(Ok(k)) => {
            l.check(want, || format!("{}: scalar {} accepted", what(), fw::hex(b)));
            if want {
                l.eq(&T::sk_bytes(&k), &canon(), || format!("{}: scalar changed", what()));
            }
        }
        Ok(Err(e)) => {
            l.check(!want, || format!("{}: scalar {} refused: {e:?}", what(), fw::hex(b)));
        }
        Err(p) => {
            l.check(false, || format!("{}: panic {p}", what()));
        }
    }
    // the same scalar in SEC1 and PKCS#8 (no public key inside)
    let sec1 = der::seq(&[der::uint(&[1]), der::octets(b)]);
    let p8 = der::seq(&[der::uint(&[0]), der::seq(&[der::oid(der::OID_EC), der::oid(T::OID)]), der::octets(&sec1)]);
    let mut buf = [0u8; 256];
    for (form, got) in [
        ("SEC1", fw::no_panic(|| SigningKey::<T::C>::from_sec1_der(&sec1))),
        ("PKCS#8", fw::no_panic(|| SigningKey::<T::C>::from_pkcs8_der(&p8))),
    ] {
        match got {
            Ok(Ok(k)) => {
                l.check(want, || format!("{}: {form} scalar {} accepted", what(), fw::hex(b)));
                if want {
                    // observable through its public key
                    let spki = k.to_spki_der(&mut buf).map(|x| x.to_vec()).unwrap_or_default();
                    let p = c.enc(&c.mul_g(&from_be(&cut)));
                    l.check(spki.ends_with(&p), || format!("{}: {form} scalar changed", what()));
                }
            }
            Ok(Err(_)) => {
                l.check(!want, || format!("{}: {form} scalar {} refused", what(), fw::hex(b)));
            }
            Err(p) => {
                l.check(false, || format!("{}: {form} panic {p}", what()));
            }
        }
    }
}

fn curve<const N: usize, T: Sig<N>>(cx: &Ctx) {
    let c = T::c();
    let nm = T::NAME;
    let len = T::LEN;
    let base: Vec<Vec<u8>> = {
        let mut v = vec![c.enc(&c.g), c.enc(&c.neg(&c.g))];
        for s in 1..cx.pick(6u64, 40) {
            v.push(c.enc(&c.mul_g(&c.n.reduce(&from_be(&rng::bytes(s, len))))));
        }
        v
    };
    // every single-bit change of valid encodings
    cx.section(&format!("{nm}/point-bit-flips"), base.len() * (1 + 2 * len) * 8, |i, l| {
        let per = (1 + 2 * len) * 8;
        let mut b = base[i / per].clone();
        point::<N, T>(l, &b, &|| "valid".into());
        b[i % per / 8] ^= 1 << (i % 8);
        point::<N, T>(l, &b, &|| format!("bit {} flipped", i % per));
        l.note(|| format!("valid point {} with bit {} flipped", i / per, i % per));
    });
    // every pair of flips in one byte / all values of each byte
    cx.section(&format!("{nm}/point-byte-values"), (1 + 2 * len) * 256, |i, l| {
        let mut b = base[2].clone();
        b[i / 256] = i as u8;
        point::<N, T>(l, &b, &|| format!("byte {} = {}", i / 256, i % 256));
    });
    // every length x leading byte, with valid content where it fits
    let maxlen = 3 * len + 2;
    cx.section(&format!("{nm}/point-lengths"), (maxlen + 1) * 256, |i, l| {
        let (n, first) = (i / 256, (i % 256) as u8);
        let mut b: Vec<u8> = base[2].iter().copied().cycle().take(n).collect();
        if n > 0 {
            b[0] = first;
        }
        point::<N, T>(l, &b, &|| format!("length {n} first byte {first}"));
        let mut b = vec![0u8; n];
        if n > 0 {
            b[0] = first;
        }
        point::<N, T>(l, &b, &|| format!("zeros, length {n} first byte {first}"));
        if n == 1 + len {
            let mut b = c.enc_compressed(&c.g);
            b[0] = first;
            point::<N, T>(l, &b, &|| "compressed".into());
        }
    });
    // coordinates around and above p: x + p and y + p wherever they fit
    let span = cx.pick(300u64, 3000);
    cx.section(&format!("{nm}/point-noncanonical-x"), span as usize, |i, l| {
        let x = from_u64::<N>(i as u64);
        let (xp, o) = add_raw(&x, &c.f.m);
        assert!(!o);
        for p in c.both(&x) {
            let y = p.unwrap().1;
            for xx in [x, xp] {
                let b = [&[4][..], &to_be(&xx, len), &to_be(&y, len)].concat();
                point::<N, T>(l, &b, &|| format!("x = {i} (+p: {})", xx == xp));
            }
        }
    });
    cx.section(&format!("{nm}/point-noncanonical-y"), cx.pick(60, 400), |i, l| {
        let y = from_u64::<N>(i as u64);
        if let Some(x) = c.solve_y(&y) {
            for yy in [y, add_raw(&y, &c.f.m).0] {
                let b = [&[4][..], &to_be(&x, len), &to_be(&yy, len)].concat();
                point::<N, T>(l, &b, &|| format!("y = {i} (+p: {})", yy != y));
            }
        }
    });
    // all pairs of boundary coordinate values
    let mut vals: Vec<[u64; N]> = vec![];
    for d in 0..3u64 {
        vals.push(from_u64(d));
        vals.push(sub_raw(&c.f.m, &from_u64(d)).0);
        vals.push(add_raw(&c.f.m, &from_u64(d)).0);
        vals.push(sub_raw(&c.n.m, &from_u64(d)).0);
        vals.push(sub_raw(&[0; N], &from_u64(1 + d)).0);
    }
    let g = c.g.unwrap();
    vals.extend([g.0, g.1, sub_raw(&c.f.m, &g.1).0]);
    if let Some((x, y)) = c.lift_x(&[0; N]) {
        vals.extend([x, y]);
    }
    let m = vals.len();
    cx.section(&format!("{nm}/point-boundary-pairs"), m * m, |i, l| {
        let b = [&[4][..], &to_be(&vals[i / m], len), &to_be(&vals[i % m], len)].concat();
        point::<N, T>(l, &b, &|| "boundary coordinates".into());
    });
    // points of related curves (other b): on-curve test must include b
    cx.section(&format!("{nm}/point-other-curves"), cx.pick(200, 2000), |i, l| {
        let p = c.mul_g(&from_u64(2 + i as u64)).unwrap();
        // (x, y+1): lies on y^2 = x^3 - 3x + b'
        let y1 = c.f.from(&c.f.add(&c.f.to(&p.1), &c.f.one()));
        let x1 = c.f.from(&c.f.add(&c.f.to(&p.0), &c.f.one()));
        for (x, y) in [(p.0, y1), (x1, p.1), (p.1, p.0), (p.0, p.0)] {
            let b = [&[4][..], &to_be(&x, len), &to_be(&y, len)].concat();
            point::<N, T>(l, &b, &|| "point of another curve".into());
        }
    });
    // private scalars: around 0, n and 2^k, every single bit, lengths
    let mut sc: Vec<[u64; N]> = vec![];
    for d in 0..cx.pick(64u64, 1000) {
        sc.push(from_u64(d));
        sc.push(sub_raw(&c.n.m, &from_u64(d)).0);
        sc.push(add_raw(&c.n.m, &from_u64(d)).0);
        sc.push(sub_raw(&[0; N], &from_u64(d + 1)).0);
    }
    for k in 0..64 * N {
        sc.push(pow2(k));
        let (a, o) = add_raw(&c.n.m, &pow2(k));
        if !o {
            sc.push(a);
        }
        let (a, o) = sub_raw(&c.n.m, &pow2(k));
        if !o {
            sc.push(a);
        }
    }
    // differing from n in one limb only
    for i in 0..N {
        for v in [0, 1, c.n.m[i].wrapping_add(1), c.n.m[i].wrapping_sub(1), u64::MAX] {
            let mut a = c.n.m;
            a[i] = v;
            sc.push(a);
        }
    }
    cx.section(&format!("{nm}/scalars"), sc.len(), |i, l| {
        let b = to_be(&sc[i], len);
        scalar::<N, T>(l, &b, &|| "scalar".into());
        // with leading zeros, and stripped of them
        let mut z = vec![0, 0, 0];
        z.extend_from_slice(&b);
        scalar::<N, T>(l, &z, &|| "zero-extended".into());
        let s: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
        scalar::<N, T>(l, &s, &|| "stripped".into());
    });
    cx.section(&format!("{nm}/scalar-lengths"), 2 * len + 20, |n, l| {
        for fill in [0u8, 1, 0x7f, 0xff] {
            scalar::<N, T>(l, &vec![fill; n], &|| format!("{n} bytes {fill:#x}"));
            for pos in 0..n {
                let mut b = vec![0u8; n];
                b[pos] = fill;
                scalar::<N, T>(l, &b, &|| format!("{n} bytes, byte {pos} {fill:#x}"));
            }
        }
    });
}

fn x(cx: &Ctx) {
    let r = c25519();
    // all low-order u (canonical and not), by definition: those whose product
    // is zero for one clamped scalar are zero for all
    let mut us: Vec<[u8; 32]> = vec![];
    let t = r.order8();
    for k in 0..8u64 {
        // Edwards y -> Montgomery u = (1+y)/(1-y)
        let e = r.encode(&r.mul(&from_u64(k), &t));
        let mut yb = e;
        yb[31] &= 0x7f;
        let y = r.f.to(&from_le(&yb));
        let u = r.f.mul(&r.f.add(&r.f.one(), &y), &r.f.inv(&r.f.sub(&r.f.one(), &y)));
        us.push(to_le(&r.f.from(&u), 32).try_into().unwrap());
    }
    // non-canonical forms and the top bit
    let mut all: Vec<[u8; 32]> = vec![];
    for u in &us {
        let v: [u64; 4] = from_le(u);
        let mut c = vec![v];
        let (w, o) = add_raw(&v, &r.f.m);
        if !o && !bit(&w, 255) {
            c.push(w);
        }
        for w in c {
            let mut b: [u8; 32] = to_le(&w, 32).try_into().unwrap();
            all.push(b);
            b[31] |= 0x80;
            all.push(b);
        }
    }
    // neighbours, which are not low order
    for base in all.clone() {
        for i in 0..256 {
            let mut b = base;
            b[i / 8] ^= 1 << (i % 8);
            all.push(b);
        }
    }
    for i in 0..256u32 {
        let mut b = [0xffu8; 32];
        b[0] = i as u8;
        all.push(b);
        b[31] = 0x7f;
        all.push(b);
    }
    all.sort();
    all.dedup();
    let ks: Vec<[u8; 32]> = (0..cx.pick(6u64, 40)).map(|s| rng::arr(900 + s)).chain([[0; 32], [0xff; 32]]).collect();
    cx.section("x25519/low-order", all.len(), |i, l| {
        for k in &ks {
            let want = r.x25519(k, &all[i]);
            l.t(2);
            l.s(&want);
            let got = fw::no_panic(|| {
                x25519::StaticPrivateKey::from_array(k)
                    .diffie_hellman(&x25519::PublicKey::from_array(&all[i]))
                    .map(|s| s.0)
                    .ok()
            });
            let want = if want == [0; 32] { None } else { Some(want) };
            l.check(got == Ok(want), || format!("u {} with scalar {}: {got:?}", fw::hex(&all[i]), fw::hex(k)));
            // the single-use key behaves the same
            let got = rng::with(rng::State::new(rng::Src::Bytes(k.to_vec())), || {
                x25519::PrivateKey::new_random().unwrap().diffie_hellman(&x25519::PublicKey::from_array(&all[i])).map(|s| s.0).ok()
            })
            .0;
            l.check(got == want, || format!("ephemeral: u {} with scalar {}: {got:?}", fw::hex(&all[i]), fw::hex(k)));
        }
        l.note(|| format!("u = {}", fw::hex(&all[i])));
    });
    cx.section("x25519/lengths", 200, |n, l| {
        let b = rng::bytes(1, n);
        l.t(2);
        l.s64(n as u64);
        l.check(fw::no_panic(|| x25519::PublicKey::try_from_slice(&b).is_ok()) == Ok(n == 32), || format!("public of {n} bytes"));
        l.check(fw::no_panic(|| x25519::StaticPrivateKey::try_from_slice(&b).is_ok()) == Ok(n == 32), || format!("private of {n} bytes"));
        if n == 32 {
            l.eq(&x25519::PublicKey::try_from_slice(&b).ok().unwrap().as_bytes(), &b, || "public".into());
            l.eq(&x25519::StaticPrivateKey::try_from_slice(&b).ok().unwrap().as_bytes(), &b, || "private".into());
        }
    });
}

fn kem(cx: &Ctx) {
    let good = mlkem768::DecapKey::keygen_internal(&rng::arr(3)).encapsulation_key().as_bytes();
    let put = |ek: &mut [u8; 1184], i: usize, v: u16| {
        let o = i / 2 * 3;
        if i % 2 == 0 {
            ek[o] = v as u8;
            ek[o + 1] = ek[o + 1] & 0xf0 | (v >> 8) as u8;
        } else {
            ek[o + 1] = ek[o + 1] & 0x0f | ((v & 0xf) << 4) as u8;
            ek[o + 2] = (v >> 4) as u8;
        }
    };
    let one = |l: &mut L, ek: &[u8; 1184], want: bool, what: &dyn Fn() -> String| {
        l.t(1);
        match fw::no_panic(|| mlkem768::EncapKey::from_bytes(ek)) {
            Ok(Ok(k)) => {
                l.check(want, || format!("{} accepted", what()));
                l.check(k.as_bytes() == *ek, || format!("{}: key changed", what()));
            }
            Ok(Err(_)) => {
                l.check(!want, || format!("{} refused", what()));
            }
            Err(p) => {
                l.check(false, || format!("{}: panic {p}", what()));
            }
        }
    };
    // every unreduced value of every coefficient; accepted values at the edge
    cx.section("mlkem/unreduced-coefficients", 768, |i, l| {
        for v in 3329..4096u16 {
            let mut ek = good;
            put(&mut ek, i, v);
            l.s64((i * 4096 + v as usize) as u64);
            one(l, &ek, false, &|| format!("coefficient {i} = {v}"));
        }
        let step = if cx.quick() { 64 } else { 1 };
        for v in (0..3329u16).filter(|v| v % step == 0 || *v > 3320 || *v < 8) {
            let mut ek = good;
            put(&mut ek, i, v);
            l.s64((i * 4096 + v as usize) as u64);
            one(l, &ek, true, &|| format!("coefficient {i} = {v}"));
        }
        l.note(|| format!("coefficient {i}: all 767 unreduced values"));
    });
    // all coefficients equal
    cx.section("mlkem/uniform-keys", 4096, |v, l| {
        let mut ek = good;
        for i in 0..768 {
            put(&mut ek, i, v as u16);
        }
        l.s64(v as u64 | 1 << 40);
        one(l, &ek, v < 3329, &|| format!("all coefficients {v}"));
    });
    // any rho is fine
    cx.section("mlkem/rho", 512, |i, l| {
        let mut ek = good;
        ek[1152 + i / 16] = [0, 0xff, 0x55, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xfe, 0x7f, 3, 5, 9][i % 16];
        l.s64(i as u64 | 1 << 41);
        one(l, &ek, true, &|| format!("rho case {i}"));
    });
}

fn main() {
    fw::main("C07", |cx| {
        cx.assume("validity decided by an independent reference curve equation with canonical-coordinate check");
        curve::<4, P256>(cx);
        curve::<6, P384>(cx);
        x(cx);
        kem(cx);
    });
}
