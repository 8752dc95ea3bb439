//! C25: TLS key exchange.
use mc::ec::{self, Aff, Curve};
use mc::edref::c25519;
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::mlkemref as mk;
use mc::mont::{from_be, from_le, is_zero, to_le};
use mc::rng::{self, Src, State, arr, bytes};
use rustls::crypto::{ActiveKeyExchange, SupportedKxGroup};
use rustls::{Error, NamedGroup, PeerMisbehaved, ProtocolVersion};
use rustls_graviola::kx;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Part {
    X,
    P256,
    P384,
    Mk,
}
use Part::*;
#[derive(Clone, Copy)]
struct Group {
    g: &'static dyn SupportedKxGroup,
    name: NamedGroup,
    /// in the order of their shares, and of their secrets
    parts: &'static [Part],
}
fn groups() -> Vec<Group> {
    vec![
        Group { g: kx::X25519MLKEM768, name: NamedGroup::X25519MLKEM768, parts: &[Mk, X] },
        Group { g: &kx::X25519, name: NamedGroup::X25519, parts: &[X] },
        Group { g: &kx::P256, name: NamedGroup::secp256r1, parts: &[P256] },
        Group { g: &kx::P384, name: NamedGroup::secp384r1, parts: &[P384] },
    ]
}
impl Part {
    fn client_len(self) -> usize {
        match self {
            X => 32,
            P256 => 65,
            P384 => 97,
            Mk => 1184,
        }
    }
    fn server_len(self) -> usize {
        if self == Mk { 1088 } else { self.client_len() }
    }
    fn secret_len(self) -> usize {
        if self == P384 { 48 } else { 32 }
    }
}
/// from an uncompressed encoding, if it is one of a point
fn point<const N: usize>(c: &Curve<N>, b: &[u8]) -> Option<Aff<N>> {
    if b.len() != 1 + 2 * c.len || b[0] != 4 {
        return None;
    }
    let (x, y) = (from_be(&b[1..1 + c.len]), from_be(&b[1 + c.len..]));
    c.on_curve(&x, &y).then_some(Some((x, y)))
}
fn ecdh<const N: usize>(c: &Curve<N>, k: &[u64; N], b: &[u8]) -> Option<Vec<u8>> {
    let p = c.mul(k, &point(c, b)?);
    p?;
    Some(c.enc(&p)[1..1 + c.len].to_vec())
}
fn scalar<const N: usize>(c: &Curve<N>, seed: u64) -> [u64; N] {
    let mut k = c.n.reduce_be(&bytes(seed, c.len + 8));
    if is_zero(&k) {
        k[0] = 1;
    }
    k
}

/// The reference at one end.
#[derive(Clone)]
struct Peer {
    part: Part,
    seed: u64,
    share: Vec<u8>,
    dk: Vec<u8>,
}
fn client(part: Part, seed: u64) -> Peer {
    let (share, dk) = match part {
        X => (c25519().x25519(&arr(seed), &base()).to_vec(), vec![]),
        P256 => (ec::p256().enc(&ec::p256().mul_g(&scalar(ec::p256(), seed))), vec![]),
        P384 => (ec::p384().enc(&ec::p384().mul_g(&scalar(ec::p384(), seed))), vec![]),
        Mk => mk::keygen(&arr(seed)),
    };
    Peer { part, seed, share, dk }
}
fn base() -> [u8; 32] {
    let mut b = [0; 32];
    b[0] = 9;
    b
}
impl Peer {
    fn agree(&self, theirs: &[u8]) -> Option<Vec<u8>> {
        match self.part {
            X => {
                let s = c25519().x25519(&arr(self.seed), theirs.try_into().ok()?);
                (s != [0; 32]).then(|| s.to_vec())
            }
            P256 => ecdh(ec::p256(), &scalar(ec::p256(), self.seed), theirs),
            P384 => ecdh(ec::p384(), &scalar(ec::p384(), self.seed), theirs),
            Mk => (theirs.len() == 1088).then(|| mk::decaps(&self.dk, theirs).0),
        }
    }
}
/// The reference as a server: share and secret.
fn serve(part: Part, seed: u64, theirs: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if part == Mk {
        let (k, c) = mk::encaps(theirs, &bytes(seed, 32));
        return Some((c, k));
    }
    let p = client(part, seed);
    let s = p.agree(theirs)?;
    Some((p.share, s))
}
fn pieces<'a>(g: &Group, b: &'a [u8], len: fn(Part) -> usize) -> Option<Vec<&'a [u8]>> {
    if b.len() != g.parts.iter().map(|p| len(*p)).sum::<usize>() {
        return None;
    }
    let mut at = 0;
    Some(
        g.parts
            .iter()
            .map(|p| {
                at += len(*p);
                &b[at - len(*p)..at]
            })
            .collect(),
    )
}

type Secret = Result<Vec<u8>, Error>;
fn finish(a: Box<dyn ActiveKeyExchange>, share: &[u8]) -> Result<Secret, String> {
    no_panic(move || a.complete(share).map(|s| s.secret_bytes().to_vec()))
}
fn start(g: &Group, seed: u64) -> Box<dyn ActiveKeyExchange> {
    rng::seeded(seed, || g.g.start().unwrap())
}
fn complete(g: &Group, seed: u64, share: &[u8]) -> Result<Secret, String> {
    finish(start(g, seed), share)
}
fn respond(g: &Group, seed: u64, share: &[u8]) -> Result<Result<(NamedGroup, Vec<u8>, Vec<u8>), Error>, String> {
    rng::seeded(seed, || no_panic(|| g.g.start_and_complete(share).map(|c| (c.group, c.pub_key.clone(), c.secret.secret_bytes().to_vec()))))
}
fn invalid(e: &Error) -> bool {
    matches!(e, Error::PeerMisbehaved(PeerMisbehaved::InvalidKeyShare))
}
/// must be refused in both roles (as `share` is `len` long for a role only)
fn refuse_client(l: &mut L, g: &Group, share: &[u8], what: &dyn Fn() -> String) {
    l.t(1);
    let r = respond(g, 5, share);
    l.check(matches!(&r, Ok(Err(_))), || format!("{:?}: server gets {}: {}", g.name, what(), match &r { Ok(Ok((_, p, s))) => format!("share of {} bytes, secret {}", p.len(), hex(s)), Ok(Err(e)) => format!("{e:?}"), Err(e) => e.clone() }));
    if let Ok(Err(e)) = &r {
        l.check(invalid(e), || format!("{:?}: server gets {}: {e:?}", g.name, what()));
    }
}
fn refuse_server(l: &mut L, g: &Group, share: &[u8], what: &dyn Fn() -> String) {
    l.t(1);
    let r = complete(g, 5, share);
    l.check(matches!(&r, Ok(Err(e)) if invalid(e)), || format!("{:?}: client gets {}: {r:?}", g.name, what()));
}

/// the library as client, the reference as server; then the other way round;
/// then the library with itself
fn agree(l: &mut L, g: &Group, seed: u64, peer: u64, tls12: bool) {
    let a = match rng::seeded(seed, || no_panic(|| g.g.start())) {
        Ok(Ok(a)) => a,
        r => {
            l.check(false, || format!("{:?}: start: {:?}", g.name, r.map(|x| x.err())));
            return;
        }
    };
    l.t(6);
    let mine = a.pub_key().to_vec();
    l.check(a.group() == g.name && a.ffdhe_group().is_none(), || format!("{:?}: active exchange is of group {:?}", g.name, a.group()));
    let Some(ps) = pieces(g, &mine, Part::client_len) else {
        l.check(false, || format!("{:?}: client share of {} bytes", g.name, mine.len()));
        return;
    };
    let mut share = vec![];
    let mut want = vec![];
    for (p, theirs) in g.parts.iter().zip(ps) {
        match serve(*p, peer, theirs) {
            Some((s, k)) => {
                share.extend(s);
                want.extend(k);
            }
            None => {
                l.check(false, || format!("{:?}: the client's {p:?} share {} is invalid", g.name, hex(theirs)));
                return;
            }
        }
    }
    l.s(&want);
    let got = if tls12 {
        let v = &rustls::version::TLS12;
        no_panic(|| a.complete_for_tls_version(&share, v).map(|s| s.secret_bytes().to_vec()))
    } else {
        finish(a, &share)
    };
    l.check(got.as_ref().is_ok_and(|g| g.as_ref().is_ok_and(|g| *g == want)), || format!("{:?}: client's secret {got:?} for share {}, want {}", g.name, hex(&share), hex(&want)));
    // as server
    let peers: Vec<Peer> = g.parts.iter().map(|p| client(*p, peer)).collect();
    let theirs: Vec<u8> = peers.iter().flat_map(|p| p.share.clone()).collect();
    match respond(g, seed, &theirs) {
        Ok(Ok((n, share, secret))) => {
            l.check(n == g.name, || format!("{:?}: server answers for {n:?}", g.name));
            let want = pieces(g, &share, Part::server_len).and_then(|ps| peers.iter().zip(ps).map(|(p, s)| p.agree(s)).collect::<Option<Vec<_>>>()).map(|v| v.concat());
            l.check(want.as_ref() == Some(&secret), || format!("{:?}: server's share {} secret {}, want {}", g.name, hex(&share), hex(&secret), hex(&want.unwrap_or_default())));
        }
        r => {
            l.check(false, || format!("{:?}: server: {r:?}", g.name));
        }
    }
    // with itself
    let a = start(g, seed);
    let r = respond(g, peer + 1000, &mine);
    if let Ok(Ok((_, share, secret))) = &r {
        let got = finish(a, share);
        l.check(got.as_ref().is_ok_and(|g| g.as_ref().is_ok_and(|g| g == secret)), || format!("{:?}: the two ends disagree: {got:?} {}", g.name, hex(secret)));
        l.check(secret.len() == g.parts.iter().map(|p| p.secret_len()).sum::<usize>(), || format!("{:?}: secret of {} bytes", g.name, secret.len()));
    } else {
        l.check(false, || format!("{:?}: server with library client: {r:?}", g.name));
    }
}

/// X25519 inputs that are or might be taken for low order
fn low_order() -> Vec<[u8; 32]> {
    static V: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    V.get_or_init(|| {
        let c = c25519();
        // u with order dividing 8: all multiples of the generator of the torsion
        let mut us: Vec<[u64; 4]> = vec![[0; 4], [1, 0, 0, 0]];
        let p: [u64; 4] = [u64::MAX - 18, u64::MAX, u64::MAX, u64::MAX >> 1];
        let pm1 = [p[0] - 1, p[1], p[2], p[3]];
        us.push(pm1);
        for h in ["e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"] {
            us.push(from_le(&fw::unhex(h)));
        }
        let mut v = vec![];
        for u in us {
            v.push(u);
            // not reduced
            let (s, over) = mc::mont::add_raw(&u, &p);
            if !over && s[3] >> 63 == 0 {
                v.push(s);
            }
        }
        let mut out = vec![];
        for u in v {
            let mut b: [u8; 32] = to_le(&u, 32).try_into().unwrap();
            out.push(b);
            b[31] |= 0x80;
            out.push(b);
        }
        for b in &out {
            assert!(c.x25519(&arr(3), b) == [0; 32], "{}", hex(b));
        }
        out
    })
    .clone()
}

/// Encodings for one component, not valid ones.
fn bad(part: Part, as_client: bool, quick: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    fn ec_bad<const N: usize>(c: &Curve<N>, part: Part, v: &mut Vec<(String, Vec<u8>)>, quick: bool) {
        let good = client(part, 3).share;
        for i in 0..good.len() * 8 {
            let mut b = good.clone();
            b[i / 8] ^= 1 << (i % 8);
            v.push((format!("bit {i} flipped"), b));
        }
        for first in 0..=255u8 {
            let mut b = good.clone();
            b[0] = first;
            if first != 4 {
                v.push((format!("form {first}"), b));
            }
        }
        let n = c.len;
        let p = mc::mont::to_be(&c.f.m, n);
        let xy = |x: &[u8], y: &[u8]| [&[4][..], x, y].concat();
        let (x, y) = (&good[1..1 + n], &good[1 + n..]);
        for (w, b) in [
            ("zero coordinates", xy(&vec![0; n], &vec![0; n])),
            ("ones", xy(&vec![0xff; n], &vec![0xff; n])),
            ("x = p", xy(&p, y)),
            ("y = p", xy(x, &p)),
            ("x = y = p", xy(&p, &p)),
            ("x all ones", xy(&vec![0xff; n], y)),
            ("coordinates swapped", xy(y, x)),
            ("y twice", xy(y, y)),
        ] {
            v.push((w.into(), b));
        }
        // small points, unreduced: x + p where it fits
        for s in 0..if quick { 40u64 } else { 400 } {
            let q = c.lift_x(&mc::mont::from_u64(s));
            if let Some((x, y)) = q {
                let (xp, over) = mc::mont::add_raw(&x, &c.f.m);
                if !over && mc::mont::to_be(&xp, n + 8)[..8] == [0; 8] {
                    v.push((format!("x = {s} unreduced"), xy(&mc::mont::to_be(&xp, n), &mc::mont::to_be(&y, n))));
                }
                let (y2, _) = mc::mont::add_raw(&y, &mc::mont::from_u64(1));
                v.push((format!("x = {s}, y one more"), xy(&mc::mont::to_be(&x, n), &mc::mont::to_be(&y2, n))));
            } else {
                v.push((format!("x = {s} of no point"), xy(&mc::mont::to_be(&mc::mont::from_u64::<N>(s), n), y)));
            }
        }
        v.retain(|(_, b)| point(c, b).is_none());
    }
    match part {
        X => v.extend(low_order().into_iter().map(|b| (format!("low order {}", hex(&b)), b.to_vec()))),
        P256 => ec_bad(ec::p256(), part, &mut v, quick),
        P384 => ec_bad(ec::p384(), part, &mut v, quick),
        Mk if as_client => {
            // coefficients that are not reduced, at every place
            let good = client(Mk, 3).share;
            for i in 0..768 {
                for c in if quick { vec![3329u16, 4095 - (i as u16 % 700)] } else { vec![3329, 3330, 3583, 3584, 4094, 4095] } {
                    let mut b = good.clone();
                    let at = i / 2 * 3;
                    if i % 2 == 0 {
                        b[at] = c as u8;
                        b[at + 1] = (b[at + 1] & 0xf0) | (c >> 8) as u8;
                    } else {
                        b[at + 1] = (b[at + 1] & 0x0f) | ((c & 15) << 4) as u8;
                        b[at + 2] = (c >> 4) as u8;
                    }
                    v.push((format!("coefficient {i} is {c}"), b));
                }
            }
        }
        Mk => {}
    }
    v
}

fn explore(ctx: &Ctx) {
    ctx.assume("reference: FIPS 203, RFC 7748, SEC 1 and draft-kwiatkowski-tls-ecdhe-mlkem (ML-KEM before X25519) over the independent arithmetic of mc/src");
    let gs = groups();
    ctx.section("groups", gs.len(), |i, l| {
        let g = &gs[i];
        l.t(4);
        l.s64(i as u64);
        l.check(g.g.name() == g.name, || format!("{:?} is named {:?}", g.name, g.g.name()));
        l.check(g.g.ffdhe_group().is_none(), || format!("{:?} is finite-field", g.name));
        let hybrid = g.parts.contains(&Mk);
        l.check(g.g.usable_for_version(ProtocolVersion::TLSv1_3), || format!("{:?} not for TLS 1.3", g.name));
        l.check(g.g.usable_for_version(ProtocolVersion::TLSv1_2) != hybrid, || format!("{:?} for TLS 1.2", g.name));
        for (w, list) in [("ALL_KX_GROUPS", kx::ALL_KX_GROUPS.to_vec()), ("the provider", rustls_graviola::default_provider().kx_groups)] {
            l.check(list.iter().filter(|x| x.name() == g.name).count() == 1, || format!("{w} has {:?} not once", g.name));
            l.check(list.len() == gs.len(), || format!("{w}: {list:?}"));
            // each of the list is what it is named: it agrees with the reference
            if let Some(x) = list.iter().find(|x| x.name() == g.name) {
                agree(l, &Group { g: *x, ..*g }, 1, 2, false);
            }
        }
    });
    let n = ctx.pick(800, 8000);
    ctx.section("agreement", gs.len() * n, |i, l| {
        let g = &gs[i % gs.len()];
        let s = (i / gs.len()) as u64;
        agree(l, g, s, s + 7, g.parts.len() == 1 && s % 2 == 1);
    });
    // secrets with leading and trailing zeros are kept whole
    ctx.section("zero-bytes", gs.len() * 2, |i, l| {
        let g = &gs[i % gs.len()];
        let tls12 = i >= gs.len();
        if tls12 && g.parts.len() > 1 {
            return;
        }
        let want = ctx.pick(3, 20);
        let mut found = 0;
        for peer in 0..100_000u64 {
            // the reference alone decides which to look at
            let p = g.parts[g.parts.len() - 1];
            let mine = start(g, 77).pub_key().to_vec();
            let ps = pieces(g, &mine, Part::client_len).unwrap_or_default();
            let Some((_, k)) = ps.last().and_then(|m| serve(p, peer, m)) else { continue };
            if k[0] == 0 || k[k.len() - 1] == 0 {
                agree(l, g, 77, peer, tls12);
                found += 1;
                if found == want {
                    return;
                }
            }
        }
    });
    // lengths
    let roles = gs.len() * 2;
    ctx.section("lengths", roles, |i, l| {
        let g = &gs[i / 2];
        let as_client = i % 2 == 0;
        let good: Vec<u8> = if as_client {
            g.parts.iter().flat_map(|p| client(*p, 4).share).collect()
        } else {
            let mine = start(g, 5).pub_key().to_vec();
            pieces(g, &mine, Part::client_len).unwrap().iter().zip(g.parts).flat_map(|(m, p)| serve(*p, 4, m).unwrap().0).collect()
        };
        let ok = if as_client { respond(g, 5, &good).is_ok_and(|r| r.is_ok()) } else { complete(g, 5, &good).is_ok_and(|r| r.is_ok()) };
        l.check(ok, || format!("{:?}: good share refused", g.name));
        let refuse = if as_client { refuse_client } else { refuse_server };
        let long = [&good[..], &good, &bytes(1, 200)].concat();
        for n in 0..good.len() + 150 {
            if n == good.len() {
                continue;
            }
            l.s(format!("{i} {n}").as_bytes());
            refuse(l, g, &long[..n], &|| format!("{n} bytes (a share is {})", good.len()));
            let z = [&vec![0; n.saturating_sub(good.len())][..], &good[good.len().saturating_sub(n)..]].concat();
            refuse(l, g, &z, &|| format!("a share in the last of {n} bytes"));
        }
        for n in [2 * good.len(), 1184, 1088, 1216, 1120, 32, 64, 65, 97, 33, 49] {
            if n != good.len() {
                refuse(l, g, &bytes(3, n), &|| format!("{n} random bytes"));
            }
        }
    });
    // invalid components
    ctx.section("invalid-components", roles, |i, l| {
        let g = &gs[i / 2];
        let as_client = i % 2 == 0;
        let refuse = if as_client { refuse_client } else { refuse_server };
        let mine = start(g, 5).pub_key().to_vec();
        let ps = pieces(g, &mine, Part::client_len).unwrap();
        for (k, p) in g.parts.iter().enumerate() {
            for (w, b) in bad(*p, as_client, ctx.quick()) {
                let share: Vec<u8> = g.parts.iter().enumerate().flat_map(|(j, q)| if j == k { b.clone() } else if as_client { client(*q, 4).share } else { serve(*q, 4, ps[j]).unwrap().0 }).collect();
                l.s(&b);
                refuse(l, g, &share, &|| format!("a share with {p:?} {w}"));
            }
        }
        if g.parts.len() > 1 {
            // the order of its parts matters
            let share: Vec<u8> = g.parts.iter().rev().flat_map(|q| client(*q, 4).share).collect();
            if as_client {
                let r = respond(g, 5, &share);
                l.check(r.is_ok(), || format!("{:?}: {r:?}", g.name));
            }
        }
    });
    // X25519 shares that are odd but fine
    ctx.section("odd-x25519-shares", 2, |i, l| {
        let g = &gs[i];
        let mut us: Vec<[u8; 32]> = vec![];
        for k in 2..64u8 {
            let mut b = [0; 32];
            b[0] = k;
            us.push(b);
            // near and beyond the modulus
            let mut b = [0xff; 32];
            b[0] = 0xed - 1 - k.min(0x40);
            b[31] = 0x7f;
            us.push(b);
            b[0] = 0xed + (k % 19);
            us.push(b);
            us.push(bytes(k as u64, 32).try_into().unwrap());
        }
        for u in us {
            for high in [0, 0x80] {
                let mut u = u;
                u[31] = (u[31] & 0x7f) | high;
                // what the reference makes of it, for a private key it has
                let low = c25519().x25519(&arr(9), &u) == [0; 32];
                l.t(1);
                l.s(&u);
                let mine = start(g, 5).pub_key().to_vec();
                let ps = pieces(g, &mine, Part::client_len).unwrap();
                let share: Vec<u8> = g.parts.iter().enumerate().flat_map(|(j, q)| if *q == X { u.to_vec() } else { serve(*q, 4, ps[j]).unwrap().0 }).collect();
                let got = complete(g, 5, &share);
                l.check(matches!(&got, Ok(r) if r.is_ok() != low), || format!("{:?}: u = {}: {got:?}", g.name, hex(&u)));
                // the same secret as for the canonical form
                let canon = to_le(&c25519().f.reduce(&from_le(&{
                    let mut v = u;
                    v[31] &= 0x7f;
                    v
                })), 32);
                let share2: Vec<u8> = g.parts.iter().enumerate().flat_map(|(j, q)| if *q == X { canon.clone() } else { serve(*q, 4, ps[j]).unwrap().0 }).collect();
                l.check(complete(g, 5, &share2) == got, || format!("{:?}: u = {} and its canonical form differ", g.name, hex(&u)));
            }
        }
    });
    // ciphertexts altered on the way: another secret, and no error
    let alters: Vec<usize> = (0..1088).collect();
    ctx.section("altered-ciphertexts", alters.len(), |i, l| {
        let g = &gs[0];
        let mine = start(g, 5).pub_key().to_vec();
        let ps = pieces(g, &mine, Part::client_len).unwrap();
        let (mut ct, k) = serve(Mk, 4, ps[0]).unwrap();
        let (x, kx) = serve(X, 4, ps[1]).unwrap();
        ct[alters[i]] ^= 1 << (i % 8);
        let got = complete(g, 5, &[&ct[..], &x].concat());
        l.t(1);
        l.s(&ct);
        match got {
            Ok(Ok(s)) => {
                l.check(s.len() == 64 && s[..32] != k && s[32..] == kx, || format!("ciphertext altered at {}: secret {}", alters[i], hex(&s)));
            }
            r => {
                l.check(false, || format!("ciphertext altered at {}: {r:?}", alters[i]));
            }
        }
    });
    // the classical half alone
    ctx.section("hybrid-component", ctx.pick(60, 1000), |i, l| {
        let g = &gs[0];
        let a = start(g, i as u64);
        let mine = a.pub_key().to_vec();
        l.t(3);
        l.s(&mine);
        let Some((n, share)) = a.hybrid_component() else {
            return;
        };
        l.check(n == NamedGroup::X25519 && mine.ends_with(share) && share.len() == 32, || format!("component {n:?} with share {}", hex(share)));
        let (theirs, want) = serve(X, i as u64 + 3, &mine[1184..]).unwrap();
        let got = no_panic(move || a.complete_hybrid_component(&theirs).map(|s| s.secret_bytes().to_vec()));
        l.check(got.as_ref().is_ok_and(|g| g.as_ref().is_ok_and(|g| *g == want)), || format!("component secret {got:?} want {}", hex(&want)));
        if i == 0 {
            for n in (0..100).filter(|n| *n != 32).chain([1088, 1120, 1184, 1216]) {
                let a = start(g, 1);
                let r = no_panic(move || a.complete_hybrid_component(&bytes(1, n)).map(|s| s.secret_bytes().to_vec()));
                l.check(matches!(&r, Ok(Err(e)) if invalid(e)), || format!("component share of {n} bytes: {r:?}"));
            }
            for b in low_order() {
                let a = start(g, 1);
                let r = no_panic(move || a.complete_hybrid_component(&b).map(|s| s.secret_bytes().to_vec()));
                l.check(matches!(&r, Ok(Err(e)) if invalid(e)), || format!("component share {}: {r:?}", hex(&b)));
            }
        }
    });
    for g in gs.iter().skip(1) {
        ctx.section(&format!("no-component-{:?}", g.name), 1, |_, l| {
            let a = start(g, 1);
            l.t(1);
            l.s(b"n");
            l.check(a.hybrid_component().is_none(), || format!("{:?} has a component", g.name));
        });
    }
    // randomness: each request failing; each exchange fresh
    ctx.section("failing-source", roles * 5 * 10, |i, l| {
        let g = &gs[i % gs.len()];
        let as_client = i / gs.len() % 2 == 0;
        let (fill, k) = ((i / roles % 5) as u8, i / roles / 5);
        let (k, sticky) = (k / 2, k % 2 == 0);
        let mut st = State::new(Src::Stream(3));
        st.fail_at = Some(k);
        st.fail_fill = fill;
        st.fail_sticky = sticky;
        let share: Vec<u8> = g.parts.iter().flat_map(|p| client(*p, 4).share).collect();
        let (r, st) = rng::with(st, || no_panic(|| if as_client { g.g.start().map(drop) } else { g.g.start_and_complete(&share).map(drop) }));
        let hit = st.calls.len() > k;
        l.t(1);
        l.s(format!("{i} {hit}").as_bytes());
        l.check(matches!(&r, Ok(r) if r.is_err() == hit), || format!("{:?}: request {k} for randomness failing: {r:?}", g.name));
    });
    ctx.section("fresh-shares", roles, |i, l| {
        let g = &gs[i / 2];
        let as_client = i % 2 == 0;
        let share: Vec<u8> = g.parts.iter().flat_map(|p| client(*p, 4).share).collect();
        rng::with(State::new(Src::Stream(3)), || {
            let mut seen = std::collections::HashSet::new();
            for r in 0..ctx.pick(100, 1000) {
                let b = if as_client { g.g.start().unwrap().pub_key().to_vec() } else { g.g.start_and_complete(&share).unwrap().pub_key };
                l.t(1);
                let ps = pieces(g, &b, if as_client { Part::client_len } else { Part::server_len }).unwrap();
                for p in ps {
                    l.s(p);
                    l.check(seen.insert(p.to_vec()), || format!("{:?}: exchange {r} repeats an earlier share", g.name));
                }
            }
        });
    });
    // several exchanges under way at once
    let depth = ctx.pick(6, 7);
    let nops = gs.len() + 2;
    ctx.section("histories", nops * nops, |i, l| {
        for h in 0..nops.pow(depth as u32 - 2) {
            let mut h2 = h * nops * nops + i;
            let mut live: Vec<(usize, Box<dyn ActiveKeyExchange>)> = vec![];
            let mut done = vec![];
            rng::with(State::new(Src::Stream(8)), || {
                for _ in 0..depth {
                    let op = h2 % nops;
                    h2 /= nops;
                    done.push(op);
                    l.t(1);
                    if op < gs.len() {
                        if let Ok(Ok(a)) = no_panic(|| gs[op].g.start()) {
                            live.push((op, a));
                        } else {
                            l.check(false, || format!("history {done:?}: start fails"));
                        }
                        continue;
                    }
                    if live.is_empty() {
                        continue;
                    }
                    // oldest, or newest
                    let (k, a) = live.remove(if op == gs.len() { 0 } else { live.len() - 1 });
                    let g = &gs[k];
                    let mine = a.pub_key().to_vec();
                    let Some(ps) = pieces(g, &mine, Part::client_len) else { continue };
                    let both: Option<Vec<_>> = g.parts.iter().zip(ps).map(|(p, m)| cached(*p, m)).collect();
                    let Some(both) = both else { continue };
                    let share: Vec<u8> = both.iter().flat_map(|x| x.0.clone()).collect();
                    let want: Vec<u8> = both.iter().flat_map(|x| x.1.clone()).collect();
                    let got = finish(a, &share);
                    l.check(got.as_ref().is_ok_and(|g| g.as_ref().is_ok_and(|g| *g == want)), || format!("history {done:?}: {:?} gives {got:?} want {}", g.name, hex(&want)));
                }
            });
            l.s(format!("{done:?}").as_bytes());
        }
    });
}
/// shares recur between histories
fn cached(p: Part, mine: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static C: OnceLock<Mutex<HashMap<Vec<u8>, (Vec<u8>, Vec<u8>)>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(x) = c.lock().unwrap().get(mine) {
        return Some(x.clone());
    }
    let x = serve(p, 4, mine)?;
    c.lock().unwrap().insert(mine.to_vec(), x.clone());
    Some(x)
}

fn main() {
    fw::main("C25", explore);
}
