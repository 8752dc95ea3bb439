//! C16: decoders accept exactly the strict encodings, encoders produce them.
use graviola::signing::ecdsa::{self, P256, P384};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use mc::big::B;
use mc::der::{self, R};
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::edref::c25519;
use mc::mont::from_be;
use mc::rng;
use mc::rsaref::{self, Key};

trait Ec: ecdsa::Curve + 'static {
    const OID: &'static [u8];
    const LEN: usize;
    const ORDER: &'static str;
    fn public(d: &[u8]) -> Vec<u8>;
}
thread_local! {
    static CACHE: std::cell::RefCell<std::collections::HashMap<Vec<u8>, Vec<u8>>> = Default::default();
}
/// the same few scalars come back over and over
fn cached(d: &[u8], f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    if let Some(p) = CACHE.with(|c| c.borrow().get(d).cloned()) {
        return p;
    }
    let p = f();
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4096 {
            c.clear();
        }
        c.insert(d.to_vec(), p.clone());
    });
    p
}
impl Ec for P256 {
    const OID: &'static [u8] = der::OID_P256;
    const LEN: usize = 32;
    const ORDER: &'static str = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551";
    fn public(d: &[u8]) -> Vec<u8> {
        let c = mc::ec::p256();
        cached(d, || c.enc(&c.mul_g(&from_be(d))))
    }
}
impl Ec for P384 {
    const OID: &'static [u8] = der::OID_P384;
    const LEN: usize = 48;
    const ORDER: &'static str = "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973";
    fn public(d: &[u8]) -> Vec<u8> {
        let c = mc::ec::p384();
        cached(d, || c.enc(&c.mul_g(&from_be(d))))
    }
}

/// What the reference says about an input: the canonical identity of the key.
#[derive(PartialEq, Debug, Clone)]
enum Ref {
    /// must be rejected
    No,
    /// must be accepted, as the key with this identity
    Yes(Vec<u8>),
    /// well-formed; acceptance is up to semantic limits, but if accepted it is this key
    Maybe(Vec<u8>),
}
struct Dec {
    name: &'static str,
    reference: Box<dyn Fn(&[u8]) -> Ref + Sync>,
    /// Ok(identity) if accepted
    lib: Box<dyn Fn(&[u8]) -> Result<Vec<u8>, String> + Sync>,
    bases: Vec<Vec<u8>>,
}

// ---- reference decoders
fn ref_ec_sec1<C: Ec>(b: &[u8]) -> Option<Vec<u8>> {
    let mut top = R(b);
    let mut s = top.seq()?;
    if !top.empty() || s.int()? != [1] {
        return None;
    }
    let d = s.take(4)?;
    if s.peek() == Some(0xa0) {
        let mut x = R(s.take(0xa0)?);
        if x.take(6)? != C::OID || !x.empty() {
            return None;
        }
    }
    let mut public = None;
    if s.peek() == Some(0xa1) {
        let mut x = R(s.take(0xa1)?);
        public = Some(x.bits()?);
        if !x.empty() {
            return None;
        }
    }
    if !s.empty() {
        return None;
    }
    // (the scalar is deliberately taken as a big-endian number of any length)
    let v = B::from_be(d);
    if v.is_zero() || !v.lt(&B::from_be(&fw::unhex(C::ORDER))) {
        return None;
    }
    let d = &v.be(C::LEN)[..];
    if let Some(p) = public {
        if p != C::public(d) {
            return None;
        }
    }
    Some(d.to_vec())
}
/// returns (private key octets, public key) of a PKCS#8 / OneAsymmetricKey
fn ref_p8<'a>(b: &'a [u8], oid: &[u8], params: Option<(u8, &[u8])>) -> Option<(&'a [u8], Option<&'a [u8]>)> {
    let mut top = R(b);
    let mut s = top.seq()?;
    if !top.empty() {
        return None;
    }
    let v = s.int()?;
    let mut a = s.seq()?;
    if a.take(6)? != oid {
        return None;
    }
    match params {
        None => {}
        Some((t, v)) => {
            if a.take(t)? != v {
                return None;
            }
        }
    }
    if !a.empty() {
        return None;
    }
    let k = s.take(4)?;
    let mut public = None;
    if s.peek() == Some(0x81) {
        let p = s.take(0x81)?;
        if *p.first()? != 0 {
            return None;
        }
        public = Some(&p[1..]);
    }
    if !s.empty() {
        return None;
    }
    match (v, public) {
        ([0], None) | ([1], Some(_)) => Some((k, public)),
        _ => None,
    }
}
fn ref_rsa_priv(b: &[u8]) -> Ref {
    let f = || {
        let mut top = R(b);
        let mut s = top.seq()?;
        if s.int()? != [0] {
            return None;
        }
        for _ in 0..8 {
            s.uint()?;
        }
        (s.empty() && top.empty()).then_some(())
    };
    match f() {
        Some(()) => Ref::Maybe(b.to_vec()),
        None => Ref::No,
    }
}
fn opt(o: Option<Vec<u8>>) -> Ref {
    o.map_or(Ref::No, Ref::Yes)
}

// ---- library decoders, with the identity taken from what the key does or exports
fn lib_ec<C: Ec>(k: Result<ecdsa::SigningKey<C>, graviola::Error>) -> Result<Vec<u8>, String> {
    let k = k.map_err(|e| format!("{e:?}"))?;
    let mut buf = [0u8; 512];
    let der = k.to_sec1_der(&mut buf).map_err(|e| format!("export failed: {e:?}"))?;
    // strictly parse the export
    match ref_ec_sec1::<C>(der) {
        Some(d) => {
            if der != ec_sec1::<C>(&d, true, true) {
                return Ok(b"export is not the standard encoding".to_vec());
            }
            Ok(d)
        }
        None => Ok(b"export is malformed".to_vec()),
    }
}
fn ec_sec1<C: Ec>(d: &[u8], params: bool, public: bool) -> Vec<u8> {
    let mut v = vec![der::uint(&[1]), der::octets(d)];
    if params {
        v.push(der::tlv(0xa0, &der::oid(C::OID)));
    }
    if public {
        v.push(der::tlv(0xa1, &der::bits(&C::public(d))));
    }
    der::seq(&v)
}
fn p8(oid: &[u8], params: Option<Vec<u8>>, key: &[u8], public: Option<&[u8]>) -> Vec<u8> {
    let mut alg = vec![der::oid(oid)];
    alg.extend(params);
    let mut v = vec![der::uint(&[public.is_some() as u8]), der::seq(&alg), der::octets(key)];
    if let Some(p) = public {
        v.push(der::tlv(0x81, &[&[0], p].concat()));
    }
    der::seq(&v)
}

fn ec_decoders<C: Ec>(names: [&'static str; 2], ds: &[Vec<u8>]) -> Vec<Dec> {
    let mut sec1 = vec![];
    let mut pk8 = vec![];
    for d in ds {
        for (a, b) in [(true, true), (false, true), (true, false), (false, false)] {
            sec1.push(ec_sec1::<C>(d, a, b));
        }
        let oid = Some(der::oid(C::OID));
        pk8.push(p8(der::OID_EC, oid.clone(), &ec_sec1::<C>(d, false, true), None));
        pk8.push(p8(der::OID_EC, oid.clone(), &ec_sec1::<C>(d, true, true), None));
        pk8.push(p8(der::OID_EC, oid.clone(), &ec_sec1::<C>(d, false, false), None));
        pk8.push(p8(der::OID_EC, oid, &ec_sec1::<C>(d, false, true), Some(&C::public(d))));
    }
    vec![
        Dec {
            name: names[0],
            reference: Box::new(|b| opt(ref_ec_sec1::<C>(b))),
            lib: Box::new(|b| lib_ec::<C>(ecdsa::SigningKey::<C>::from_sec1_der(b))),
            bases: sec1,
        },
        Dec {
            name: names[1],
            reference: Box::new(|b| {
                let Some((k, public)) = ref_p8(b, der::OID_EC, Some((6, C::OID))) else { return Ref::No };
                let Some(d) = ref_ec_sec1::<C>(k) else { return Ref::No };
                match public {
                    // whether a contradicting outer public key is refused is not specified
                    Some(p) if p != C::public(&d) => Ref::Maybe(d),
                    _ => Ref::Yes(d),
                }
            }),
            lib: Box::new(|b| lib_ec::<C>(ecdsa::SigningKey::<C>::from_pkcs8_der(b))),
            bases: pk8,
        },
    ]
}
fn ed_p8(seed: &[u8], public: Option<&[u8]>) -> Vec<u8> {
    p8(der::OID_ED25519, None, &der::octets(seed), public)
}
fn ed_spki(p: &[u8]) -> Vec<u8> {
    der::seq(&[der::seq(&[der::oid(der::OID_ED25519)]), der::bits(p)])
}
fn ed_decoders(seeds: &[[u8; 32]]) -> Vec<Dec> {
    let mut pk = vec![];
    let mut spki = vec![];
    for s in seeds {
        let p = c25519().public(s);
        pk.push(ed_p8(s, Some(&p)));
        pk.push(ed_p8(s, None));
        spki.push(ed_spki(&p));
    }
    vec![
        Dec {
            name: "ed25519-pkcs8",
            reference: Box::new(|b| {
                let f = || {
                    let (k, public) = ref_p8(b, der::OID_ED25519, None)?;
                    let mut r = R(k);
                    let seed: [u8; 32] = r.take(4)?.try_into().ok()?;
                    if !r.empty() {
                        return None;
                    }
                    if let Some(p) = public {
                        if p != c25519().public(&seed) {
                            return None;
                        }
                    }
                    Some(seed.to_vec())
                };
                opt(f())
            }),
            lib: Box::new(|b| {
                let k = Ed25519SigningKey::from_pkcs8_der(b).map_err(|e| format!("{e:?}"))?;
                let mut buf = [0u8; 256];
                let out = k.to_pkcs8_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?;
                let seed = k.as_seed();
                if out != ed_p8(&seed, Some(&c25519().public(&seed))) {
                    return Ok(b"export is not the standard encoding".to_vec());
                }
                Ok(seed.to_vec())
            }),
            bases: pk,
        },
        Dec {
            name: "ed25519-spki",
            reference: Box::new(|b| {
                let f = || {
                    let mut top = R(b);
                    let mut s = top.seq()?;
                    let mut a = s.seq()?;
                    if a.take(6)? != der::OID_ED25519 || !a.empty() {
                        return None;
                    }
                    let p: [u8; 32] = s.bits()?.try_into().ok()?;
                    if !s.empty() || !top.empty() {
                        return None;
                    }
                    c25519().decode(&p)?;
                    Some(p.to_vec())
                };
                opt(f())
            }),
            lib: Box::new(|b| {
                let k = Ed25519VerifyingKey::from_spki_der(b).map_err(|e| format!("{e:?}"))?;
                let mut buf = [0u8; 256];
                let out = k.to_spki_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?;
                if out != ed_spki(&k.as_bytes()) {
                    return Ok(b"export is not the standard encoding".to_vec());
                }
                Ok(k.as_bytes().to_vec())
            }),
            bases: spki,
        },
    ]
}
fn lib_rsa_priv(k: Result<rsa::SigningKey, graviola::Error>) -> Result<Vec<u8>, String> {
    let k = k.map_err(|e| format!("{e:?}"))?;
    let mut buf = [0u8; 8192];
    let out = k.to_pkcs1_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?.to_vec();
    let mut buf = [0u8; 8192];
    let out8 = k.to_pkcs8_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?;
    if out8 != p8(der::OID_RSA, Some(der::null()), &out, None) {
        return Ok(b"PKCS#8 export is not the standard encoding".to_vec());
    }
    Ok(out)
}
fn rsa_decoders(keys: &[Key]) -> Vec<Dec> {
    let priv1: Vec<Vec<u8>> = keys.iter().map(|k| k.pkcs1()).collect();
    let priv8: Vec<Vec<u8>> = priv1
        .iter()
        .flat_map(|k| [p8(der::OID_RSA, Some(der::null()), k, None), p8(der::OID_RSA, Some(der::null()), k, Some(b"ignored"))])
        .collect();
    let pub1: Vec<Vec<u8>> = keys.iter().map(|k| k.pub_pkcs1()).collect();
    let good1 = priv1.clone();
    let good2 = priv1.clone();
    let goodp = pub1.clone();
    vec![
        Dec {
            name: "rsa-pkcs1",
            reference: Box::new(move |b| if good1.iter().any(|g| g == b) { Ref::Yes(b.to_vec()) } else { ref_rsa_priv(b) }),
            lib: Box::new(|b| lib_rsa_priv(rsa::SigningKey::from_pkcs1_der(b))),
            bases: priv1,
        },
        Dec {
            name: "rsa-pkcs8",
            reference: Box::new(move |b| {
                let Some((k, p)) = ref_p8(b, der::OID_RSA, Some((5, &[]))) else { return Ref::No };
                match ref_rsa_priv(k) {
                    Ref::Maybe(x) if p.is_none() && good2.contains(&x) => Ref::Yes(x),
                    r => r,
                }
            }),
            lib: Box::new(|b| lib_rsa_priv(rsa::SigningKey::from_pkcs8_der(b))),
            bases: priv8,
        },
        Dec {
            name: "rsa-public-pkcs1",
            reference: Box::new(move |b| {
                if goodp.iter().any(|g| g == b) {
                    return Ref::Yes(b.to_vec());
                }
                let f = || {
                    let mut top = R(b);
                    let mut s = top.seq()?;
                    let n = B::from_be(s.uint()?);
                    let e = B::from_be(s.uint()?);
                    if !s.empty() || !top.empty() {
                        return None;
                    }
                    // documented modulus range; even moduli and a zero exponent are useless
                    (n.bits() <= 8192 && n.bits() >= 2041 && !n.is_even() && !e.is_zero()).then_some(())
                };
                if f().is_some() { Ref::Maybe(b.to_vec()) } else { Ref::No }
            }),
            lib: Box::new(|b| {
                let k = rsa::VerifyingKey::from_pkcs1_der(b).map_err(|e| format!("{e:?}"))?;
                let mut buf = [0u8; 2048];
                let out = k.to_pkcs1_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?.to_vec();
                let mut buf = [0u8; 2048];
                let spki = k.to_spki_der(&mut buf).map_err(|e| format!("export failed {e:?}"))?;
                if spki != der::seq(&[der::seq(&[der::oid(der::OID_RSA), der::null()]), der::bits(&out)]) {
                    return Ok(b"SPKI export is not the standard encoding".to_vec());
                }
                Ok(out)
            }),
            bases: pub1,
        },
    ]
}

fn judge(d: &Dec, l: &mut L, input: &[u8], what: &dyn Fn() -> String) {
    let want = (d.reference)(input);
    l.t(1);
    let got = no_panic(|| (d.lib)(input));
    let got = match got {
        Ok(g) => g,
        Err(p) => {
            l.check(false, || format!("{} {}: panic {p} on {}", d.name, what(), hex(input)));
            return;
        }
    };
    match (&want, &got) {
        (Ref::No, Err(_)) => {}
        (Ref::Yes(a), Ok(b)) => {
            l.s(a);
            l.check(a == b, || format!("{} {}: decoded to a different key: {} for {}", d.name, what(), hex(b), hex(input)));
        }
        (Ref::Maybe(a), Ok(b)) => {
            l.s(a);
            l.check(a == b, || format!("{} {}: decoded to a different key: {} for {}", d.name, what(), hex(b), hex(input)));
        }
        (Ref::Maybe(_), Err(_)) => {}
        (Ref::No, Ok(_)) => {
            l.check(false, || format!("{} {}: accepted a malformed encoding {}", d.name, what(), hex(input)));
        }
        (Ref::Yes(_), Err(e)) => {
            l.check(false, || format!("{} {}: rejected a valid encoding ({e}) {}", d.name, what(), hex(input)));
        }
    }
    l.s64(fw::fnv(input) ^ got.is_ok() as u64);
}

// ---- TLV tree, for structural edits
#[derive(Clone)]
struct Node {
    tag: u8,
    body: Body,
}
#[derive(Clone)]
enum Body {
    Leaf(Vec<u8>),
    Kids(Vec<Node>),
    /// prefix bytes then nested elements (OCTET STRING / BIT STRING wrappers)
    Wrap(Vec<u8>, Vec<Node>),
}
fn tree(b: &[u8]) -> Option<Vec<Node>> {
    let mut r = R(b);
    let mut v = vec![];
    while !r.empty() {
        let (tag, body) = r.any()?;
        let node = if tag & 0x20 != 0 {
            Body::Kids(tree(body)?)
        } else if tag == 4 && body.len() > 2 && (body[0] == 0x30 || (body[0] == 4 && body.len() == 34)) && tree(body).is_some() {
            Body::Wrap(vec![], tree(body).unwrap())
        } else {
            Body::Leaf(body.to_vec())
        };
        v.push(Node { tag, body: node });
    }
    Some(v)
}
fn body_bytes(n: &Node, edit: Option<(&[usize], &dyn Fn(&Node) -> Vec<u8>)>) -> Vec<u8> {
    match &n.body {
        Body::Leaf(b) => b.clone(),
        Body::Kids(k) => list(k, edit),
        Body::Wrap(p, k) => [p.clone(), list(k, edit)].concat(),
    }
}
fn list(k: &[Node], edit: Option<(&[usize], &dyn Fn(&Node) -> Vec<u8>)>) -> Vec<u8> {
    let mut o = vec![];
    for (i, n) in k.iter().enumerate() {
        match edit {
            Some((path, f)) if path[0] == i => {
                if path.len() == 1 {
                    o.extend(f(n));
                } else {
                    o.extend(der::tlv(n.tag, &body_bytes(n, Some((&path[1..], f)))));
                }
            }
            _ => o.extend(der::tlv(n.tag, &body_bytes(n, None))),
        }
    }
    o
}
fn paths(k: &[Node], pre: &[usize], out: &mut Vec<Vec<usize>>) {
    for (i, n) in k.iter().enumerate() {
        let mut p = pre.to_vec();
        p.push(i);
        out.push(p.clone());
        match &n.body {
            Body::Kids(k) | Body::Wrap(_, k) => paths(k, &p, out),
            _ => {}
        }
    }
}
fn long_len(tag: u8, body: &[u8], k: usize) -> Vec<u8> {
    let mut v = vec![tag, 0x80 | k as u8];
    let n = (body.len() as u128).to_be_bytes();
    if k <= 16 {
        v.extend(&n[16 - k..]);
    } else {
        v.extend(vec![0; k - 16]);
        v.extend(n);
    }
    v.extend(body);
    v
}
/// all structural edits of one encoding
fn edits(base: &[u8]) -> Vec<(String, Vec<u8>)> {
    let t = tree(base).unwrap();
    assert_eq!(list(&t, None), base);
    let mut ps = vec![];
    paths(&t, &[], &mut ps);
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for p in &ps {
        let mut add = |what: String, f: &dyn Fn(&Node) -> Vec<u8>| out.push((format!("{what} at {p:?}"), list(&t, Some((p, f)))));
        for tag in 0..=255u8 {
            add(format!("tag {tag:#x}"), &|n| der::tlv(tag, &body_bytes(n, None)));
        }
        add("deleted".into(), &|_| vec![]);
        add("doubled".into(), &|n| {
            let b = der::tlv(n.tag, &body_bytes(n, None));
            [b.clone(), b].concat()
        });
        add("emptied".into(), &|n| der::tlv(n.tag, &[]));
        for k in 1..=9usize {
            add(format!("{k}-byte length"), &|n| long_len(n.tag, &body_bytes(n, None), k));
        }
        add("17-byte length".into(), &|n| long_len(n.tag, &body_bytes(n, None), 17));
        add("126-byte length".into(), &|n| long_len(n.tag, &body_bytes(n, None), 126));
        add("indefinite".into(), &|n| [vec![n.tag, 0x80], body_bytes(n, None), vec![0, 0]].concat());
        add("indefinite, no end".into(), &|n| [vec![n.tag, 0x80], body_bytes(n, None)].concat());
        add("reserved length".into(), &|n| [vec![n.tag, 0xff], body_bytes(n, None)].concat());
        for x in [vec![0u8], vec![0xff], vec![0, 0], vec![5, 0], vec![0x30, 0], vec![2, 1, 0], vec![0x80], vec![0x80, 0], vec![0x80, 0x80], vec![0xa0, 0], vec![0xa1, 0], vec![0x81, 0], vec![0x81, 1, 0]] {
            add(format!("body with {} appended", hex(&x)), &|n| der::tlv(n.tag, &[body_bytes(n, None), x.clone()].concat()));
            add(format!("body with {} prepended", hex(&x)), &|n| der::tlv(n.tag, &[x.clone(), body_bytes(n, None)].concat()));
            add(format!("followed by {}", hex(&x)), &|n| [der::tlv(n.tag, &body_bytes(n, None)), x.clone()].concat());
            add(format!("preceded by {}", hex(&x)), &|n| [x.clone(), der::tlv(n.tag, &body_bytes(n, None))].concat());
            add(format!("replaced by {}", hex(&x)), &|_| x.clone());
        }
        add("body without its first byte".into(), &|n| der::tlv(n.tag, body_bytes(n, None).get(1..).unwrap_or(&[])));
        add("body without its last byte".into(), &|n| {
            let b = body_bytes(n, None);
            der::tlv(n.tag, &b[..b.len().saturating_sub(1)])
        });
        add("wrapped in a sequence".into(), &|n| der::tlv(0x30, &der::tlv(n.tag, &body_bytes(n, None))));
        add("wrapped in an octet string".into(), &|n| der::tlv(4, &der::tlv(n.tag, &body_bytes(n, None))));
        add("unwrapped".into(), &|n| body_bytes(n, None));
        for b in 1..=7u8 {
            add(format!("{b} unused bits"), &|n| {
                let mut x = body_bytes(n, None);
                if let Some(f) = x.first_mut() {
                    *f = b;
                }
                der::tlv(n.tag, &x)
            });
        }
        for d in [-2i64, -1, 1, 2, 127, 128, 255] {
            add(format!("length off by {d}"), &|n| {
                let b = body_bytes(n, None);
                let l = (b.len() as i64 + d).max(0) as usize;
                [vec![n.tag], der::len(l), b].concat()
            });
        }
        for l in [vec![0x82u8, 0xff, 0xff], vec![0x83, 0xff, 0xff, 0xff], vec![0x84, 0xff, 0xff, 0xff, 0xff], [vec![0x88], vec![0xff; 8]].concat(), [vec![0x88, 0x7f], vec![0xff; 7]].concat()] {
            add(format!("length {}", hex(&l)), &|n| [vec![n.tag], l.clone(), body_bytes(n, None)].concat());
        }
        // every pair of neighbouring elements exchanged
        let parent = &p[..p.len() - 1];
        if !parent.is_empty() {
            let i = p[p.len() - 1];
            out.push((
                format!("neighbours exchanged at {p:?}"),
                list(
                    &t,
                    Some((parent, &|n| {
                        let (pre, k) = match &n.body {
                            Body::Kids(k) => (vec![], k),
                            Body::Wrap(p, k) => (p.clone(), k),
                            _ => unreachable!(),
                        };
                        let mut k = k.clone();
                        if i + 1 < k.len() {
                            k.swap(i, i + 1);
                        }
                        der::tlv(n.tag, &[pre, list(&k, None)].concat())
                    })),
                ),
            ));
        }
    }
    out
}
/// positions of tag and length octets (and of small structural bodies)
fn structural(base: &[u8]) -> Vec<usize> {
    fn walk(b: &[u8], at: usize, out: &mut Vec<usize>) {
        let mut off = 0;
        while off < b.len() {
            let mut r = R(&b[off..]);
            let Some((tag, body)) = r.any() else { return };
            let h = b.len() - off - r.0.len() - body.len();
            out.extend((0..h).map(|i| at + off + i));
            let inner = at + off + h;
            if body.len() <= 9 {
                out.extend((0..body.len()).map(|i| inner + i));
            } else if tag & 0x20 != 0 || (tag == 4 && (body[0] == 0x30 || body[0] == 4)) {
                walk(body, inner, out);
            } else if tag == 3 {
                out.push(inner);
                out.push(inner + 1);
            } else {
                out.push(inner);
            }
            off += h + body.len();
        }
    }
    let mut v = vec![];
    walk(base, 0, &mut v);
    v.sort();
    v.dedup();
    v
}

fn main() {
    fw::main("C16", explore);
}
fn explore(ctx: &Ctx) {
    let k256: Vec<Vec<u8>> = vec![rng::bytes(61, 32), {
        let mut v = vec![0; 32];
        v[31] = 1;
        v
    }];
    let k384: Vec<Vec<u8>> = vec![rng::bytes(62, 48)];
    let mut decs = ec_decoders::<P256>(["p256-sec1", "p256-pkcs8"], &k256[..ctx.pick(1, 2)]);
    decs.extend(ec_decoders::<P384>(["p384-sec1", "p384-pkcs8"], &k384));
    decs.extend(ed_decoders(&[rng::arr(63), rng::arr(64)][..ctx.pick(1, 2)]));
    let s = rsaref::samples();
    let keys: Vec<Key> = s[..ctx.pick(1, 2)].to_vec();
    decs.extend(rsa_decoders(&keys));
    let decs = &decs;

    // the encodings themselves, and every key's exports
    let all: Vec<(usize, usize)> = decs.iter().enumerate().flat_map(|(i, d)| (0..d.bases.len()).map(move |j| (i, j))).collect();
    ctx.section("valid", all.len(), |i, l| {
        let (d, b) = (&decs[all[i].0], &decs[all[i].0].bases[all[i].1]);
        l.check((d.reference)(b) != Ref::No, || "harness: base rejected by the reference".into());
        judge(d, l, b, &|| "valid encoding".into());
        // and by every other decoder
        for o in decs {
            judge(o, l, b, &|| format!("{} encoding", d.name));
        }
    });
    // all short strings, for every decoder
    ctx.section("short-strings", 256 * decs.len(), |i, l| {
        let d = &decs[i / 256];
        let a = (i % 256) as u8;
        judge(d, l, &[], &|| "empty".into());
        judge(d, l, &[a], &|| "one byte".into());
        for b in 0..=255u8 {
            judge(d, l, &[a, b], &|| "two bytes".into());
            if a == 0x30 || !ctx.quick() {
                for c in 0..=255u8 {
                    judge(d, l, &[a, b, c], &|| "three bytes".into());
                }
            }
        }
    });
    ctx.section("long-strings", decs.len() * 64, |i, l| {
        let d = &decs[i / 64];
        let n = [200, 65535, 65536, 70000][i % 4];
        let fill = [0x30, 0x00, 0x02, 0xff, 0x80, 0x04, 0x06, 0xa0, 0x81, 0x82, 0x83, 0x84, 0x03, 0x05, 0x01, 0x31][i / 4 % 16];
        judge(d, l, &vec![fill; n], &|| format!("{n} bytes of {fill:#x}"));
    });
    for d in decs.iter() {
        for (bi, base) in d.bases.iter().enumerate() {
            let rsa = d.name.starts_with("rsa");
            let sc = |s: &str| format!("{}/{bi}/{s}", d.name);
            let pub_rsa = d.name == "rsa-public-pkcs1";
            ctx.section(&sc("truncations"), base.len(), |i, l| judge(d, l, &base[..i], &|| format!("first {i} bytes")));
            // every single-byte change
            let st = structural(base);
            let full = !rsa || pub_rsa || !ctx.quick();
            let pos: Vec<usize> = if full { (0..base.len()).collect() } else { st.clone() };
            ctx.section(&sc("byte-changes"), pos.len() * 255, |i, l| {
                let mut b = base.clone();
                let p = pos[i / 255];
                b[p] ^= (i % 255 + 1) as u8;
                judge(d, l, &b, &|| format!("byte {p} changed"));
            });
            // one byte inserted or removed anywhere
            let vals: Vec<u8> = if full && !rsa { (0..=255).collect() } else { vec![0, 1, 2, 4, 5, 6, 0x30, 0x80, 0x81, 0xa0, 0xff] };
            ctx.section(&sc("insertions"), (base.len() + 1) * vals.len(), |i, l| {
                let mut b = base.clone();
                let p = i / vals.len();
                b.insert(p, vals[i % vals.len()]);
                judge(d, l, &b, &|| format!("byte inserted at {p}"));
            });
            ctx.section(&sc("removals"), base.len(), |i, l| {
                let mut b = base.clone();
                b.remove(i);
                judge(d, l, &b, &|| format!("byte {i} removed"));
            });
            ctx.section(&sc("trailing"), 256 * 3, |i, l| {
                let mut b = base.clone();
                b.push(i as u8);
                b.extend(vec![0; [0, 1, 300][i / 256]]);
                judge(d, l, &b, &|| "trailing data".into());
            });
            let e = edits(base);
            ctx.section(&sc("edits"), e.len(), |i, l| judge(d, l, &e[i].1, &|| e[i].0.clone()));
            // pairs of structural bytes
            let few: Vec<u8> = vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x20, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xa1, 0xff];
            let st: Vec<usize> = if rsa { st.into_iter().filter(|p| *p < 40 || !ctx.quick()).collect() } else { st };
            let n = st.len();
            let f = few.len() + 2;
            ctx.section(&sc("byte-pairs"), n * n.saturating_sub(1) / 2, |i, l| {
                // i-th unordered pair
                let mut a = 0;
                let mut r = i;
                while r >= n - 1 - a {
                    r -= n - 1 - a;
                    a += 1;
                }
                let (p, q) = (st[a], st[a + 1 + r]);
                let val = |p: usize, k: usize| match k {
                    0 => base[p].wrapping_add(1),
                    1 => base[p].wrapping_sub(1),
                    k => few[k - 2],
                };
                for x in 0..f {
                    for y in 0..f {
                        let mut b = base.clone();
                        b[p] = val(p, x);
                        b[q] = val(q, y);
                        if b[p] != base[p] && b[q] != base[q] {
                            judge(d, l, &b, &|| format!("bytes {p} and {q} changed"));
                        }
                    }
                }
            });
        }
    }
    // pairs of structural edits on the short encodings
    if !ctx.quick() {
        for d in decs.iter().filter(|d| !d.name.starts_with("rsa")) {
            let base = &d.bases[0];
            let e = edits(base);
            ctx.section(&format!("{}/double-edits", d.name), e.len(), |i, l| {
                let Some(_) = tree(&e[i].1).filter(|t| list(t, None) == e[i].1) else { return };
                for (w, b) in edits(&e[i].1) {
                    judge(d, l, &b, &|| format!("{} then {w}", e[i].0));
                }
            });
        }
    }
    // RSA keys of every shape: integers with and without sign padding, of all lengths
    let fx = rsaref::fixtures();
    ctx.section("rsa-round-trips", fx.len() + s.len(), |i, l| {
        let k = if i < fx.len() { &fx[i] } else { &s[i - fx.len()] };
        if k.p.bits() < 1024 || k.n.bits() < 2048 {
            return;
        }
        let der1 = k.pkcs1();
        l.t(2);
        match no_panic(|| lib_rsa_priv(rsa::SigningKey::from_pkcs1_der(&der1))) {
            Ok(Ok(x)) => {
                l.check(x == der1, || format!("private key {i} exports differently"));
            }
            other => {
                l.check(false, || format!("private key {i} ({} bits) does not decode: {other:?}", k.n.bits()));
            }
        }
        let p = k.pub_pkcs1();
        let got = no_panic(|| {
            let v = rsa::VerifyingKey::from_pkcs1_der(&p).ok()?;
            let mut b = [0u8; 2048];
            v.to_pkcs1_der(&mut b).ok().map(|x| x.to_vec())
        });
        l.check(got == Ok(Some(p.clone())), || format!("public key {i} ({} bits): {got:?}", k.n.bits()));
        let sk = rsa::SigningKey::from_pkcs1_der(&der1).unwrap();
        let mut b = [0u8; 2048];
        let got = sk.public_key().to_pkcs1_der(&mut b).map(|x| x.to_vec());
        l.check(got == Ok(p.clone()), || format!("public half of key {i}: {got:?}"));
        l.s(&der1);
    });
    // short values in RSA components: every length of d, dp, dq, qi, and sign-bit edges
    let k0 = s[0].clone();
    ctx.section("rsa-component-lengths", 4 * 140 * 2, |i, l| {
        let (c, r) = (i / 280, i % 280);
        let (len, top) = (r / 2, [0x7fu8, 0x80][r % 2]);
        if len == 0 {
            return;
        }
        let mut v = rng::bytes(i as u64, len);
        v[0] = top;
        v[len - 1] |= 1;
        let mut k = k0.clone();
        *[&mut k.d, &mut k.dp, &mut k.dq, &mut k.qi][c] = B::from_be(&v);
        let der1 = k.pkcs1();
        l.t(1);
        let got = no_panic(|| lib_rsa_priv(rsa::SigningKey::from_pkcs1_der(&der1)));
        match got {
            Ok(Ok(x)) => {
                l.check(x == der1, || format!("component {c} of {len} bytes exports differently"));
            }
            Ok(Err(_)) => {}
            Err(p) => {
                l.check(false, || format!("component {c} of {len} bytes: panic {p}"));
            }
        }
        l.s(&der1);
    });
    // public exponents
    ctx.section("rsa-exponents", 64, |i, l| {
        let e = (1u64 << (i / 2)) | (i as u64 % 2);
        let mut k = k0.clone();
        k.e = B::u(e);
        let p = k.pub_pkcs1();
        let got = no_panic(|| {
            let v = rsa::VerifyingKey::from_pkcs1_der(&p).ok()?;
            let mut b = [0u8; 2048];
            v.to_pkcs1_der(&mut b).ok().map(|x| x.to_vec())
        });
        l.t(1);
        match got {
            Ok(Some(x)) => {
                l.check(x == p, || format!("exponent {e:#x} exports as {}", hex(&x)));
            }
            Ok(None) => {}
            Err(x) => {
                l.check(false, || format!("exponent {e:#x}: panic {x}"));
            }
        }
    });
    // exports of EC and Ed25519 keys: every structured scalar
    fn exports<C: Ec>(l: &mut L, d: &[u8]) {
        let k = ecdsa::SigningKey::<C>::from_sec1_der(&ec_sec1::<C>(d, false, false));
        let Ok(k) = k else {
            l.check(false, || format!("scalar {} rejected", hex(d)));
            return;
        };
        l.t(3);
        let mut b = [0u8; 512];
        let p = C::public(d);
        let got = k.to_sec1_der(&mut b).map(|x| x.to_vec());
        l.check(got.as_deref() == Ok(&ec_sec1::<C>(d, true, true)[..]), || format!("sec1 export of {}: {got:?}", hex(d)));
        let got = k.to_pkcs8_der(&mut b).map(|x| x.to_vec());
        let want = p8(der::OID_EC, Some(der::oid(C::OID)), &ec_sec1::<C>(d, false, true), None);
        l.check(got.as_deref() == Ok(&want[..]), || format!("pkcs8 export of {}: {got:?}", hex(d)));
        let got = k.to_spki_der(&mut b).map(|x| x.to_vec());
        let want = der::seq(&[der::seq(&[der::oid(der::OID_EC), der::oid(C::OID)]), der::bits(&p)]);
        l.check(got.as_deref() == Ok(&want[..]), || format!("spki export of {}: {got:?}", hex(d)));
        l.s(&want);
    }
    ctx.section("ec-exports", 48 * 8 * 2, |i, l| {
        let bit = i / 2;
        // a single bit, or all the lower ones
        let mk = |n: usize| {
            let mut v = vec![0u8; n];
            for b in 0..=bit {
                if b == bit || i % 2 == 1 {
                    v[n - 1 - b / 8] |= 1 << (b % 8);
                }
            }
            v
        };
        if bit < 255 {
            exports::<P256>(l, &mk(32));
        }
        if bit < 383 {
            exports::<P384>(l, &mk(48));
        }
    });
    ctx.section("ed-exports", 256, |i, l| {
        let mut s = [0u8; 32];
        s[i / 8] = 1 << (i % 8);
        let k = Ed25519SigningKey::from_bytes(&s).unwrap();
        let mut b = [0u8; 256];
        let p = c25519().public(&s);
        l.t(2);
        let got = k.to_pkcs8_der(&mut b).map(|x| x.to_vec());
        l.check(got.as_deref() == Ok(&ed_p8(&s, Some(&p))[..]), || format!("pkcs8 export: {got:?}"));
        let got = k.public_key().to_spki_der(&mut b).map(|x| x.to_vec());
        l.check(got.as_deref() == Ok(&ed_spki(&p)[..]), || format!("spki export: {got:?}"));
        l.s(&p);
    });
}
