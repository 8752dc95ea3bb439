//! C26: TLS signature schemes.
use mc::big::B;
use mc::der;
use mc::ec::{self, Aff, Curve};
use mc::edref::c25519;
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::hashref::H;
use mc::mont::{from_be, is_zero, to_be};
use mc::rng::{self, Src, State, arr, bytes};
use mc::rsaref::{self, Key as Rsa};
use rustls::pki_types::{AlgorithmIdentifier, PrivateKeyDer, SignatureVerificationAlgorithm, alg_id};
use rustls::sign::{Signer, SigningKey};
use rustls::{SignatureAlgorithm, SignatureScheme as S};
use std::sync::{Arc, OnceLock};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Rsa,
    P256,
    P384,
    Ed,
}
/// What a signature scheme name means.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Pkcs1(H),
    Pss(H),
    Ec(H),
    Ed,
}
#[derive(Clone)]
struct Key {
    name: String,
    kind: Kind,
    rsa: Option<Rsa>,
    seed: u64,
}
fn scalar<const N: usize>(c: &Curve<N>, seed: u64) -> [u64; N] {
    let mut k = c.n.reduce_be(&bytes(seed + 4000, c.len + 8));
    if is_zero(&k) {
        k[0] = 1;
    }
    k
}
impl Key {
    fn new(kind: Kind, seed: u64) -> Key {
        Key { name: format!("{kind:?} key {seed}"), kind, rsa: None, seed }
    }
    /// SEC 1 or PKCS#1
    fn inner(&self) -> Vec<u8> {
        fn sec1<const N: usize>(c: &Curve<N>, oid: &[u8], seed: u64, params: bool) -> Vec<u8> {
            let k = scalar(c, seed);
            let mut v = vec![der::uint(&[1]), der::octets(&to_be(&k, c.len))];
            if params {
                v.push(der::tlv(0xa0, &der::oid(oid)));
            }
            v.push(der::tlv(0xa1, &der::bits(&c.enc(&c.mul_g(&k)))));
            der::seq(&v)
        }
        match self.kind {
            Kind::Rsa => self.rsa.as_ref().unwrap().pkcs1(),
            Kind::P256 => sec1(ec::p256(), der::OID_P256, self.seed, true),
            Kind::P384 => sec1(ec::p384(), der::OID_P384, self.seed, true),
            Kind::Ed => der::octets(&bytes(self.seed, 32)),
        }
    }
    fn alg(&self) -> Vec<u8> {
        match self.kind {
            Kind::Rsa => der::seq(&[der::oid(der::OID_RSA), der::null()]),
            Kind::P256 => der::seq(&[der::oid(der::OID_EC), der::oid(der::OID_P256)]),
            Kind::P384 => der::seq(&[der::oid(der::OID_EC), der::oid(der::OID_P384)]),
            Kind::Ed => der::seq(&[der::oid(der::OID_ED25519)]),
        }
    }
    fn pkcs8(&self) -> Vec<u8> {
        der::seq(&[der::uint(&[0]), self.alg(), der::octets(&self.inner())])
    }
    /// as in a certificate's BIT STRING
    fn public(&self) -> Vec<u8> {
        match self.kind {
            Kind::Rsa => self.rsa.as_ref().unwrap().pub_pkcs1(),
            Kind::P256 => ec::p256().enc(&ec::p256().mul_g(&scalar(ec::p256(), self.seed))),
            Kind::P384 => ec::p384().enc(&ec::p384().mul_g(&scalar(ec::p384(), self.seed))),
            Kind::Ed => c25519().public(&arr(self.seed)).to_vec(),
        }
    }
    fn spki(&self) -> Vec<u8> {
        der::seq(&[self.alg(), der::bits(&self.public())])
    }
    fn schemes(&self) -> Vec<S> {
        SCHEMES.iter().filter(|(_, h, k)| self.kind == *k || (*k == self.kind && matches!(h, How::Ed))).map(|x| x.0).collect()
    }
    fn load(&self) -> Arc<dyn SigningKey> {
        load(8, self.pkcs8()).unwrap().unwrap()
    }
    fn alg_of(&self) -> SignatureAlgorithm {
        match self.kind {
            Kind::Rsa => SignatureAlgorithm::RSA,
            Kind::Ed => SignatureAlgorithm::ED25519,
            _ => SignatureAlgorithm::ECDSA,
        }
    }
    /// a signature by the reference
    fn sign(&self, how: How, m: &[u8]) -> Option<Vec<u8>> {
        fn ecdsa<const N: usize>(c: &Curve<N>, seed: u64, h: H, m: &[u8]) -> Vec<u8> {
            let k = scalar(c, seed + 500 + m.len() as u64);
            let (r, s) = c.ecdsa_sign(&scalar(c, seed), &c.hash_to_scalar(&h.hash(m)), &k).unwrap();
            der::seq(&[der::uint(&to_be(&r, c.len)), der::uint(&to_be(&s, c.len))])
        }
        match (self.kind, how) {
            (Kind::Rsa, How::Pkcs1(h)) => {
                let k = self.rsa.as_ref().unwrap();
                Some(k.private(&B::from_be(&rsaref::pkcs1_em(h, m, k.k()))).be(k.k()))
            }
            (Kind::Rsa, How::Pss(h)) => {
                let k = self.rsa.as_ref().unwrap();
                Some(k.private(&B::from_be(&rsaref::pss_em(h, m, &bytes(3, h.len()), k.n.bits()))).be(k.k()))
            }
            (Kind::P256, How::Ec(h)) => Some(ecdsa(ec::p256(), self.seed, h, m)),
            (Kind::P384, How::Ec(h)) => Some(ecdsa(ec::p384(), self.seed, h, m)),
            (Kind::Ed, How::Ed) => Some(c25519().sign(&arr(self.seed), m).to_vec()),
            _ => None,
        }
    }
}
/// the reference's verdict
fn valid(kind: Kind, how: How, public: &[u8], m: &[u8], sig: &[u8]) -> bool {
    fn ecdsa<const N: usize>(c: &Curve<N>, p: &[u8], h: H, m: &[u8], sig: &[u8]) -> bool {
        let Some(q) = point(c, p) else { return false };
        let mut r = der::R(sig);
        let Some(mut s) = r.seq() else { return false };
        let (Some(a), Some(b)) = (s.uint(), s.uint()) else { return false };
        if !s.empty() || !r.empty() || a.len() > c.len || b.len() > c.len {
            return false;
        }
        c.ecdsa_verify(&q, &c.hash_to_scalar(&h.hash(m)), &from_be(a), &from_be(b))
    }
    match (kind, how) {
        (Kind::Rsa, How::Pkcs1(h) | How::Pss(h)) => {
            let mut r = der::R(public);
            let Some(mut s) = r.seq() else { return false };
            let (Some(n), Some(e)) = (s.uint(), s.uint()) else { return false };
            if !s.empty() || !r.empty() {
                return false;
            }
            let n = B::from_be(n);
            sig.len() == n.bits().div_ceil(8) && rsaref::verify(&n, &B::from_be(e), h, matches!(how, How::Pss(_)), m, sig)
        }
        (Kind::P256, How::Ec(h)) => ecdsa(ec::p256(), public, h, m, sig),
        (Kind::P384, How::Ec(h)) => ecdsa(ec::p384(), public, h, m, sig),
        (Kind::Ed, How::Ed) => public.try_into().is_ok_and(|p| c25519().verify(p, sig, m) == Some(true)),
        _ => false,
    }
}
fn point<const N: usize>(c: &Curve<N>, b: &[u8]) -> Option<Aff<N>> {
    if b.len() != 1 + 2 * c.len || b[0] != 4 {
        return None;
    }
    let (x, y) = (from_be(&b[1..1 + c.len]), from_be(&b[1 + c.len..]));
    c.on_curve(&x, &y).then_some(Some((x, y)))
}

/// name, meaning, and (TLS 1.3) the key it is for
const SCHEMES: [(S, How, Kind); 9] = [
    (S::RSA_PKCS1_SHA256, How::Pkcs1(H::S256), Kind::Rsa),
    (S::RSA_PKCS1_SHA384, How::Pkcs1(H::S384), Kind::Rsa),
    (S::RSA_PKCS1_SHA512, How::Pkcs1(H::S512), Kind::Rsa),
    (S::RSA_PSS_SHA256, How::Pss(H::S256), Kind::Rsa),
    (S::RSA_PSS_SHA384, How::Pss(H::S384), Kind::Rsa),
    (S::RSA_PSS_SHA512, How::Pss(H::S512), Kind::Rsa),
    (S::ECDSA_NISTP256_SHA256, How::Ec(H::S256), Kind::P256),
    (S::ECDSA_NISTP384_SHA384, How::Ec(H::S384), Kind::P384),
    (S::ED25519, How::Ed, Kind::Ed),
];
fn how(s: S) -> How {
    SCHEMES.iter().find(|x| x.0 == s).unwrap().1
}
/// the certificate algorithms: (key, signature) identifiers, meaning
fn algs() -> Vec<(AlgorithmIdentifier, AlgorithmIdentifier, Kind, How)> {
    use alg_id::*;
    vec![
        (ECDSA_P256, ECDSA_SHA256, Kind::P256, How::Ec(H::S256)),
        (ECDSA_P256, ECDSA_SHA384, Kind::P256, How::Ec(H::S384)),
        (ECDSA_P256, ECDSA_SHA512, Kind::P256, How::Ec(H::S512)),
        (ECDSA_P384, ECDSA_SHA256, Kind::P384, How::Ec(H::S256)),
        (ECDSA_P384, ECDSA_SHA384, Kind::P384, How::Ec(H::S384)),
        (ECDSA_P384, ECDSA_SHA512, Kind::P384, How::Ec(H::S512)),
        (ED25519, ED25519, Kind::Ed, How::Ed),
        (RSA_ENCRYPTION, RSA_PSS_SHA256, Kind::Rsa, How::Pss(H::S256)),
        (RSA_ENCRYPTION, RSA_PSS_SHA384, Kind::Rsa, How::Pss(H::S384)),
        (RSA_ENCRYPTION, RSA_PSS_SHA512, Kind::Rsa, How::Pss(H::S512)),
        (RSA_ENCRYPTION, RSA_PKCS1_SHA256, Kind::Rsa, How::Pkcs1(H::S256)),
        (RSA_ENCRYPTION, RSA_PKCS1_SHA384, Kind::Rsa, How::Pkcs1(H::S384)),
        (RSA_ENCRYPTION, RSA_PKCS1_SHA512, Kind::Rsa, How::Pkcs1(H::S512)),
    ]
}
type Alg = &'static dyn SignatureVerificationAlgorithm;
fn meaning(a: Alg) -> Option<(Kind, How)> {
    algs().into_iter().find(|(k, s, _, _)| a.public_key_alg_id() == *k && a.signature_alg_id() == *s).map(|x| (x.2, x.3))
}

fn load(form: u8, der: Vec<u8>) -> Result<Result<Arc<dyn SigningKey>, String>, String> {
    let k = match form {
        8 => PrivateKeyDer::Pkcs8(der.into()),
        1 => PrivateKeyDer::Pkcs1(der.into()),
        _ => PrivateKeyDer::Sec1(der.into()),
    };
    no_panic(|| rustls_graviola::default_provider().key_provider.load_private_key(k).map_err(|e| format!("{e:?}")))
}

fn keys(ctx: &Ctx) -> Vec<Key> {
    let mut v = vec![];
    let take = ctx.pick(3, 5);
    for (i, k) in rsaref::samples().into_iter().take(take).enumerate() {
        v.push(Key { name: format!("RSA sample {i}, {} bits", k.n.bits()), kind: Kind::Rsa, rsa: Some(k), seed: 0 });
    }
    for (i, k) in rsaref::fixtures().into_iter().enumerate() {
        // moduli of every length modulo 8
        let bits = k.n.bits();
        if (2048..=2100).contains(&bits) && !v.iter().any(|x: &Key| x.rsa.as_ref().unwrap().n.bits() == bits) {
            v.push(Key { name: format!("RSA fixture {i}, {bits} bits"), kind: Kind::Rsa, rsa: Some(k), seed: 0 });
        }
    }
    for kind in [Kind::P256, Kind::P384, Kind::Ed] {
        for s in 0..3 {
            v.push(Key::new(kind, s));
        }
    }
    v
}

fn show<T: std::fmt::Debug>(r: &Result<Result<T, String>, String>) -> String {
    let s = format!("{r:?}");
    s.chars().take(300).collect()
}

/// signing with a chosen scheme gives a signature of exactly that scheme
fn sign_check(l: &mut L, k: &Key, s: &dyn Signer, m: &[u8], seed: u64) -> Option<Vec<u8>> {
    let sig = rng::seeded(seed, || no_panic(|| s.sign(m).map_err(|e| format!("{e:?}"))));
    l.t(1);
    let Ok(Ok(sig)) = sig else {
        l.check(false, || format!("{} {:?}: signing {} bytes: {}", k.name, s.scheme(), m.len(), show(&sig)));
        return None;
    };
    l.s(&sig);
    let h = how(s.scheme());
    l.check(valid(k.kind, h, &k.public(), m, &sig), || format!("{} {:?}: signature of {} bytes is no {h:?}: {}", k.name, s.scheme(), m.len(), hex(&sig)));
    Some(sig)
}

fn explore(ctx: &Ctx) {
    ctx.assume("reference: RFC 8017, FIPS 186-5, RFC 8032 over the independent arithmetic of mc/src; scheme meanings from RFC 8446 section 4.2.3");
    let ks = keys(ctx);
    let sup = rustls_graviola::default_provider().signature_verification_algorithms;
    // tables
    ctx.section("algorithm-tables", 1, |_, l| {
        let want = algs();
        l.t(2);
        l.s(b"tables");
        for (k, s, kind, h) in &want {
            let n = sup.all.iter().filter(|a| a.public_key_alg_id() == *k && a.signature_alg_id() == *s).count();
            l.check(n == 1, || format!("{kind:?} {h:?}: offered {n} times"));
        }
        l.check(sup.all.len() == want.len(), || format!("{} algorithms offered", sup.all.len()));
        for (s, h, kind) in SCHEMES {
            let lists: Vec<_> = sup.mapping.iter().filter(|x| x.0 == s).collect();
            if !l.check(lists.len() == 1, || format!("{s:?} mapped {} times", lists.len())) {
                continue;
            }
            for (i, a) in lists[0].1.iter().enumerate() {
                let m = meaning(*a);
                // TLS 1.3 uses the first; TLS 1.2 ECDSA allows the other curve
                l.check(m == Some((kind, h)) || (i > 0 && matches!((m, h), (Some((Kind::P256 | Kind::P384, x)), How::Ec(_)) if x == h)), || format!("{s:?} maps to {m:?} at {i}"));
            }
            l.check(!lists[0].1.is_empty(), || format!("{s:?} maps to nothing"));
        }
        l.check(sup.mapping.len() == SCHEMES.len(), || format!("{} schemes mapped", sup.mapping.len()));
    });
    // containers
    ctx.section("load", ks.len() * 3, |i, l| {
        let k = &ks[i / 3];
        let form = [8u8, 1, 5][i % 3];
        for (what, body, fits) in [("PKCS#8", k.pkcs8(), form == 8), ("inner", k.inner(), (form == 1 && k.kind == Kind::Rsa) || (form == 5 && matches!(k.kind, Kind::P256 | Kind::P384))), ("SPKI", k.spki(), false), ("public", k.public(), false), ("nothing", vec![], false)] {
            let r = load(form, body.clone());
            l.t(1);
            l.s(&body);
            let ok = match &r {
                Ok(Ok(x)) => fits && x.algorithm() == k.alg_of() && x.public_key().is_some_and(|p| p.as_ref() == k.spki()),
                Ok(Err(_)) => !fits,
                Err(_) => false,
            };
            l.check(ok, || format!("{}: {what} as form {form}: {} public key {:?} want {}", k.name, show(&r), r.as_ref().ok().and_then(|r| r.as_ref().ok()).and_then(|x| x.public_key()).map(|p| hex(p.as_ref())), hex(&k.spki())));
            if fits {
                // cut short or with one octet over
                for n in (0..body.len()).step_by((body.len() / 60).max(1)) {
                    let r = load(form, body[..n].to_vec());
                    l.check(matches!(r, Ok(Err(_))), || format!("{}: {what} cut to {n} octets: {}", k.name, show(&r)));
                }
                let r = load(form, [&body[..], &[0]].concat());
                l.check(matches!(r, Ok(Err(_))), || format!("{}: {what} and an octet: {}", k.name, show(&r)));
            }
        }
    });
    // which keys are loaded as what when one only differs in the identifier
    ctx.section("load-mismatched", ks.len() * ks.len(), |i, l| {
        let (a, b) = (&ks[i / ks.len()], &ks[i % ks.len()]);
        if a.kind == b.kind {
            return;
        }
        let body = der::seq(&[der::uint(&[0]), a.alg(), der::octets(&b.inner())]);
        let r = load(8, body);
        l.t(1);
        l.s64(i as u64);
        l.check(matches!(r, Ok(Err(_))), || format!("key of {} under the identifier of {}: {}", b.name, a.name, show(&r)));
    });
    // choosing: all subsets of the schemes that mean something and some that
    // do not, in several orders
    let mut pool: Vec<S> = SCHEMES.iter().map(|x| x.0).collect();
    pool.extend([S::ECDSA_NISTP521_SHA512, S::ED448, S::ECDSA_SHA1_Legacy, S::RSA_PKCS1_SHA1, S::Unknown(0x0804 + 0x100), S::ML_DSA_44]);
    let one: Vec<&Key> = [Kind::Rsa, Kind::P256, Kind::P384, Kind::Ed].iter().map(|k| ks.iter().find(|x| x.kind == *k).unwrap()).collect();
    let loaded: Vec<Arc<dyn SigningKey>> = one.iter().map(|k| k.load()).collect();
    let choose = |l: &mut L, j: usize, list: &[S]| {
        let k = one[j];
        let mine = k.schemes();
        let r = no_panic(|| loaded[j].choose_scheme(list).map(|s| s.scheme()));
        l.t(1);
        l.check(
            match r {
                Ok(Some(s)) => list.contains(&s) && mine.contains(&s),
                Ok(None) => !list.iter().any(|s| mine.contains(s)),
                Err(_) => false,
            },
            || format!("{} offered {list:?} chooses {r:?}", k.name),
        );
    };
    ctx.section("choose-subsets", 1 << pool.len(), |m, l| {
        let list: Vec<S> = pool.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
        l.s64(m as u64);
        for j in 0..4 {
            choose(l, j, &list);
            let mut r = list.clone();
            r.reverse();
            choose(l, j, &r);
            let n = r.len();
            if n > 2 {
                r.rotate_left(n / 2);
                choose(l, j, &r);
            }
        }
    });
    ctx.section("choose-orders", pool.len().pow(4), |i, l| {
        let n = pool.len();
        let list = [pool[i % n], pool[i / n % n], pool[i / n / n % n], pool[i / n / n / n]];
        for len in 1..=4 {
            for j in 0..4 {
                choose(l, j, &list[..len]);
            }
        }
        l.s64(i as u64);
    });
    // every 16-bit scheme number
    ctx.section("choose-any-number", 65536, |i, l| {
        for j in 0..4 {
            choose(l, j, &[S::from(i as u16)]);
        }
        l.s64(i as u64);
    });
    // signing
    let lens: Vec<usize> = (0..140).chain([200, 255, 256, 1000, 4096, 20000]).collect();
    let plan: Vec<(usize, S)> = ks.iter().enumerate().flat_map(|(i, k)| k.schemes().into_iter().map(move |s| (i, s))).collect();
    ctx.section("sign", plan.len(), |i, l| {
        let (k, s) = (&ks[plan[i].0], plan[i].1);
        let key = k.load();
        let Some(signer) = key.choose_scheme(&[s]) else {
            l.check(false, || format!("{}: no signer for {s:?}", k.name));
            return;
        };
        l.check(signer.scheme() == s, || format!("{}: chose {:?} for {s:?}", k.name, signer.scheme()));
        // the signer outlives the key
        drop(key);
        let step = if k.kind == Kind::Rsa { ctx.pick(12, 2) } else { 1 };
        for (j, n) in lens.iter().enumerate().filter(|(j, _)| j % step == i % step) {
            if sign_check(l, k, &*signer, &bytes(*n as u64, *n), j as u64).is_none() {
                return;
            }
        }
        // short r and s
        if matches!(k.kind, Kind::P256 | Kind::P384) {
            for j in 0..ctx.pick(600, 10_000) {
                if sign_check(l, k, &*signer, b"m", j).is_none() {
                    return;
                }
            }
        }
        // its own verification algorithm agrees
        let m = b"a message";
        if let Some(sig) = sign_check(l, k, &*signer, m, 3) {
            let a = sup.mapping.iter().find(|x| x.0 == s).and_then(|x| x.1.first());
            l.check(a.is_some_and(|a| a.verify_signature(&k.public(), m, &sig).is_ok()), || format!("{} {s:?}: own signature refused", k.name));
        }
    });
    ctx.section("sign-failing-source", plan.len() * 15, |i, l| {
        let (k, s) = (&ks[plan[i % plan.len()].0], plan[i % plan.len()].1);
        let j = i / plan.len();
        let signer = k.load().choose_scheme(&[s]).unwrap();
        let mut st = State::new(Src::Stream(7));
        st.fail_at = Some(j / 5);
        st.fail_fill = (j % 5) as u8;
        let (r, st) = rng::with(st, || no_panic(|| signer.sign(b"m").map_err(|e| format!("{e:?}"))));
        let hit = st.calls.len() > j / 5;
        l.t(1);
        l.s64(i as u64);
        l.check(
            match &r {
                // hedged signatures may do without, but then must be right
                Ok(Ok(sig)) => valid(k.kind, how(s), &k.public(), b"m", sig),
                Ok(Err(_)) => hit,
                Err(_) => false,
            },
            || format!("{} {s:?}: request {} for randomness failing: {}", k.name, j / 5, show(&r)),
        );
        // it works again after
        sign_check(l, k, &*signer, b"m", 2);
    });
    // signers of all keys, one after another in all orders of two
    let few: Vec<(usize, S)> = plan.iter().copied().filter(|(i, _)| one.iter().any(|k| k.name == ks[*i].name)).collect();
    ctx.section("sign-histories", few.len() * few.len(), |i, l| {
        let signers: Vec<(usize, Box<dyn Signer>)> = [i / few.len(), i % few.len()].iter().map(|x| (few[*x].0, ks[few[*x].0].load().choose_scheme(&[few[*x].1]).unwrap())).collect();
        for r in 0..2 {
            for (k, s) in &signers {
                sign_check(l, &ks[*k], &**s, &bytes(r, 30), r);
            }
        }
    });
    // verification: every algorithm, under every key, of every signature
    let msgs: Vec<Vec<u8>> = [0usize, 32, 100].iter().map(|n| bytes(*n as u64 + 1, *n)).collect();
    let sigs: OnceLock<Vec<(usize, How, usize, Vec<u8>)>> = OnceLock::new();
    let all = sigs.get_or_init(|| {
        let hows: Vec<How> = algs().into_iter().map(|x| x.3).fold(vec![], |mut v, h| {
            if !v.contains(&h) {
                v.push(h);
            }
            v
        });
        let mut v = vec![];
        for (i, k) in ks.iter().enumerate() {
            for h in &hows {
                for (j, m) in msgs.iter().enumerate() {
                    if let Some(s) = k.sign(*h, m) {
                        v.push((i, *h, j, s));
                    }
                }
            }
        }
        v
    });
    ctx.section("verify-matrix", all.len(), |i, l| {
        let (k, h, m, sig) = &all[i];
        for a in sup.all {
            let Some((kind, ah)) = meaning(*a) else {
                l.check(false, || format!("unknown algorithm {:?}", a.signature_alg_id()));
                return;
            };
            for (kj, key) in ks.iter().enumerate() {
                for (mj, msg) in msgs.iter().enumerate() {
                    let want = kj == *k && mj == *m && kind == key.kind && ah == *h;
                    let got = no_panic(|| a.verify_signature(&key.public_cached(), msg, sig).is_ok());
                    l.t(1);
                    l.check(got == Ok(want), || format!("{kind:?} {ah:?} under {} for message {mj}: signature of message {m} by {} with {h:?}: {got:?}", key.name, ks[*k].name));
                }
            }
        }
        l.s(sig);
    });
    // alterations; where one leaves a valid signature, the reference knows
    ctx.section("verify-alterations", sup.all.len(), |i, l| {
        let a = sup.all[i];
        let Some((kind, h)) = meaning(a) else { return };
        let k = ks.iter().find(|k| k.kind == kind).unwrap();
        let m = bytes(4, 50);
        let sig = k.sign(h, &m).unwrap();
        let public = k.public();
        let mut try_ = |p: &[u8], m: &[u8], s: &[u8], what: &dyn Fn() -> String| {
            let got = no_panic(|| a.verify_signature(p, m, s).is_ok());
            l.t(1);
            l.s(s);
            let want = valid(kind, h, p, m, s);
            l.check(got == Ok(want), || format!("{kind:?} {h:?}: {}: {got:?} want {want}", what()));
        };
        try_(&public, &m, &sig, &|| "as signed".into());
        let step = if kind == Kind::Rsa { ctx.pick(5, 1) } else { 1 };
        for b in (0..sig.len() * 8).step_by(step) {
            let mut s = sig.clone();
            s[b / 8] ^= 1 << (b % 8);
            try_(&public, &m, &s, &|| format!("bit {b} of the signature flipped"));
        }
        for b in 0..m.len() * 8 {
            let mut x = m.clone();
            x[b / 8] ^= 1 << (b % 8);
            try_(&public, &x, &sig, &|| format!("bit {b} of the message flipped"));
        }
        for b in (0..public.len() * 8).step_by(if kind == Kind::Rsa { ctx.pick(11, 3) } else { 1 }) {
            let mut p = public.clone();
            p[b / 8] ^= 1 << (b % 8);
            try_(&p, &m, &sig, &|| format!("bit {b} of the public key flipped"));
        }
        for n in 0..sig.len() {
            try_(&public, &m, &sig[..n], &|| format!("signature cut to {n}"));
        }
        for n in 1..20 {
            try_(&public, &m, &[&sig[..], &vec![0; n]].concat(), &|| format!("{n} zeros after the signature"));
            try_(&public, &m, &[&vec![0; n][..], &sig].concat(), &|| format!("{n} zeros before the signature"));
        }
        for n in 0..m.len() {
            try_(&public, &m[..n], &sig, &|| format!("message cut to {n}"));
        }
        for n in (0..public.len()).step_by(if kind == Kind::Rsa { 7 } else { 1 }) {
            try_(&public[..n], &m, &sig, &|| format!("public key cut to {n}"));
        }
        try_(&[&public[..], &[0]].concat(), &m, &sig, &|| "public key and an octet".into());
        for f in [0u8, 0xff] {
            try_(&public, &m, &vec![f; sig.len()], &|| format!("signature all {f}"));
            try_(&public, &m, &[], &|| "no signature".into());
            try_(&[], &m, &sig, &|| "no public key".into());
        }
        // the whole SPKI is not what is expected
        try_(&k.spki(), &m, &sig, &|| "the whole SubjectPublicKeyInfo as public key".into());
        match kind {
            Kind::Rsa => {
                let r = k.rsa.as_ref().unwrap();
                // representatives beyond the modulus
                let s = B::from_be(&sig).add(&r.n);
                try_(&public, &m, &s.be(s.bits().div_ceil(8)), &|| "signature plus the modulus".into());
                if let How::Pss(hh) = h {
                    for n in 0..=hh.len() + 20 {
                        let em = rsaref::pss_em(hh, &m, &bytes(3, n), r.n.bits());
                        let s = r.private(&B::from_be(&em)).be(r.k());
                        try_(&public, &m, &s, &|| format!("salt of {n} octets"));
                    }
                }
                // the digest of another hash, the name of this one
                if let How::Pkcs1(hh) = h {
                    for other in H::ALL {
                        if other != hh {
                            let mut em = rsaref::pkcs1_em(other, &m, r.k());
                            let n = em.len();
                            let t = other.hash(&m);
                            em[n - t.len()..].copy_from_slice(&t);
                            try_(&public, &m, &r.private(&B::from_be(&em)).be(r.k()), &|| format!("{other:?} within {hh:?}"));
                        }
                    }
                    // without the NULL
                    let t = [&rsaref::digest_info(hh)[..], &hh.hash(&m)].concat();
                    let mut em = vec![0xff; r.k()];
                    em[0] = 0;
                    em[1] = 1;
                    let mut t2 = t.clone();
                    t2.drain(15..17);
                    t2[1] -= 2;
                    t2[3] -= 2;
                    let at = em.len() - t2.len();
                    em[at - 1] = 0;
                    em[at..].copy_from_slice(&t2);
                    try_(&public, &m, &r.private(&B::from_be(&em)).be(r.k()), &|| "DigestInfo without NULL".into());
                }
            }
            Kind::P256 | Kind::P384 => {
                // raw r and s rather than DER; swapped; negated s (valid too)
                let mut r = der::R(&sig);
                let mut s = r.seq().unwrap();
                let (x, y) = (s.uint().unwrap(), s.uint().unwrap());
                let c = if kind == Kind::P256 { 32 } else { 48 };
                let pad = |b: &[u8]| [&vec![0; c - b.len()][..], b].concat();
                try_(&public, &m, &[pad(x), pad(y)].concat(), &|| "raw r and s".into());
                try_(&public, &m, &der::seq(&[der::uint(y), der::uint(x)]), &|| "r and s swapped".into());
                let neg = if kind == Kind::P256 {
                    to_be(&mc::mont::sub_raw(&ec::p256().n.m, &from_be(y)).0, 32)
                } else {
                    to_be(&mc::mont::sub_raw(&ec::p384().n.m, &from_be(y)).0, 48)
                };
                try_(&public, &m, &der::seq(&[der::uint(x), der::uint(&neg)]), &|| "s negated".into());
                try_(&public, &m, &der::seq(&[der::int_raw(&[&[0, 0][..], x].concat()), der::uint(y)]), &|| "r with zeros in front".into());
                try_(&public, &m, &der::seq(&[der::uint(x), der::uint(y), der::null()]), &|| "something after s".into());
            }
            Kind::Ed => {}
        }
    });
}
impl Key {
    fn public_cached(&self) -> Vec<u8> {
        use std::collections::HashMap;
        use std::sync::RwLock;
        static C: OnceLock<RwLock<HashMap<String, Vec<u8>>>> = OnceLock::new();
        let c = C.get_or_init(Default::default);
        if let Some(v) = c.read().unwrap().get(&self.name) {
            return v.clone();
        }
        let v = self.public();
        c.write().unwrap().insert(self.name.clone(), v.clone());
        v
    }
}

fn main() {
    fw::main("C26", explore);
}
