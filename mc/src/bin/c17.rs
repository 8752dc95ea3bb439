//! C17: output buffers of every length, for every operation that fills one.
use graviola::Error;
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::signing::ecdsa::{self, Curve, P256, P384};
use graviola::signing::eddsa::Ed25519SigningKey;
use graviola::signing::rsa;
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::hashref::H;
use mc::rng::{self, Src, State};
use mc::rsaref::{self, HS, Key};

type Op<'a> = Box<dyn Fn(&mut [u8]) -> Result<(usize, usize), Error> + Sync + Send + 'a>;
struct Out<'a> {
    name: String,
    /// writes into the buffer; returns the (offset, length) of the returned slice
    op: Op<'a>,
    /// documented error for a short buffer
    wrong_length: bool,
    /// longest result possible
    max: usize,
    /// randomness script
    seed: u64,
    /// all lengths, or only those around the result's length
    all: bool,
}
fn span(buf: *const u8, r: Result<&[u8], Error>) -> Result<(usize, usize), Error> {
    r.map(|s| (s.as_ptr() as usize - buf as usize, s.len()))
}

fn ec<'a, C: Curve<PrivateKey: Send + Sync> + 'a>(v: &mut Vec<Out<'a>>, name: &str, n: usize, sigs: u64, key: impl Fn(u64) -> ecdsa::SigningKey<C>) {
    for ki in 0..3 {
        macro_rules! op {
            ($n:expr, $max:expr, $f:expr) => {
                let k = key(ki);
                let f: fn(&ecdsa::SigningKey<C>, &mut [u8]) -> Result<(usize, usize), Error> = $f;
                v.push(Out { name: format!("{name}/{}/{ki}", $n), op: Box::new(move |b| f(&k, b)), wrong_length: true, max: $max, seed: 1, all: true });
            };
        }
        op!("to_sec1_der", 3 * n + 40, |k, b| span(b.as_ptr(), k.to_sec1_der(b)));
        op!("to_pkcs8_der", 3 * n + 60, |k, b| span(b.as_ptr(), k.to_pkcs8_der(b)));
        op!("to_spki_der", 2 * n + 40, |k, b| span(b.as_ptr(), k.to_spki_der(b)));
    }
    for s in 0..sigs {
        macro_rules! op {
            ($n:expr, $max:expr, $f:expr) => {
                let k = key(s);
                let f: fn(&ecdsa::SigningKey<C>, &mut [u8]) -> Result<(usize, usize), Error> = $f;
                v.push(Out { name: format!("{name}/{}/{s}", $n), op: Box::new(move |b| f(&k, b)), wrong_length: true, max: $max, seed: s, all: s < 2 });
            };
        }
        op!("sign-sha256", 2 * n, |k, b| span(b.as_ptr(), k.sign::<Sha256>(&[b"m"], b)));
        op!("sign-sha384", 2 * n, |k, b| span(b.as_ptr(), k.sign::<Sha384>(&[b"m"], b)));
        op!("sign-sha512", 2 * n, |k, b| span(b.as_ptr(), k.sign::<Sha512>(&[b"m"], b)));
        op!("sign_asn1-sha256", 2 * n + 9, |k, b| span(b.as_ptr(), k.sign_asn1::<Sha256>(&[b"m"], b)));
        op!("sign_asn1-sha384", 2 * n + 9, |k, b| span(b.as_ptr(), k.sign_asn1::<Sha384>(&[b"m"], b)));
        op!("sign_asn1-sha512", 2 * n + 9, |k, b| span(b.as_ptr(), k.sign_asn1::<Sha512>(&[b"m"], b)));
    }
}
fn ed<'a>(v: &mut Vec<Out<'a>>) {
    for ki in 0..3u64 {
        let k = Ed25519SigningKey::from_bytes(&rng::bytes(ki + 5, 32)).unwrap();
        v.push(Out { name: format!("ed25519/to_pkcs8_der/{ki}"), op: Box::new(move |b| span(b.as_ptr(), k.to_pkcs8_der(b))), wrong_length: true, max: 90, seed: 1, all: true });
        let k = Ed25519SigningKey::from_bytes(&rng::bytes(ki + 5, 32)).unwrap().public_key();
        v.push(Out { name: format!("ed25519/to_spki_der/{ki}"), op: Box::new(move |b| span(b.as_ptr(), k.to_spki_der(b))), wrong_length: true, max: 60, seed: 1, all: true });
    }
}
fn rsa_ops<'a>(v: &mut Vec<Out<'a>>, ki: usize, key: &'a Key, all: bool) {
    let der = key.pkcs1();
    let load = || rsa::SigningKey::from_pkcs1_der(&der).unwrap();
    let k = load();
    let bits = key.n.bits();
    v.push(Out { name: format!("rsa{bits}.{ki}/to_pkcs1_der"), op: Box::new(move |b| span(b.as_ptr(), k.to_pkcs1_der(b))), wrong_length: false, max: der.len() + 8, seed: 1, all: true });
    let k = load();
    v.push(Out { name: format!("rsa{bits}.{ki}/to_pkcs8_der"), op: Box::new(move |b| span(b.as_ptr(), k.to_pkcs8_der(b))), wrong_length: false, max: der.len() + 40, seed: 1, all: true });
    let k = load().public_key();
    v.push(Out { name: format!("rsa{bits}.{ki}/public-to_pkcs1_der"), op: Box::new(move |b| span(b.as_ptr(), k.to_pkcs1_der(b))), wrong_length: false, max: bits / 8 + 24, seed: 1, all: true });
    let k = load().public_key();
    v.push(Out { name: format!("rsa{bits}.{ki}/public-to_spki_der"), op: Box::new(move |b| span(b.as_ptr(), k.to_spki_der(b))), wrong_length: false, max: bits / 8 + 60, seed: 1, all: true });
    for h in HS {
        for pss in [false, true] {
            let k = load();
            v.push(Out {
                name: format!("rsa{bits}.{ki}/sign-{h:?}-{}", if pss { "pss" } else { "pkcs1" }),
                op: Box::new(move |b| span(b.as_ptr(), rsaref::lib_sign(&k, h, pss, b"m", b))),
                wrong_length: false,
                max: key.k(),
                seed: 3,
                all,
            });
        }
    }
}

/// run with a buffer of `len` bytes holding `fill`; returns the buffer after
fn call(o: &Out, len: usize, fill: u8) -> Result<(Result<(usize, usize), Error>, Vec<u8>), String> {
    // the buffer is in the middle of a larger one, so that the surroundings can be checked
    let mut big = vec![fill; len + 256];
    let (r, _) = rng::with(State::new(Src::Stream(o.seed)), || no_panic(|| (o.op)(&mut big[128..128 + len])));
    let r = r?;
    if big[..128].iter().any(|b| *b != fill) || big[128 + len..].iter().any(|b| *b != fill) {
        return Err("wrote outside the buffer".into());
    }
    Ok((r, big[128..128 + len].to_vec()))
}

fn judge(l: &mut L, o: &Out, want: &[u8], len: usize, fill: u8) {
    l.t(1);
    match call(o, len, fill) {
        Err(p) => {
            l.check(false, || format!("{} with a {len}-byte buffer: {p}", o.name));
        }
        Ok((Ok((off, n)), buf)) => {
            l.check(len >= want.len(), || format!("{} succeeded with a {len}-byte buffer for a {}-byte result", o.name, want.len()));
            l.check(off == 0 && n == want.len(), || format!("{} with a {len}-byte buffer returned {n} bytes at {off}, expected {}", o.name, want.len()));
            if len >= want.len() {
                l.check(&buf[..want.len()] == want, || format!("{} with a {len}-byte buffer: {} expected {}", o.name, hex(&buf[..want.len()]), hex(want)));
                l.check(buf[want.len()..].iter().all(|b| *b == fill), || format!("{} with a {len}-byte buffer changed bytes after the result", o.name));
            }
            l.s(&[o.name.as_bytes(), want, &[1]].concat());
        }
        Ok((Err(e), _)) => {
            l.check(len < want.len(), || format!("{} failed with a {len}-byte buffer for a {}-byte result: {e:?}", o.name, want.len()));
            if o.wrong_length {
                l.check(e == Error::WrongLength, || format!("{} with a {len}-byte buffer: {e:?} instead of WrongLength", o.name));
            }
            l.s(&[o.name.as_bytes(), &len.to_le_bytes(), &[0]].concat());
        }
    }
}

fn main() {
    fw::main("C17", explore);
}
fn explore(ctx: &Ctx) {
    let samples = rsaref::samples();
    let fixtures: Vec<Key> = rsaref::fixtures().into_iter().filter(|k| k.p.bits() >= 1024 && k.n.bits() >= 2048 && k.p.bits().abs_diff(k.q.bits()) <= 1).collect();
    let mut v: Vec<Out> = vec![];
    let sigs = ctx.pick(24, 600);
    // keys with many leading zeros too
    let scalar = |n: usize, i: u64| {
        let mut d = rng::bytes(900 + i, n);
        d[0] = 0;
        if i % 3 == 1 {
            d[..n / 2].fill(0);
        }
        d
    };
    ec::<P256>(&mut v, "p256", 32, sigs, |i| ecdsa::SigningKey { private_key: graviola::key_agreement::p256::StaticPrivateKey::from_bytes(&scalar(32, i)).unwrap() });
    ec::<P384>(&mut v, "p384", 48, sigs, |i| ecdsa::SigningKey { private_key: graviola::key_agreement::p384::StaticPrivateKey::from_bytes(&scalar(48, i)).unwrap() });
    ed(&mut v);
    let mut keys: Vec<&Key> = samples.iter().collect();
    keys.extend(fixtures.iter());
    for (i, k) in keys.iter().enumerate() {
        rsa_ops(&mut v, i, k, k.n.bits() <= 2050 || !ctx.quick());
    }
    let _ = H::S256;
    // group: one section per operation family
    let mut fams: Vec<String> = v.iter().map(|o| o.name.split('/').next().unwrap().to_string()).collect();
    fams.dedup();
    for fam in fams {
        let ops: Vec<&Out> = v.iter().filter(|o| o.name.split('/').next().unwrap() == fam).collect();
        // the result itself, from a generous buffer
        let want: Vec<Result<Vec<u8>, String>> = ops
            .iter()
            .map(|o| match call(o, o.max + 4096, 0x5a) {
                Ok((Ok((0, n)), b)) => Ok(b[..n].to_vec()),
                other => Err(format!("{other:?}").chars().take(200).collect()),
            })
            .collect();
        let mut cases: Vec<(usize, usize)> = vec![];
        for (i, o) in ops.iter().enumerate() {
            let n = want[i].as_ref().map_or(0, |w| w.len());
            let top = o.max + 16;
            for len in 0..=top {
                let near = len <= 3 || len + 4 >= n && len <= n + 4 || len == o.max || len == top;
                if o.all || near {
                    cases.push((i, len));
                }
            }
            cases.push((i, 2048));
            cases.push((i, 10_000));
        }
        let reps = if fam.starts_with("rsa") { 1 } else { 2 };
        ctx.section(&fam, cases.len() * reps, |i, l| {
            let (o, len) = cases[i / reps];
            match &want[o] {
                Ok(w) => {
                    l.check(w.len() <= ops[o].max, || format!("{}: result of {} bytes is longer than its encoding can be", ops[o].name, w.len()));
                    judge(l, ops[o], w, len, [0xa5, 0][i % reps]);
                }
                Err(e) => {
                    l.check(false, || format!("{}: failed with a generous buffer: {e}", ops[o].name));
                }
            }
        });
    }
}
