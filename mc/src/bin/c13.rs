//! C13: RSA verification accepts exactly well-formed signatures.
use graviola::signing::rsa::VerifyingKey;
use mc::big::B;
use mc::der;
use mc::fw::{self, Ctx, L};
use mc::hashref::H;
use mc::rng;
use mc::rsaref::*;

struct V {
    n: B,
    e: B,
    k: VerifyingKey,
}
fn vk(n: &B, e: &B) -> V {
    let d = der::seq(&[der::uint(&n.bytes()), der::uint(&e.bytes())]);
    V { n: n.clone(), e: e.clone(), k: VerifyingKey::from_pkcs1_der(&d).expect("public key") }
}
fn judge(l: &mut L, v: &V, h: H, pss: bool, m: &[u8], sig: &[u8], what: &dyn Fn() -> String) -> bool {
    let want = verify(&v.n, &v.e, h, pss, m, sig);
    let got = fw::no_panic(|| lib_verify(&v.k, h, pss, m, sig).is_ok());
    l.t(1);
    l.s(sig);
    l.check(got == Ok(want), || format!("{} {h:?} pss={pss} n {} bits e {:?} sig {} bytes {}: got {got:?} want {want}", what(), v.n.bits(), v.e.0, sig.len(), fw::hex(sig)));
    want
}
/// signature with this encoded message as its public image
fn sig_of(k: &Key, em: &[u8]) -> Option<Vec<u8>> {
    let m = B::from_be(em);
    m.lt(&k.n).then(|| k.private(&m).be(k.k()))
}
fn em_of(h: H, pss: bool, m: &[u8], seed: u64, bits: usize) -> Vec<u8> {
    if pss { pss_em(h, m, &rng::bytes(seed, h.len()), bits) } else { pkcs1_em(h, m, bits.div_ceil(8)) }
}

fn run(cx: &Ctx) {
    let fx = fixtures();
    let sm = samples();
    let keys: Vec<&Key> = fx.iter().chain(&sm).collect();
    let vs: Vec<V> = keys.iter().map(|k| vk(&k.n, &k.e)).collect();
    let algs: Vec<(H, bool)> = HS.iter().flat_map(|h| [(*h, false), (*h, true)]).collect();

    // every key size and exponent, every scheme, checked under every scheme
    cx.section("sizes", keys.len() * 6 * cx.pick(2, 8), |i, l| {
        let (ki, rest) = (i % keys.len(), i / keys.len());
        let (h, pss) = algs[rest % 6];
        let (k, v) = (keys[ki], &vs[ki]);
        let m = rng::bytes(i as u64, i % 90);
        let s = sig_of(k, &em_of(h, pss, &m, i as u64, k.n.bits())).unwrap();
        for (h2, p2) in &algs {
            let ok = judge(l, v, *h2, *p2, &m, &s, &|| format!("valid under {h:?} pss={pss}, judged"));
            l.check(ok == ((h, pss) == (*h2, *p2)), || "reference".into());
        }
        let mut m2 = m.clone();
        m2.push(0);
        judge(l, v, h, pss, &m2, &s, &|| "other message".into());
        judge(l, &vs[(ki + 1) % vs.len()], h, pss, &m, &s, &|| "other key".into());
        l.note(|| format!("modulus of {} bits, e = {:?}, {h:?} pss={pss}", k.n.bits(), k.e.0));
    });
    // message lengths
    cx.section("messages", cx.pick(300, 1200) * 2, |i, l| {
        let (h, pss) = (HS[i % 3], i % 2 == 0);
        let m = rng::bytes(i as u64, i / 2);
        let s = sig_of(keys[0], &em_of(h, pss, &m, i as u64, 2048)).unwrap();
        judge(l, &vs[0], h, pss, &m, &s, &|| "message length".into());
    });
    // moduli next to limb patterns (prime, so every element has a root): carries
    // and conditional subtractions of the modular arithmetic
    let mods: Vec<B> = include_str!("../../data/rsa_moduli.txt").lines().map(|l| B::from_be(&fw::unhex(l.split(' ').nth(1).unwrap()))).collect();
    cx.section("structured-moduli", mods.len() * cx.pick(3, 24), |i, l| {
        let n = &mods[i % mods.len()];
        let r = i / mods.len();
        let e = B::u([65537, 3, 17, 5, 257, 4294967295, 1, 2147483647][r / 3 % 8]);
        let n1 = n.sub(&B::u(1));
        let Some(d) = e.inv(&n1) else { return };
        let v = vk(n, &e);
        for j in 0..2u64 {
            let (h, pss) = algs[(r + j as usize * 3) % 6];
            let m = rng::bytes(i as u64 * 2 + j, 20);
            let em = em_of(h, pss, &m, j, n.bits());
            let s = B::from_be(&em).pow(&d, n);
            let ok = judge(l, &v, h, pss, &m, &s.be(n.bits().div_ceil(8)), &|| "structured modulus".into());
            l.check(ok, || "reference".into());
            judge(l, &v, h, pss, &m, &n.sub(&s).be(n.bits().div_ceil(8)), &|| "negated".into());
        }
        l.note(|| format!("prime modulus {}", fw::hex(&n.bytes()[..16])));
    });
    // a public exponent of every size: e = 1 .. and all bit patterns of interest
    let es: Vec<u64> = (1..=cx.pick(40, 600)).chain((1..32).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1])).chain([u32::MAX as u64, u32::MAX as u64 - 1]).collect();
    cx.section("exponents", es.len(), |i, l| {
        let e = B::u(es[i]);
        let k = keys[0];
        let d = der::seq(&[der::uint(&k.n.bytes()), der::uint(&e.bytes())]);
        // any odd exponent is usable; others may be refused at load
        let Ok(lk) = VerifyingKey::from_pkcs1_der(&d) else {
            l.check(es[i] % 2 == 0 || es[i] == 1, || format!("exponent {} refused", es[i]));
            return;
        };
        let v = V { n: k.n.clone(), e: e.clone(), k: lk };
        let em = em_of(H::S256, false, b"exp", 0, 2048);
        let phi = k.p.sub(&B::u(1)).mul(&k.q.sub(&B::u(1)));
        if let Some(dd) = e.inv(&phi) {
            let s = B::from_be(&em).pow(&dd, &k.n);
            let ok = judge(l, &v, H::S256, false, b"exp", &s.be(256), &|| "exponent".into());
            l.check(ok, || "reference".into());
        }
        judge(l, &v, H::S256, false, b"exp", &em, &|| "encoded message itself".into());
    });
    // PKCS#1 v1.5: every byte of the encoded message altered
    let em0: Vec<Vec<u8>> = HS.iter().map(|h| em_of(*h, false, b"msg", 0, 2048)).collect();
    let vals: Vec<u8> = if cx.quick() { vec![1, 0x80, 0xff] } else { (1..=255).collect() };
    cx.section("pkcs1-em-bytes", 256 * vals.len() * 3, |i, l| {
        let h = HS[i % 3];
        let mut em = em0[i % 3].clone();
        em[i / 3 / vals.len()] ^= vals[i / 3 % vals.len()];
        if let Some(s) = sig_of(keys[0], &em) {
            let ok = judge(l, &vs[0], h, false, b"msg", &s, &|| format!("EM byte {} altered", i / 3 / vals.len()));
            l.check(!ok, || "reference".into());
        }
    });
    // structural variants of the v1.5 encoding
    let mut vars: Vec<(String, H, Vec<u8>)> = vec![];
    for h in HS {
        let hv = h.hash(b"msg");
        let good = [digest_info(h), hv.clone()].concat();
        let oid = |last: u8| der::oid(&[0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, last]);
        let id = match h {
            H::S256 => 1,
            H::S384 => 2,
            H::S512 => 3,
        };
        let mut ts: Vec<(String, Vec<u8>)> = vec![("good".into(), good.clone())];
        ts.push(("no parameters".into(), der::seq(&[der::seq(&[oid(id)]), der::octets(&hv)])));
        ts.push(("empty parameters".into(), der::seq(&[der::seq(&[oid(id), der::octets(&[])]), der::octets(&hv)])));
        for o in 1..=12u8 {
            if o != id {
                ts.push((format!("hash oid {o}"), der::seq(&[der::seq(&[oid(o), der::null()]), der::octets(&hv)])));
            }
        }
        ts.push(("md5".into(), der::seq(&[der::seq(&[der::oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5]), der::null()]), der::octets(&hv)])));
        ts.push(("bare hash".into(), hv.clone()));
        ts.push(("nothing".into(), vec![]));
        ts.push(("extra element".into(), der::seq(&[der::seq(&[oid(id), der::null()]), der::octets(&hv), der::null()])));
        ts.push(("extra in algorithm".into(), der::seq(&[der::seq(&[oid(id), der::null(), der::null()]), der::octets(&hv)])));
        ts.push(("long null".into(), der::seq(&[der::seq(&[oid(id), vec![5, 0x81, 0]]), der::octets(&hv)])));
        for cut in 0..hv.len() {
            ts.push((format!("hash cut to {cut}"), der::seq(&[der::seq(&[oid(id), der::null()]), der::octets(&hv[..cut])])));
        }
        // non-minimal lengths
        let body = &good[2..];
        ts.push(("long length 81".into(), [&[0x30, 0x81, body.len() as u8][..], body].concat()));
        ts.push(("long length 82".into(), [&[0x30, 0x82, 0, body.len() as u8][..], body].concat()));
        ts.push(("indefinite".into(), [&[0x30, 0x80][..], body, &[0, 0]].concat()));
        for other in HS {
            ts.push((format!("{other:?} digest"), [digest_info(other), other.hash(b"msg")].concat()));
        }
        for (n, t) in &ts {
            let ps = 256 - 3 - t.len();
            let em = [&[0, 1][..], &vec![0xff; ps], &[0], t].concat();
            vars.push((n.clone(), h, em));
        }
        // padding string variants with garbage after the hash, every length
        for g in 1..=(256 - 3 - good.len()) {
            let ps = 256 - 3 - good.len() - g;
            vars.push((format!("{g} trailing bytes"), h, [&[0, 1][..], &vec![0xff; ps], &[0], &good, &vec![0; g]].concat()));
            vars.push((format!("{g} bytes after the separator"), h, [&[0, 1][..], &vec![0xff; ps], &[0], &vec![0; g], &good].concat()));
        }
        for bt in 0..=255u8 {
            for lead in [0, 1, 2] {
                let mut em = em0[HS.iter().position(|x| *x == h).unwrap()].clone();
                em[0] = lead;
                em[1] = bt;
                vars.push((format!("leader {lead} type {bt}"), h, em));
            }
        }
        // all-zero padding, block type 0
        let mut em = vec![0; 256 - good.len()];
        em.extend(&good);
        vars.push(("type 0".into(), h, em));
    }
    let stride = cx.pick(1, 1);
    cx.section("pkcs1-variants", vars.len().div_ceil(stride), |i, l| {
        let (n, h, em) = &vars[i * stride];
        if let Some(s) = sig_of(keys[0], em) {
            let ok = judge(l, &vs[0], *h, false, b"msg", &s, &|| n.clone());
            let good = *em == em0[HS.iter().position(|x| x == h).unwrap()];
            l.check(ok == good, || format!("reference: {n}"));
        }
        l.note(|| n.clone());
    });
    // low-exponent forgeries: cube roots that match a prefix of the encoding
    let k3 = keys.iter().position(|k| k.e == B::u(3) && k.n.bits() == 2048).unwrap();
    cx.section("cube-root", 200, |i, l| {
        for h in HS {
            let t = [digest_info(h), h.hash(b"msg")].concat();
            let ps = i % 8 + 8 * usize::from(i >= 100);
            let pre = [&[0u8, 1][..], &vec![0xff; ps], &[0], &t].concat();
            let mut tgt = pre.clone();
            tgt.resize(256, 0);
            // integer cube root, rounded up
            let t = B::from_be(&tgt);
            let (mut lo, mut hi) = (B::zero(), B::pow2(700));
            while lo.lt(&hi) {
                let mid = lo.add(&hi).shr(1);
                if mid.mul(&mid).mul(&mid).lt(&t) { lo = mid.add(&B::u(1)) } else { hi = mid }
            }
            let s = lo.add(&B::u(i as u64 / 8));
            judge(l, &vs[k3], h, false, b"msg", &s.be(256), &|| "cube root forgery".into());
        }
    });
    // PSS: every byte of the encoded message altered, at several modulus sizes
    let pk: Vec<usize> = keys.iter().enumerate().filter(|(_, k)| [2048, 2049, 2050, 2055, 2056, 2057].contains(&k.n.bits()) && k.e == B::u(65537)).map(|x| x.0).take(7).collect();
    let pvals: Vec<u8> = if cx.quick() { vec![1, 0x80] } else { (0..8).map(|b| 1 << b).chain([0xff, 0x55]).collect() };
    cx.section("pss-em-bytes", 258 * pvals.len() * pk.len(), |i, l| {
        let ki = pk[i % pk.len()];
        let (k, v) = (keys[ki], &vs[ki]);
        let h = HS[i % 3];
        let mut em = em_of(h, true, b"msg", i as u64, k.n.bits());
        let at = i / pk.len() / pvals.len();
        if at >= em.len() {
            return;
        }
        em[at] ^= pvals[i / pk.len() % pvals.len()];
        if let Some(s) = sig_of(k, &em) {
            judge(l, v, h, true, b"msg", &s, &|| format!("PSS EM byte {at} altered"));
        }
    });
    // PSS: the data block rebuilt with each structural change
    let salts: Vec<usize> = (0..=cx.pick(70, 160)).collect();
    cx.section("pss-salt-lengths", salts.len() * 3 * pk.len(), |i, l| {
        let ki = pk[i % pk.len()];
        let (k, v) = (keys[ki], &vs[ki]);
        let h = HS[i / pk.len() % 3];
        let sl = salts[i / pk.len() / 3];
        let em = pss_em(h, b"msg", &rng::bytes(i as u64, sl), k.n.bits());
        let s = sig_of(k, &em).unwrap();
        let ok = judge(l, v, h, true, b"msg", &s, &|| format!("salt of {sl} bytes"));
        l.check(ok == (sl == h.len()), || "reference".into());
    });
    cx.section("pss-db", 3 * 300 * pk.len(), |i, l| {
        let ki = pk[i % pk.len()];
        let (k, v) = (keys[ki], &vs[ki]);
        let h = HS[i / pk.len() % 3];
        let c = i / pk.len() / 3;
        let bits = k.n.bits() - 1;
        let len = bits.div_ceil(8);
        let dl = len - h.len() - 1;
        let salt = rng::bytes(5, h.len());
        let hh = h.hash(&[&[0; 8][..], &h.hash(b"msg"), &salt].concat());
        let mut db = vec![0; dl];
        let at = dl - salt.len() - 1;
        db[at] = 1;
        db[at + 1..].copy_from_slice(&salt);
        let mut trailer = 0xbc;
        let mut mask = 0xffu8 >> (8 * len - bits);
        let mut premask = false;
        match c {
            0..=199 if c < at => db[c] = 1,
            0..=199 => return,
            200..=231 => db[at] = (c - 200) as u8 ^ 0x80,
            232..=239 => db[at] = 1 << (c - 232),
            240 => db[at] = 0,
            241..=248 => trailer ^= 1 << (c - 241),
            249 => trailer = 0xcc,
            // bits above emBits left set
            250..=257 => mask |= 1 << (c - 250),
            258..=265 => {
                premask = true;
                db[0] |= 1 << (c - 258);
            }
            266 => mask = 0xff,
            267 => db[at - 1] = 1,
            268 => {
                db[at] = 0;
                db[at - 1] = 1;
            }
            269 => db[..at].fill(0xff),
            _ => return,
        }
        let mut m: Vec<u8> = db.iter().zip(mgf1(h, &hh, dl)).map(|(a, b)| a ^ b).collect();
        m[0] &= mask;
        if premask {
            m[0] &= 0xff >> (8 * len - bits);
        }
        let em = [&m[..], &hh, &[trailer]].concat();
        if let Some(s) = sig_of(k, &em) {
            judge(l, v, h, true, b"msg", &s, &|| format!("PSS data block case {c}"));
        }
    });
    // image too large for the encoded message (modulus one bit over a byte)
    let over: Vec<usize> = keys.iter().enumerate().filter(|(_, k)| k.n.bits() % 8 == 1).map(|x| x.0).collect();
    cx.section("pss-image-above", over.len() * 6, |i, l| {
        let (k, v) = (keys[over[i % over.len()]], &vs[over[i % over.len()]]);
        let h = HS[i / over.len() % 3];
        let em = pss_em(h, b"msg", &rng::bytes(1, h.len()), k.n.bits());
        let s = sig_of(k, &em).unwrap();
        judge(l, v, h, true, b"msg", &s, &|| "good".into());
        let big = [&[1u8][..], &em].concat();
        if let Some(s) = sig_of(k, &big) {
            judge(l, v, h, true, b"msg", &s, &|| "extra leading octet 1".into());
        }
    });
    // signature as bytes: bit flips, arithmetic twins, lengths
    let sigs: Vec<(usize, H, bool, Vec<u8>)> = (0..algs.len())
        .flat_map(|a| [0usize, 3, 7].map(|ki| (a, ki)))
        .map(|(a, ki)| {
            let (h, pss) = algs[a];
            (ki, h, pss, sig_of(keys[ki], &em_of(h, pss, b"msg", a as u64, keys[ki].n.bits())).unwrap())
        })
        .collect();
    cx.section("bit-flips", sigs.len() * 2072, |i, l| {
        let (ki, h, pss, s) = &sigs[i / 2072];
        let b = i % 2072;
        if b / 8 < s.len() && !(cx.quick() && i / 2072 % 3 != 0 && b % 8 != 0) {
            let mut x = s.clone();
            x[b / 8] ^= 1 << (b % 8);
            judge(l, &vs[*ki], *h, *pss, b"msg", &x, &|| format!("signature bit {b}"));
        }
    });
    cx.section("lengths", sigs.len() * 540, |i, l| {
        let (ki, h, pss, s) = &sigs[i / 540];
        let n = i % 540;
        let v = &vs[*ki];
        let tail: Vec<u8> = s.iter().copied().chain(std::iter::repeat(0)).take(n).collect();
        judge(l, v, *h, *pss, b"msg", &tail, &|| format!("cut or zero-extended to {n}"));
        let head = if n >= s.len() { [vec![0; n - s.len()], s.clone()].concat() } else { s[s.len() - n..].to_vec() };
        judge(l, v, *h, *pss, b"msg", &head, &|| format!("front cut or zero-filled to {n}"));
        if n < 40 {
            judge(l, v, *h, *pss, b"msg", &vec![n as u8; s.len()], &|| "constant".into());
            let twice = [&s[..], &s[..]].concat();
            judge(l, v, *h, *pss, b"msg", &twice, &|| "twice".into());
        }
    });
    cx.section("oversize-lengths", 6, |i, l| {
        let (h, pss) = algs[i];
        for n in [767, 768, 1023, 1024, 1025, 1032, 2048, 8192, 20000] {
            for b in [0, 1, 0xff] {
                judge(l, &vs[0], h, pss, b"msg", &vec![b; n], &|| format!("{n} bytes of {b}"));
            }
            let s = &sigs.iter().find(|s| s.0 == 0 && (s.1, s.2) == (h, pss)).unwrap().3;
            judge(l, &vs[0], h, pss, b"msg", &[vec![0; n - s.len()], s.clone()].concat(), &|| format!("{n} bytes, zero front"));
        }
    });
    cx.section("twins", sigs.len(), |i, l| {
        let (ki, h, pss, s) = &sigs[i];
        let (k, v) = (keys[*ki], &vs[*ki]);
        let sv = B::from_be(s);
        let n = &k.n;
        let mut c: Vec<B> = vec![B::zero(), B::u(1), B::u(2), n.clone(), n.sub(&B::u(1)), n.add(&B::u(1)), n.sub(&sv), B::pow2(8 * k.k()).sub(&B::u(1)), B::pow2(8 * k.k() - 1), k.p.clone(), k.q.clone()];
        let mut x = sv.clone();
        for _ in 0..8 {
            x = x.add(n);
            c.push(x.clone());
        }
        for y in c {
            for len in [k.k(), k.k() + 1, k.k() + 8] {
                if y.bits() <= 8 * len {
                    judge(l, v, *h, *pss, b"msg", &y.be(len), &|| "boundary value".into());
                }
            }
        }
    });
    // signatures that begin with zero bytes: accepted whole, refused when stripped
    cx.section("leading-zeros", 12, |i, l| {
        let (h, pss) = algs[i % 6];
        let ki = if i < 6 { 0 } else { 4 };
        let k = keys[ki];
        for c in 0u32..4000 {
            let m = c.to_le_bytes();
            let s = sig_of(k, &em_of(h, pss, &m, 0, k.n.bits())).unwrap();
            if s[0] == 0 {
                let ok = judge(l, &vs[ki], h, pss, &m, &s, &|| "leading zero".into());
                l.check(ok, || "reference".into());
                judge(l, &vs[ki], h, pss, &m, &s[1..], &|| "leading zero stripped".into());
                judge(l, &vs[ki], h, pss, &m, &[&[0], &s[..]].concat(), &|| "one more zero".into());
                judge(l, &vs[ki], h, pss, &m, &[&s[1..], &[0]].concat(), &|| "zero moved to the end".into());
                l.note(|| format!("message {c}"));
                return;
            }
        }
        l.check(false, || "no signature with a leading zero found".into());
    });
}

fn main() {
    fw::main("C13", |cx| {
        cx.assume("oracle: RFC 8017 sections 8.1.2, 8.2.2, 9.1.2, 9.2 over independent big-integer arithmetic");
        run(cx);
    });
}
