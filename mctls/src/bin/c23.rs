//! C23: TLS record protection.
use mc::fw::{self, Ctx, hex, no_panic};
use mc::rng::bytes;
use mctls::{Alg, Secrets, Spec, decrypt, encrypt, encrypt_chunks, specs};
use rustls::crypto::KeyExchangeAlgorithm;
use rustls::crypto::cipher::OutboundChunks;
use rustls::{ConnectionTrafficSecrets, SupportedCipherSuite};
use std::collections::HashSet;

const MAX: usize = 16384;
const TYPES: [u8; 4] = [23, 22, 21, 20];

/// what goes on the wire outside the protection
fn outer(s: &Spec, typ: u8, ver: u16) -> (u8, u16) {
    if s.v13 { (23, 0x0303) } else { (typ, ver) }
}
fn seqs() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 62, 1 << 63, u64::MAX - 1, u64::MAX, 0x0123456789abcdef];
    v.extend((0..64).map(|b| 1u64 << b));
    v.sort();
    v.dedup();
    v
}
fn lengths(ctx: &Ctx) -> Vec<usize> {
    if !ctx.quick() {
        return (0..=MAX).collect();
    }
    let mut v: Vec<usize> = (0..=520).collect();
    for p in 10..=14 {
        let n = 1usize << p;
        v.extend([n - 33, n - 17, n - 16, n - 15, n - 2, n - 1, n]);
        if n < MAX {
            v.extend([n + 1, n + 15, n + 16, n + 17]);
        }
    }
    v
}

/// protect with the library; compare with the standard; unprotect both
fn round(l: &mut mc::fw::L, s: &Spec, k: &Secrets, typ: u8, ver: u16, body: &[u8], seq: u64) {
    let what = || format!("{} type {typ} version {ver:#x} length {} seq {seq}", s.name, body.len());
    let mut e = s.encrypter(k);
    l.t(3);
    let w = match no_panic(|| encrypt(&mut *e, typ, ver, body, seq)) {
        Ok(Ok(w)) => w,
        x => {
            l.check(false, || format!("{}: encrypt: {x:?}", what()));
            return;
        }
    };
    let (ot, ov) = outer(s, typ, ver);
    if !l.check(w.len() >= 5 + s.explicit_len() + 16, || format!("{}: record of {} bytes", what(), w.len())) {
        return;
    }
    let explicit = w[5..5 + s.explicit_len()].to_vec();
    let want = s.seal(k, typ, ver, body, seq, 0, &explicit);
    let head = [&[ot][..], &ov.to_be_bytes(), &(want.len() as u16).to_be_bytes()].concat();
    l.s(&w);
    if !l.check(w[..5] == head && w[5..] == want, || format!("{}: record is {} want {}{}", what(), hex(&w), hex(&head), hex(&want))) {
        return;
    }
    l.check(e.encrypted_payload_len(body.len()) == want.len(), || format!("{}: encrypted_payload_len {}", what(), e.encrypted_payload_len(body.len())));
    let mut d = s.decrypter(k);
    let mut buf = want.clone();
    let got = no_panic(|| decrypt(&mut *d, ot, ov, &mut buf, seq));
    let iv = if s.v13 { 0x0304 } else { ver };
    match got {
        Ok(Ok((t, v, b))) => l.check(t == typ && v == iv && b == body, || format!("{}: decrypts to type {t} version {v:#x} {}", what(), hex(&b))),
        x => l.check(false, || format!("{}: decrypt: {x:?}", what())),
    };
}

/// the record must be refused, and the buffer not hold its plaintext
fn refuse(l: &mut mc::fw::L, s: &Spec, k: &Secrets, typ: u8, ver: u16, rec: &[u8], seq: u64, secret: &[u8], what: impl Fn() -> String) {
    let mut d = s.decrypter(k);
    let mut buf = rec.to_vec();
    let got = no_panic(|| decrypt(&mut *d, typ, ver, &mut buf, seq));
    l.t(1);
    match got {
        Ok(Err(e)) => {
            l.s(format!("{e:?}").as_bytes());
        }
        x => {
            l.check(false, || format!("{} {}: {x:?}", s.name, what()));
        }
    }
    l.check(secret.len() < 8 || !buf.windows(8).any(|w| secret.windows(8).any(|v| v == w)), || format!("{} {}: plaintext of a refused record left in the buffer", s.name, what()));
}

fn explore(ctx: &Ctx) {
    ctx.assume("reference record protection: RFC 8446 section 5, RFC 5246/5288/7905, over the independent AES-GCM and ChaCha20-Poly1305 of mc/src/aeadref.rs");
    let all = specs();
    // parameters that are part of the standards
    ctx.section("suite-parameters", all.len(), |i, l| {
        let s = &all[i];
        l.t(1);
        l.check(s.suite.suite() == s.id, || format!("{}: identifier {:?}", s.name, s.suite.suite()));
        let (limit, kl) = match s.suite {
            SupportedCipherSuite::Tls13(x) => (x.common.confidentiality_limit, x.aead_alg.key_len()),
            SupportedCipherSuite::Tls12(x) => {
                let b = x.aead_alg.key_block_shape();
                l.check(b.fixed_iv_len == if s.alg == Alg::ChaCha { 12 } else { 4 } && b.explicit_nonce_len == s.explicit_len(), || format!("{}: key block shape", s.name));
                l.check(x.kx == KeyExchangeAlgorithm::ECDHE, || format!("{}: key exchange", s.name));
                (x.common.confidentiality_limit, b.enc_key_len)
            }
        };
        l.check(kl == s.alg.key_len(), || format!("{}: key length {kl}", s.name));
        // RFC 8446 5.5: 2^24.5 full-size records for AES-GCM
        l.check(s.alg == Alg::ChaCha || limit <= 23_726_566, || format!("{}: confidentiality limit {limit}", s.name));
        l.s(format!("{kl} {limit}").as_bytes());
        // exported traffic secrets open the records
        let k = Secrets::new(s, 9);
        let ext = match s.suite {
            SupportedCipherSuite::Tls13(x) => x.aead_alg.extract_keys(mctls::aead_key(&k.key), rustls::crypto::cipher::Iv::copy(&k.iv)),
            SupportedCipherSuite::Tls12(x) => x.aead_alg.extract_keys(mctls::aead_key(&k.key), &k.iv, &k.explicit),
        };
        match ext {
            Ok(ConnectionTrafficSecrets::Aes128Gcm { key, iv }) if s.alg == Alg::Aes128 => {
                l.check(key.as_ref() == k.key && iv.as_ref() == [&k.iv[..], &k.explicit].concat(), || format!("{}: extracted secrets", s.name));
            }
            Ok(ConnectionTrafficSecrets::Aes256Gcm { key, iv }) if s.alg == Alg::Aes256 => {
                l.check(key.as_ref() == k.key && iv.as_ref() == [&k.iv[..], &k.explicit].concat(), || format!("{}: extracted secrets", s.name));
            }
            Ok(ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv }) if s.alg == Alg::ChaCha => {
                l.check(key.as_ref() == k.key && iv.as_ref() == k.iv, || format!("{}: extracted secrets", s.name));
            }
            _ => {
                l.check(false, || format!("{}: extracted secrets of another kind", s.name));
            }
        }
    });
    // every length
    let ls = lengths(ctx);
    ctx.section("lengths", all.len() * ls.len(), |i, l| {
        let s = &all[i % all.len()];
        let n = ls[i / all.len()];
        let k = Secrets::new(s, n as u64 % 5);
        let ver = if s.v13 { 0x0304 } else { 0x0303 };
        round(l, s, &k, TYPES[n % 2], ver, &bytes(n as u64, n), [0u64, 1, 77, 1 << 40][(n / 3) % 4]);
    });
    // every sequence number of interest, all types; nonces never repeat
    let sq = seqs();
    ctx.section("sequence-numbers", all.len() * sq.len(), |i, l| {
        let s = &all[i % all.len()];
        let seq = sq[i / all.len()];
        for (j, typ) in TYPES.iter().enumerate() {
            for ver in if s.v13 { vec![0x0303, 0x0304] } else { vec![0x0303, 0x0302, 0x0301] } {
                let k = Secrets::new(s, j as u64 + 10);
                round(l, s, &k, *typ, ver, &bytes(3, 5 + j * 16), seq);
            }
        }
    });
    ctx.section("unknown-types", all.len() * 256, |i, l| {
        let s = &all[i % all.len()];
        let typ = (i / all.len()) as u8;
        if s.v13 && typ == 0 {
            // an inner type of zero is padding
            let k = Secrets::new(s, 4);
            for n in 0..20 {
                let rec = s.seal(&k, 0, 0, &vec![0; n], 5, 3, &[]);
                refuse(l, s, &k, 23, 0x0303, &rec, 5, &[], || format!("all-padding record of {n}"));
            }
            return;
        }
        round(l, s, &Secrets::new(s, 4), typ, if s.v13 { 0x0304 } else { 0x0303 }, &bytes(1, 30), 9);
    });
    let run = ctx.pick(3000, 70_000);
    ctx.section("nonce-uniqueness", all.len(), |i, l| {
        let s = &all[i];
        let k = Secrets::new(s, 2);
        let mut e = s.encrypter(&k);
        let mut seen = HashSet::new();
        // without an explicit part the nonce is checked by conformity; the
        // keystream of equal plaintexts shows repeats in all cases
        for q in (0..run).chain(seqs().into_iter().filter(|q| *q >= run)).chain((0..run / 10).map(|j| u64::MAX - 2 - j)) {
            let w = encrypt(&mut *e, 23, 0x0303, &[0; 32], q);
            l.t(1);
            let Ok(w) = w else {
                l.check(false, || format!("{}: {w:?}", s.name));
                return;
            };
            if s.explicit_len() > 0 {
                l.check(seen.insert(w[5..13].to_vec()) || q >= u64::MAX - 2, || format!("{}: explicit nonce repeats at sequence number {q}", s.name));
            }
            if !l.check(seen.insert(w[5 + s.explicit_len()..][..16].to_vec()) || q >= u64::MAX - 2, || format!("{}: keystream repeats at sequence number {q}", s.name)) {
                return;
            }
            l.s64(q);
        }
    });
    // payloads in pieces
    ctx.section("chunks", all.len() * 40, |i, l| {
        let s = &all[i % all.len()];
        let n = i / all.len();
        let k = Secrets::new(s, 3);
        let b = bytes(7, n);
        let whole = encrypt(&mut *s.encrypter(&k), 23, 0x0303, &b, 4);
        for a in 0..=n {
            for c in a..=n {
                let parts = [&b[..a], &b[a..c], &b[c..]];
                let w = no_panic(|| encrypt_chunks(&mut *s.encrypter(&k), 23, 0x0303, OutboundChunks::new(&parts), 4));
                l.t(1);
                if s.explicit_len() == 0 || w.as_ref().is_ok_and(|w| w.as_ref().is_ok_and(|w| w[5..13] == whole.as_ref().unwrap()[5..13])) {
                    l.check(w.as_ref() == Ok(&whole), || format!("{}: {n} bytes cut at {a} and {c} protected as {w:?}", s.name));
                }
                // a window into larger chunks
                let big = [&bytes(1, 3)[..], &b, &bytes(2, 5)].concat();
                let chunks = [&big[..a], &big[a..c], &big[c..]];
                let w = no_panic(|| encrypt_chunks(&mut *s.encrypter(&k), 23, 0x0303, OutboundChunks::Multiple { chunks: &chunks, start: 3, end: 3 + n }, 4));
                l.check(w.as_ref() == Ok(&whole), || format!("{}: window of {n} bytes over cuts {a} and {c} protected as {w:?}", s.name));
            }
            l.s(format!("{} {n} {a}", s.name).as_bytes());
        }
    });
    // TLS 1.3 padding of all sizes; inner plaintexts around the maximum
    let v13: Vec<Spec> = all.iter().copied().filter(|s| s.v13).collect();
    let pads: Vec<usize> = (0..=ctx.pick(300, 2000)).chain([1000, 4096, 16000, 16383, 16384, 16385]).collect();
    ctx.section("tls13-padding", v13.len() * pads.len(), |i, l| {
        let s = &v13[i % v13.len()];
        let pad = pads[i / v13.len()];
        let k = Secrets::new(s, 6);
        for n in [0usize, 1, 2, 15, 16, 17, 63, 100, 384, 16000, 16383, 16384, 16385] {
            // body that itself ends in zeros
            let mut b = bytes(5, n);
            let z = n.min(3);
            b[n - z..].fill(0);
            let rec = s.seal(&k, 22, 0, &b, 3, pad, &[]);
            if n + 1 + pad > MAX + 1 {
                if n + 1 + pad <= MAX + 256 {
                    refuse(l, s, &k, 23, 0x0303, &rec, 3, &[], || format!("inner plaintext of {n}+1+{pad} bytes"));
                }
                continue;
            }
            let mut buf = rec.clone();
            let got = no_panic(|| decrypt(&mut *s.decrypter(&k), 23, 0x0303, &mut buf, 3));
            l.t(1);
            l.s(format!("{n} {pad}").as_bytes());
            l.check(matches!(&got, Ok(Ok((22, 0x0304, x))) if *x == b), || format!("{}: {n} bytes and {pad} of padding: {got:?}", s.name));
        }
    });
    // over the maximum
    let over: Vec<usize> = (MAX + 1..=MAX + ctx.pick(40, 2048)).chain([MAX + 256, MAX + 1024, MAX + 2047, MAX + 2048]).collect();
    ctx.section("oversize", all.len() * over.len(), |i, l| {
        let s = &all[i % all.len()];
        let n = over[i / all.len()];
        let k = Secrets::new(s, 6);
        let rec = s.seal(&k, 23, 0x0303, &bytes(n as u64, n), 3, 0, &[1; 8][..s.explicit_len()]);
        refuse(l, s, &k, 23, 0x0303, &rec, 3, &[], || format!("plaintext of {n} bytes"));
        l.s64(n as u64);
    });
    // the explicit nonce is the sender's choice
    let v12g: Vec<Spec> = all.iter().copied().filter(|s| s.explicit_len() > 0).collect();
    ctx.section("explicit-nonces", v12g.len() * 130, |i, l| {
        let s = &v12g[i % v12g.len()];
        let j = i / v12g.len();
        let x = match j {
            0..64 => (1u64 << j).to_be_bytes(),
            64..128 => (!(1u64 << (j - 64))).to_be_bytes(),
            128 => [0; 8],
            _ => [0xff; 8],
        };
        let k = Secrets::new(s, 8);
        let b = bytes(9, 40);
        let rec = s.seal(&k, 23, 0x0303, &b, 6, 0, &x);
        let got = no_panic(|| decrypt(&mut *s.decrypter(&k), 23, 0x0303, &mut rec.clone(), 6));
        l.t(1);
        l.s(&x);
        l.check(matches!(&got, Ok(Ok((23, 0x0303, p))) if *p == b), || format!("{}: explicit nonce {x:x?}: {got:?}", s.name));
    });
    // alterations
    let sizes: Vec<usize> = if ctx.quick() { vec![0, 1, 15, 16, 17, 32, 40, 130] } else { (0..300).collect() };
    ctx.section("alterations", all.len() * sizes.len(), |i, l| {
        let s = &all[i % all.len()];
        let n = sizes[i / all.len()];
        let k = Secrets::new(s, 1);
        let b = bytes(n as u64 + 50, n);
        let x = &[7u8; 8][..s.explicit_len()];
        let rec = s.seal(&k, 23, 0x0303, &b, 1000, 0, x);
        let (t, v) = (23, 0x0303);
        for p in 0..rec.len() {
            for bit in 0..8 {
                let mut r = rec.clone();
                r[p] ^= 1 << bit;
                refuse(l, s, &k, t, v, &r, 1000, &b, || format!("{n} bytes, bit {bit} of byte {p} flipped"));
            }
        }
        for c in 0..rec.len() {
            refuse(l, s, &k, t, v, &rec[..c], 1000, &b, || format!("{n} bytes, truncated to {c}"));
            refuse(l, s, &k, t, v, &rec[rec.len() - c..], 1000, &b, || format!("{n} bytes, last {c} only"));
        }
        for c in 1..=40 {
            refuse(l, s, &k, t, v, &[&rec[..], &vec![0; c]].concat(), 1000, &b, || format!("{n} bytes, {c} zeros appended"));
            refuse(l, s, &k, t, v, &[&vec![0; c][..], &rec].concat(), 1000, &b, || format!("{n} bytes, {c} zeros prepended"));
        }
        for q in seqs().into_iter().chain(990..1010) {
            if q != 1000 {
                refuse(l, s, &k, t, v, &rec, q, &b, || format!("{n} bytes, at sequence number {q} rather than 1000"));
            }
        }
        if !s.v13 {
            for ot in 0..=255u8 {
                if ot != 23 {
                    refuse(l, s, &k, ot, v, &rec, 1000, &b, || format!("{n} bytes, as type {ot}"));
                }
            }
            for ov in [0u16, 0x0002, 0x0300, 0x0301, 0x0302, 0x0304, 0x0203, 0x0403, 0xfeff, 0xffff] {
                refuse(l, s, &k, 23, ov, &rec, 1000, &b, || format!("{n} bytes, as version {ov:#x}"));
            }
        }
        // other keys
        for d in 0..k.key.len() {
            let mut k2 = k.clone();
            k2.key[d] ^= 1;
            refuse(l, s, &k2, t, v, &rec, 1000, &b, || format!("{n} bytes, key byte {d} differs"));
        }
        for d in 0..k.iv.len() {
            let mut k2 = k.clone();
            k2.iv[d] ^= 0x80;
            refuse(l, s, &k2, t, v, &rec, 1000, &b, || format!("{n} bytes, IV byte {d} differs"));
        }
        // the same record still opens
        let got = no_panic(|| decrypt(&mut *s.decrypter(&k), t, v, &mut rec.clone(), 1000));
        l.check(matches!(&got, Ok(Ok((23, _, p))) if *p == b), || format!("{}: {n} bytes: {got:?}", s.name));
    });
    // records too short to be any
    ctx.section("short-records", all.len() * 64, |i, l| {
        let s = &all[i % all.len()];
        let n = i / all.len();
        let k = Secrets::new(s, 1);
        for f in [0u8, 0xff, 0x17] {
            refuse(l, s, &k, 23, 0x0303, &vec![f; n], 0, &[], || format!("{n} bytes of {f:#x}"));
        }
        l.s64(n as u64);
    });
    // all delivery histories of a few records: the receiver counts what it
    // accepts, as the record layer does
    let depth = ctx.pick(5, 6);
    let n = 4usize;
    let total: usize = n.pow(depth as u32);
    ctx.section("delivery-histories", all.len() * total / n, |i, l| {
        let s = &all[i % all.len()];
        for first in 0..n {
            let mut h = i / all.len() * n + first;
            let k = Secrets::new(s, 12);
            let mut e = s.encrypter(&k);
            let recs: Vec<Vec<u8>> = (0..n as u64).map(|q| encrypt(&mut *e, 23, 0x0303, &bytes(q, 20), q).unwrap()).collect();
            let mut d = s.decrypter(&k);
            let mut next = 0usize;
            let mut hist = vec![];
            for _ in 0..depth {
                let r = h % n;
                h /= n;
                hist.push(r);
                let mut buf = recs[r][5..].to_vec();
                let got = no_panic(|| decrypt(&mut *d, 23, 0x0303, &mut buf, next as u64));
                l.t(1);
                let Ok(got) = got else {
                    l.check(false, || format!("{}: panic after delivery of {hist:?}", s.name));
                    return;
                };
                if r == next {
                    if !l.check(matches!(&got, Ok((23, _, p)) if *p == bytes(r as u64, 20)), || format!("{}: delivery {hist:?}: {got:?}", s.name)) {
                        return;
                    }
                    next += 1;
                } else if !l.check(got.is_err(), || format!("{}: delivery {hist:?}: record {r} accepted in place of {next}", s.name)) {
                    return;
                }
            }
            l.s(format!("{} {hist:?} {next}", s.name).as_bytes());
        }
    });
}

fn main() {
    fw::main("C23", explore);
}
