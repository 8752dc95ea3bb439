//! C02: HMAC equals FIPS 198 for every key and message, however fed, forked
//! or verified; tag comparison accepts exactly the right bytes.
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashOutput, Sha256, Sha384, Sha512};
use mc::fw::{self, Ctx, L};
use mc::hashref::H;
use mc::rng::bytes;

fn algo<T: Hash + Clone + 'static>(c: &Ctx, name: &str, h: H)
where
    T::Context: Send + Sync,
{
    let b = h.block();
    let n = h.len();
    // key length x message length, in full
    let kmax = c.pick(2 * b + 3, 4 * b + 3);
    let mlens: Vec<usize> = {
        let mut v: Vec<usize> = (0..=3).collect();
        for k in 1..=3 {
            for d in 0..=20 {
                v.push(k * b - d);
            }
            v.push(k * b + 1);
        }
        v.sort();
        v.dedup();
        v
    };
    c.section(&format!("{name}/key-lengths"), kmax + 1, |k, l| {
        for fill in 0..3 {
            let key = match fill {
                0 => bytes(k as u64, k),
                1 => vec![0u8; k],
                _ => vec![0xff; k],
            };
            for &m in &mlens {
                let msg = bytes(3, m);
                let mut t = Hmac::<T>::new(&key);
                t.update(&msg);
                l.t(2);
                l.eq(t.finish().as_ref(), &h.hmac(&key, &msg), || format!("key {k} bytes (fill {fill}), msg {m}"));
            }
        }
        l.note(|| format!("key of {k} bytes x {} message lengths", mlens.len()));
    });
    // every single key bit, short / block / long keys
    let kl = [1, n, b - 1, b, b + 1, 2 * b];
    let cases: Vec<(usize, usize)> = kl.iter().flat_map(|&k| (0..8 * k).map(move |i| (k, i))).collect();
    c.section(&format!("{name}/key-bits"), cases.len(), |i, l| {
        let (k, bit) = cases[i];
        let mut key = vec![0u8; k];
        key[bit / 8] |= 1 << (bit % 8);
        let mut t = Hmac::<T>::new(&key);
        t.update(b"abc");
        l.t(2);
        l.eq(t.finish().as_ref(), &h.hmac(&key, b"abc"), || format!("key bit {bit} of {k}"));
    });
    // operation histories: update(size) / fork, checked at every node
    let sizes = [0usize, 1, b - 1, b, b + 1];
    let depth = c.pick(5, 7);
    let msg = bytes(9, (b + 1) * (depth + 1));
    let key = bytes(10, 20);
    let refs: Vec<Vec<u8>> = (0..=(b + 1) * depth).map(|m| h.hmac(&key, &msg[..m])).collect();
    fn go<T: Hash + Clone>(t: &Hmac<T>, pos: usize, left: usize, sizes: &[usize], msg: &[u8], refs: &[Vec<u8>], l: &mut L) {
        l.t(1);
        l.eq(t.clone().finish().as_ref(), &refs[pos], || format!("finish at {pos}"));
        let ok = t.clone().verify(&refs[pos]).is_ok();
        l.check(ok, || format!("verify rejects the right tag at {pos}"));
        if left == 0 {
            return;
        }
        for &s in sizes {
            let mut f = t.clone();
            f.update(&msg[pos..pos + s]);
            go(&f, pos + s, left - 1, sizes, msg, refs, l);
        }
    }
    c.section(&format!("{name}/histories"), sizes.len(), |i, l| {
        let mut t = Hmac::<T>::new(&key);
        t.update(&msg[..sizes[i]]);
        go(&t, sizes[i], depth - 1, &sizes, &msg, &refs, l);
        l.note(|| format!("all update/fork histories starting with {} bytes, depth {depth}", sizes[i]));
    });
    // verification: exactly the right tag is accepted
    let right = h.hmac(&key, b"msg");
    let mk = || {
        let mut t = Hmac::<T>::new(&key);
        t.update(b"msg");
        t
    };
    let mut cands: Vec<(String, Vec<u8>, bool)> = vec![("right".into(), right.clone(), true)];
    for len in 0..n {
        cands.push((format!("prefix {len}"), right[..len].to_vec(), false));
        cands.push((format!("suffix {len}"), right[n - len..].to_vec(), false));
    }
    for extra in 1..=(2 * n) {
        let mut v = right.clone();
        v.extend(std::iter::repeat_n(0, extra));
        cands.push((format!("extended by {extra}"), v, false));
    }
    {
        let mut v = right.clone();
        v.extend_from_slice(&right);
        cands.push(("doubled".into(), v, false));
    }
    for i in 0..n {
        for d in 1..=255u8 {
            let mut v = right.clone();
            v[i] ^= d;
            cands.push((format!("byte {i} ^ {d:#x}"), v, false));
        }
        for j in 0..i {
            // equal differences in two places must not cancel
            for d in [1u8, 0x80, 0xff] {
                let mut v = right.clone();
                v[i] ^= d;
                v[j] ^= d;
                cands.push((format!("bytes {i},{j} ^ {d:#x}"), v, false));
            }
            // nor complementary ones
            let mut v = right.clone();
            v[i] = v[i].wrapping_add(1);
            v[j] = v[j].wrapping_sub(1);
            cands.push((format!("bytes {i}+1,{j}-1"), v, false));
        }
    }
    c.section(&format!("{name}/verify"), cands.len(), |i, l| {
        let (what, tag, good) = &cands[i];
        l.t(4);
        l.s(tag);
        let o = mk().finish();
        l.check(mk().verify(tag).is_ok() == *good, || format!("verify({what}) != {good}"));
        l.check(o.ct_equal(tag) == *good, || format!("ct_equal({what}) != {good}"));
        if tag.len() == n {
            let mut p = T::zeroed_output();
            p.as_mut().copy_from_slice(tag);
            l.check((o == p) == *good, || format!("== ({what}) != {good}"));
        }
        let trunc16 = tag.len() == 16 && tag[..] == right[..16];
        l.check(o.truncated_ct_equal::<16>(tag) == trunc16, || format!("truncated_ct_equal::<16>({what})"));
        let trunc32 = tag.len() == 32 && tag[..] == right[..32];
        l.check(o.truncated_ct_equal::<32>(tag) == trunc32, || format!("truncated_ct_equal::<32>({what})"));
        let trunc1 = tag.len() == 1 && tag[..] == right[..1];
        l.check(o.truncated_ct_equal::<1>(tag) == trunc1, || format!("truncated_ct_equal::<1>({what})"));
    });
}

fn main() {
    fw::main("C02", |c| {
        c.assume("reference: textbook FIPS 198 over independent FIPS 180-4");
        for deny in [&[][..], &["sha", "bmi2"]] {
            c.cpu_mask(deny);
            algo::<Sha256>(c, "hmac-sha256", H::S256);
            algo::<Sha384>(c, "hmac-sha384", H::S384);
            algo::<Sha512>(c, "hmac-sha512", H::S512);
        }
        // outputs of different hash functions are never equal
        c.section("cross-type-equality", 9, |i, l| {
            let mk = |k: usize| match k {
                0 => HashOutput::Sha256([0; 32]),
                1 => HashOutput::Sha384([0; 48]),
                _ => HashOutput::Sha512([0; 64]),
            };
            l.t(1);
            l.s64(i as u64);
            l.check((mk(i / 3) == mk(i % 3)) == (i / 3 == i % 3), || format!("equality of kinds {},{}", i / 3, i % 3));
        });
    });
}
