//! C04: no alteration of an AEAD message is accepted; failures clear the buffer.
use mc::aeads::*;
use mc::fw::{self, Ctx, L};
use mc::rng::bytes;

fn refuse(l: &mut L, imp: &Imp, n: &[u8], aad: &[u8], ct: &[u8], tag: &[u8], what: impl Fn() -> String) {
    let mut b = ct.to_vec();
    l.t(1);
    let ok = imp.dec(n, aad, &mut b, tag);
    l.check(!ok, || format!("accepted: {}", what()));
    l.check(ok || b.iter().all(|x| *x == 0), || format!("buffer not cleared: {}", what()));
}

fn lens(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=c.pick(80, 300)).collect();
    for k in [96usize, 112, 128, 144, 240, 256, 272, 384, 512, 640, 768, 1024, 2048, 4096, 16384] {
        v.extend([k - 1, k, k + 1]);
    }
    v.sort();
    v.dedup();
    v
}

fn run(c: &Ctx, a: A) {
    let key = bytes(1, a.klen());
    let (imp, rf) = (Imp::new(a, &key), Ref::new(a, &key));
    let n = bytes(2, a.nlen());
    let lens = lens(c);
    // every tag byte value at every position, for every length class
    c.section(&format!("{a:?}/tag-values"), lens.len() * 16, |i, l| {
        let len = lens[i / 16];
        let pos = i % 16;
        let (ct, tag) = rf.seal(&n, b"aad", &bytes(3, len));
        l.s(&tag);
        let step = if len <= 64 { 1 } else { 5 };
        for d in (1..=255u8).step_by(step) {
            let mut t = tag;
            t[pos] ^= d;
            refuse(l, &imp, &n, b"aad", &ct, &t, || format!("len {len} tag byte {pos} ^ {d:#x}"));
        }
        l.note(|| format!("plaintext of {len} bytes, all changes of tag byte {pos}"));
    });
    // pairs of equal / cancelling changes in the tag
    c.section(&format!("{a:?}/tag-pairs"), 256, |i, l| {
        let (p, q) = (i / 16, i % 16);
        for len in [0usize, 5, 300] {
            let (ct, tag) = rf.seal(&n, b"", &bytes(3, len));
            for (d, e) in [(1u8, 1u8), (0x80, 0x80), (0xff, 1), (0x10, 0xf0), (255, 255)] {
                let mut t = tag;
                t[p] ^= d;
                t[q] ^= e;
                if t != tag {
                    refuse(l, &imp, &n, b"", &ct, &t, || format!("tag bytes {p},{q}"));
                }
                let mut t = tag;
                t[p] = t[p].wrapping_add(d);
                t[q] = t[q].wrapping_sub(d);
                if t != tag {
                    refuse(l, &imp, &n, b"", &ct, &t, || format!("tag bytes {p}+{d},{q}-{d}"));
                }
                t = tag;
                t.swap(p, q);
                if t != tag {
                    refuse(l, &imp, &n, b"", &ct, &t, || format!("tag bytes {p},{q} swapped"));
                }
            }
        }
    });
    // every tag length
    c.section(&format!("{a:?}/tag-lengths"), lens.len(), |i, l| {
        let len = lens[i];
        let (ct, tag) = rf.seal(&n, b"x", &bytes(4, len));
        for tl in (0..=40).chain([48, 64, 256, 272, 65552]) {
            if tl == 16 {
                continue;
            }
            let mut t = tag[..tl.min(16)].to_vec();
            t.resize(tl, 0);
            refuse(l, &imp, &n, b"x", &ct, &t, || format!("tag of {tl} bytes (zero-extended/truncated)"));
            if tl > 16 {
                let rep: Vec<u8> = tag.iter().cycle().take(tl).copied().collect();
                refuse(l, &imp, &n, b"x", &ct, &rep, || format!("tag of {tl} bytes (repeated)"));
            } else {
                refuse(l, &imp, &n, b"x", &ct, &tag[16 - tl..], || format!("tag suffix of {tl}"));
            }
        }
        l.s(&tag);
    });
    // special tags
    c.section(&format!("{a:?}/special-tags"), lens.len(), |i, l| {
        let len = lens[i];
        let (ct, tag) = rf.seal(&n, b"y", &bytes(5, len));
        let cands: Vec<[u8; 16]> = {
            let mut v = vec![[0u8; 16], [0xff; 16], tag.map(|x| !x)];
            let mut r = tag;
            r.reverse();
            v.push(r);
            let mut r = tag;
            r.rotate_left(1);
            v.push(r);
            // tags of related messages
            v.push(rf.seal(&n, b"", &bytes(5, len)).1);
            v.push(rf.seal(&n, b"y", &bytes(5, len + 1)[..len + 1]).1);
            v.push(rf.seal(&bytes(99, a.nlen()), b"y", &bytes(5, len)).1);
            v
        };
        for t in cands {
            if t != tag {
                refuse(l, &imp, &n, b"y", &ct, &t, || format!("special tag {}", fw::hex(&t)));
            }
        }
    });
    // every ciphertext bit, at every length class
    c.section(&format!("{a:?}/ciphertext-bits"), lens.len(), |i, l| {
        let len = lens[i];
        let (ct, tag) = rf.seal(&n, b"aad", &bytes(6, len));
        l.s(&tag);
        let step = if len <= c.pick(520, 2100) { 1 } else { 37 };
        for bit in (0..8 * len).step_by(step) {
            let mut x = ct.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            refuse(l, &imp, &n, b"aad", &x, &tag, || format!("len {len} ciphertext bit {bit}"));
        }
    });
    // ciphertext truncation, extension, block edits
    c.section(&format!("{a:?}/ciphertext-shape"), lens.len(), |i, l| {
        let len = lens[i];
        let mut pt = bytes(7, len);
        for fill in 0..2 {
            if fill == 1 {
                pt.fill(0);
            }
            let (ct, tag) = rf.seal(&n, b"a", &pt);
            for cut in 1..=len.min(40) {
                refuse(l, &imp, &n, b"a", &ct[..len - cut], &tag, || format!("len {len} cut {cut} from the end"));
                refuse(l, &imp, &n, b"a", &ct[cut..], &tag, || format!("len {len} cut {cut} from the start"));
            }
            for ext in 1..=40 {
                let mut x = ct.clone();
                x.resize(len + ext, 0);
                refuse(l, &imp, &n, b"a", &x, &tag, || format!("len {len} extended by {ext}"));
            }
            if len >= 32 {
                for b in 0..(len / 16 - 1).min(20) {
                    let mut x = ct.clone();
                    for k in 0..16 {
                        x.swap(16 * b + k, 16 * b + 16 + k);
                    }
                    if x != ct {
                        refuse(l, &imp, &n, b"a", &x, &tag, || format!("len {len} blocks {b},{} swapped", b + 1));
                    }
                }
            }
        }
    });
    // AAD alterations, every length class
    c.section(&format!("{a:?}/aad"), lens.len() * 3, |i, l| {
        let al = lens[i / 3];
        let len = [0usize, 20, 300][i % 3];
        let aad = bytes(8, al);
        let (ct, tag) = rf.seal(&n, &aad, &bytes(9, len));
        l.s(&tag);
        let step = if al <= 300 { 1 } else { 29 };
        for bit in (0..8 * al).step_by(step) {
            let mut x = aad.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            refuse(l, &imp, &n, &x, &ct, &tag, || format!("aad {al} bit {bit}"));
        }
        for cut in 1..=al.min(33) {
            refuse(l, &imp, &n, &aad[..al - cut], &ct, &tag, || format!("aad {al} cut {cut}"));
        }
        for ext in 1..=33 {
            let mut x = aad.clone();
            x.resize(al + ext, 0);
            refuse(l, &imp, &n, &x, &ct, &tag, || format!("aad {al} extended by {ext}"));
        }
        // moving the boundary between AAD and ciphertext
        for mv in 1..=al.min(17) {
            let mut x = aad[al - mv..].to_vec();
            x.extend_from_slice(&ct);
            refuse(l, &imp, &n, &aad[..al - mv], &x, &tag, || format!("aad {al} last {mv} moved to ciphertext"));
        }
        for mv in 1..=len.min(17) {
            let mut x = aad.clone();
            x.extend_from_slice(&ct[..mv]);
            refuse(l, &imp, &n, &x, &ct[mv..], &tag, || format!("first {mv} of ciphertext moved to aad {al}"));
        }
    });
    // nonce and key bits
    c.section(&format!("{a:?}/nonce-bits"), a.nlen() * 8 * lens.len(), |i, l| {
        let len = lens[i % lens.len()];
        let bit = i / lens.len();
        let (ct, tag) = rf.seal(&n, b"q", &bytes(10, len));
        let mut m = n.clone();
        m[bit / 8] ^= 1 << (bit % 8);
        refuse(l, &imp, &m, b"q", &ct, &tag, || format!("len {len} nonce bit {bit}"));
    });
    c.section(&format!("{a:?}/key-bits"), a.klen() * 8, |i, l| {
        let mut k2 = key.clone();
        k2[i / 8] ^= 1 << (i % 8);
        let imp2 = Imp::new(a, &k2);
        for len in [0usize, 1, 16, 100, 600] {
            let (ct, tag) = rf.seal(&n, b"q", &bytes(10, len));
            refuse(l, &imp2, &n, b"q", &ct, &tag, || format!("len {len} key bit {i}"));
        }
    });
    // every length: one wrong tag, buffer cleared; right tag accepted
    let max: usize = c.pick(4200, 20000);
    c.section(&format!("{a:?}/clearing-lengths"), max + 1, |len, l| {
        let (ct, mut tag) = rf.seal(&n, b"", &bytes(12, len));
        let mut b = ct.clone();
        l.t(1);
        let ok = imp.dec(&n, b"", &mut b, &tag);
        l.check(ok, || format!("valid message of {len} refused"));
        l.s(&tag);
        tag[15] ^= 0x80;
        refuse(l, &imp, &n, b"", &ct, &tag, || format!("len {len}"));
        refuse(l, &imp, &n, b"", &ct, &[], || format!("len {len} empty tag"));
    });
}

fn main() {
    fw::main("C04", |c| {
        c.assume("a random 128-bit tag collision (2^-128 per case) would be reported as a violation");
        c.cpu_mask(&[]);
        for a in ALL {
            run(c, a);
        }
        c.cpu_mask(&["avx512f"]);
        for a in [A::Gcm128, A::Gcm256] {
            run(c, a);
        }
    });
}
