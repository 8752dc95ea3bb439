//! C03: AEADs conform to their specifications and round-trip.
use graviola::aead::AesGcm;
use mc::aeadref::*;
use mc::aeads::*;
use mc::fw::{self, Ctx, L};
use mc::mont;
use mc::rng::{arr, bytes};

fn one(l: &mut L, imp: &Imp, rf: &Ref, n: &[u8], aad: &[u8], pt: &[u8], what: impl Fn() -> String) {
    let (ct, tag) = rf.seal(n, aad, pt);
    let mut b = pt.to_vec();
    let t = imp.enc(n, aad, &mut b);
    l.eq(&t, &tag, || format!("tag: {}", what()));
    l.check(b == ct, || {
        let i = (0..b.len()).find(|&i| b[i] != ct[i]).unwrap();
        format!("ciphertext: {} first differs at byte {i}", what())
    });
    let mut b = ct;
    l.t(1);
    let ok = imp.dec(n, aad, &mut b, &tag);
    l.check(ok, || format!("decryption of valid message refused: {}", what()));
    l.check(!ok || b == pt, || {
        let i = (0..b.len()).find(|&i| b[i] != pt[i]).unwrap();
        format!("decryption: {} first differs at byte {i}", what())
    });
}

fn lengths(c: &Ctx, a: A, deny: bool) {
    let key = bytes(11, a.klen());
    let (imp, rf) = (Imp::new(a, &key), Ref::new(a, &key));
    // every plaintext length, with a few AAD lengths
    let max: usize = if deny { c.pick(4200, 9000) } else { c.pick(9000, 20000) };
    let aads = [0usize, 1, 13, 16, 17];
    c.section(&format!("{a:?}/plaintext-lengths"), max + 1, |n, l| {
        for (j, &al) in aads.iter().enumerate() {
            let nonce = bytes((n + j) as u64, a.nlen());
            one(l, &imp, &rf, &nonce, &bytes(21, al), &bytes(n as u64 + 5, n), || format!("plaintext {n} aad {al}"));
        }
        l.note(|| format!("plaintext of {n} bytes with AAD lengths {aads:?}"));
    });
    // every AAD length
    let max = c.pick(2200, 9000);
    c.section(&format!("{a:?}/aad-lengths"), max + 1, |n, l| {
        for pl in [0usize, 1, 15, 16, 33, 128, 257] {
            let nonce = bytes((n + 1000) as u64, a.nlen());
            one(l, &imp, &rf, &nonce, &bytes(n as u64, n), &bytes(8, pl), || format!("plaintext {pl} aad {n}"));
        }
    });
    // full small grid
    let g = c.pick(150, 400);
    c.section(&format!("{a:?}/length-grid"), g * g, |i, l| {
        let (p, q) = (i / g, i % g);
        one(l, &imp, &rf, &bytes(3, a.nlen()), &bytes(1, q), &bytes(2, p), || format!("plaintext {p} aad {q}"));
    });
    // residues of longer messages: several strides plus every tail
    let bases = [1024usize, 4096 - 512, 8192, 16384, 65536 - 256];
    let tails = c.pick(530, 2100);
    let nb = 5;
    c.section(&format!("{a:?}/long-tails"), nb * tails, |i, l| {
        let n = bases[i / tails] + i % tails;
        one(l, &imp, &rf, &bytes(4, a.nlen()), &bytes(9, 5), &bytes(6, n), || format!("plaintext {n} aad 5"));
    });
    // long additional data, every residue around powers of two
    let bases = [4096usize, 8192, 16384, 32768, 65536, 1 << 17, 1 << 18, 1 << 20];
    let around = c.pick(100, 300);
    c.section(&format!("{a:?}/long-aad"), bases.len() * around, |i, l| {
        let n = bases[i / around] + i % around - around / 2;
        one(l, &imp, &rf, &bytes(4, a.nlen()), &bytes(9, n), &bytes(6, 33), || format!("plaintext 33 aad {n}"));
    });
    // counters carrying into the second and third byte
    let lens = [1usize << 16, (1 << 16) + 40, (1 << 20) - 32, (1 << 20) + 77, (1 << 22) + 129, (1 << 28) + 333];
    c.section(&format!("{a:?}/counter-carries"), c.pick(5, 6), |i, l| {
        let n = lens[i];
        one(l, &imp, &rf, &bytes(5, a.nlen()), &[], &bytes(7, n), || format!("plaintext {n}"));
    });
}

fn contents(c: &Ctx, a: A) {
    // every single bit of key and nonce; every value of every key byte
    let kl = a.klen();
    c.section(&format!("{a:?}/key-bytes"), kl * 256, |i, l| {
        let mut key = vec![0x0f; kl];
        key[i / 256] = i as u8;
        let (imp, rf) = (Imp::new(a, &key), Ref::new(a, &key));
        one(l, &imp, &rf, &bytes(1, a.nlen()), b"ad", &bytes(2, 40), || format!("key {}", fw::hex(&key)));
    });
    let key = bytes(50, kl);
    let (imp, rf) = (Imp::new(a, &key), Ref::new(a, &key));
    c.section(&format!("{a:?}/nonce-bytes"), a.nlen() * 256, |i, l| {
        for len in [37usize, 300] {
            let mut n = vec![0xf0; a.nlen()];
            n[i / 256] = i as u8;
            one(l, &imp, &rf, &n, b"ad", &bytes(2, len), || format!("nonce {}", fw::hex(&n)));
        }
    });
    c.section(&format!("{a:?}/extreme-nonces"), 4, |i, l| {
        let n = vec![[0u8, 0xff, 0x7f, 0x80][i]; a.nlen()];
        for len in [0usize, 1, 64, 128, 512, 1024, 5000] {
            one(l, &imp, &rf, &n, b"", &bytes(2, len), || format!("nonce {} len {len}", fw::hex(&n)));
        }
    });
    // single-bit authenticated inputs at each position of a long message: the
    // MAC is (bi)linear/polynomial in these, so this pins every block's weight
    let total = c.pick(1040, 4200);
    c.section(&format!("{a:?}/single-bit-ciphertexts"), total * 8, |i, l| {
        // choose the plaintext such that the ciphertext has exactly one bit set
        let n = vec![7u8; a.nlen()];
        let mut pt = vec![0u8; total];
        match &rf {
            Ref::G(g) => g.ctr(&n[..].try_into().unwrap(), &mut pt),
            Ref::C(k) => chacha_xor(k, 1, &n[..].try_into().unwrap(), &mut pt),
            Ref::X(k) => {
                let (k, n) = xsub(k, &n[..].try_into().unwrap());
                chacha_xor(&k, 1, &n, &mut pt)
            }
        }
        pt[i / 8] ^= 1 << (i % 8);
        one(l, &imp, &rf, &n, &[], &pt, || format!("ciphertext bit {i} of {total} bytes"));
    });
    let al = c.pick(272, 600);
    c.section(&format!("{a:?}/single-bit-aad"), al * 8, |i, l| {
        let mut aad = vec![0u8; al];
        aad[i / 8] ^= 1 << (i % 8);
        one(l, &imp, &rf, &vec![8; a.nlen()], &aad, &[], || format!("aad bit {i}"));
    });
    // constant fills
    c.section(&format!("{a:?}/fills"), 256, |i, l| {
        for n in [16usize, 48, 256, 777] {
            one(l, &imp, &rf, &vec![9; a.nlen()], &vec![i as u8; 20], &vec![i as u8; n], || format!("fill {i:#x} len {n}"));
        }
    });
}

/// Poly1305 accumulators steered to chosen field values at the end and in
/// the middle of a message.
fn poly_targets(c: &Ctx) {
    let m = poly_mod();
    let mut targets: Vec<[u64; 3]> = Vec::new();
    for k in 0..130usize {
        let x = mont::pow2::<3>(k);
        for d in 0..6u64 {
            let v = mont::add_raw(&x, &mont::from_u64(d)).0;
            targets.push(m.reduce(&v));
            let v = m.sub(&m.reduce(&x), &mont::from_u64(d));
            targets.push(v);
        }
        targets.push(m.sub(&mont::from_u64(0), &m.reduce(&x)));
    }
    // limb patterns: each 26-bit limb all-zero / one / all-ones / just below
    let lv = [0u64, 1, 0x3ff_ffff, 0x3ff_fffe, 0x200_0000];
    for i in 0..5usize.pow(5) {
        let mut x = i;
        let mut v = [0u64; 3];
        for limb in 0..5 {
            let w = lv[x % 5];
            x /= 5;
            let sh = 26 * limb;
            v[sh / 64] |= w << (sh % 64);
            if sh % 64 > 38 {
                v[sh / 64 + 1] |= w >> (64 - sh % 64);
            }
        }
        targets.push(m.reduce(&v));
    }
    targets.sort();
    targets.dedup();
    let nkeys = c.pick(16, 64);
    for x in [false, true] {
        let name = if x { "XCha" } else { "Cha" };
        c.section(&format!("{name}/steered-accumulators"), targets.len() * nkeys, |i, l| {
            let t = targets[i / nkeys];
            let kseed = (i % nkeys) as u64 + 700;
            let key: [u8; 32] = arr(kseed);
            let n24: [u8; 24] = arr(kseed + 1);
            let (k, n) = if x { xsub(&key, &n24) } else { (key, n24[..12].try_into().unwrap()) };
            let pk = chapoly_key(&k, &n);
            let r = poly_r(&pk);
            let rinv = m.pinv(&r);
            let hi = mont::pow2::<3>(128);
            for fin in [true, false] {
                // blocks: b0 (free), b1 (solved), [lens]; optionally two trailing blocks
                let nblk = if fin { 2usize } else { 4 };
                let ctlen = nblk * 16;
                let mut lens = vec![0u8; 16];
                lens[8..].copy_from_slice(&(ctlen as u64).to_le_bytes());
                let mut want_mid = t;
                if fin {
                    // accumulate backwards over the length block
                    let lb = mont::add_raw(&hi, &mont::from_le(&lens)).0;
                    want_mid = m.sub(&m.pmul(&t, &rinv), &m.reduce(&lb));
                }
                let need = m.pmul(&want_mid, &rinv);
                let mut found = None;
                for tries in 0..64u64 {
                    let b0: [u8; 16] = arr(9000 + tries);
                    let mut acc = [0; 3];
                    poly_blocks(&r, &mut acc, &b0);
                    let b1 = m.sub(&m.sub(&need, &acc), &m.reduce(&hi));
                    if b1[2] == 0 {
                        let mut ct = b0.to_vec();
                        ct.extend(mont::to_le(&b1, 16));
                        let mut chk = [0; 3];
                        poly_blocks(&r, &mut chk, &ct);
                        assert_eq!(chk, want_mid);
                        found = Some(ct);
                        break;
                    }
                }
                let Some(mut ct) = found else { panic!("harness: no steering block") };
                ct.resize(ctlen, 0xff);
                let mut pt = ct.clone();
                chacha_xor(&k, 1, &n, &mut pt);
                let what = || format!("accumulator {} {}", fw::hex(&mont::to_be(&t, 17)), if fin { "at the end" } else { "mid-message" });
                if x {
                    one(l, &Imp::new(A::XCha, &key), &Ref::X(key), &n24, &[], &pt, what);
                } else {
                    one(l, &Imp::new(A::Cha, &key), &Ref::C(key), &n, &[], &pt, what);
                }
            }
        });
    }
}

/// One-time keys with extreme multiplier limbs, on extreme blocks.
fn poly_extreme_keys(c: &Ctx) {
    let key: [u8; 32] = arr(4000);
    let limb = |r: &[u64; 3], k: usize| -> u64 {
        let sh = 26 * k;
        let mut v = r[sh / 64] >> (sh % 64);
        if sh % 64 > 38 {
            v |= r[sh / 64 + 1] << (64 - sh % 64);
        }
        v & 0x3ff_ffff
    };
    let nonce = |i: u64| -> [u8; 12] {
        let mut n = [0u8; 12];
        n[..8].copy_from_slice(&i.to_le_bytes());
        n
    };
    let mut best: Vec<(u64, u64)> = vec![(0, u64::MAX); 10];
    let mut sums = [(0u64, 0u64), (0, u64::MAX)];
    for i in 0..c.pick(1u64 << 16, 1 << 20) {
        let r = poly_r(&chapoly_key(&key, &nonce(i)));
        for k in 0..5 {
            let v = limb(&r, k);
            if best[k].1 == u64::MAX || v > best[k].1 {
                best[k] = (i, v);
            }
            if v < best[5 + k].1 {
                best[5 + k] = (i, v);
            }
        }
        let s: u64 = (0..5).map(|k| limb(&r, k)).sum();
        if s > sums[0].1 {
            sums[0] = (i, s);
        }
        if s < sums[1].1 {
            sums[1] = (i, s);
        }
    }
    best.extend(sums);
    let (imp, rf) = (Imp::new(A::Cha, &key), Ref::C(key));
    c.section("Cha/extreme-multipliers", best.len() * 64, |i, l| {
        let n = nonce(best[i / 64].0);
        let blocks = i % 64 + 1;
        for fill in [0xffu8, 0, 0xfe, 0x80] {
            let mut pt = vec![fill; blocks * 16];
            chacha_xor(&key, 1, &n, &mut pt);
            one(l, &imp, &rf, &n, &[], &pt, || format!("extreme r #{} {blocks} blocks of {fill:#x}", i / 64));
        }
    });
}

/// Additional data whose bit length exceeds 32 bits (zero pages).
fn huge_aad(c: &Ctx) {
    let zeros = (1u64 << 29) + 64;
    c.section("gcm/huge-aad", 2, |i, l| {
        let n = zeros as usize;
        let map = unsafe {
            libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(map != libc::MAP_FAILED);
        let aad = unsafe { std::slice::from_raw_parts(map.cast::<u8>(), n) };
        let key = bytes(60, [16, 32][i]);
        let g = GcmRef::new(&key);
        let nonce: [u8; 12] = arr(1);
        let mut ct = bytes(61, 500);
        let pt = ct.clone();
        g.ctr(&nonce, &mut ct);
        let want = g.tag_zero_aad(&nonce, zeros, &[], &ct);
        let imp = AesGcm::new(&key);
        let mut b = pt.clone();
        let mut t = [0u8; 16];
        imp.encrypt(&nonce, aad, &mut b, &mut t);
        l.eq(&t, &want, || format!("tag with {n} bytes of zero AAD"));
        let ok = imp.decrypt(&nonce, aad, &mut b, &want).is_ok() && b == pt;
        l.t(1);
        l.check(ok, || format!("decrypt with {n} bytes of AAD"));
        unsafe { libc::munmap(map, n) };
    });
}

/// Zero pages as AAD or ciphertext, so long that a length or its count of bits
/// does not fit 32 bits; the tags have closed forms.
fn huge(c: &Ctx, algs: &[A], sizes: &[u64]) {
    struct Map(*mut libc::c_void, usize);
    impl Drop for Map {
        fn drop(&mut self) {
            unsafe { libc::munmap(self.0, self.1) };
        }
    }
    fn zeros(n: usize, prot: i32) -> Map {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Map(p, n)
    }
    // the closed forms against the full computation
    c.section("zero-forms", 300, |i, l| {
        let (a, n) = (i as u64 % 37, i as u64);
        let key = arr::<32>(i as u64);
        let t = chapoly_tag_zeros(&key, &arr(3), a, n);
        let w = poly1305(&chapoly_key(&key, &arr(3)), &mac_data(&vec![0; a as usize], &vec![0; n as usize]));
        assert_eq!(t, w);
        let g = GcmRef::new(&key);
        assert_eq!(g.tag(&arr(3), &[], &vec![0; n as usize]), g.tag_zero_ct(&arr(3), n));
        l.s(&t);
    });
    let one_at_a_time = std::sync::Mutex::new(());
    c.section("huge-inputs", algs.len() * sizes.len() * 2, |i, l| {
        let a = algs[i / 2 / sizes.len()];
        let n = sizes[i / 2 % sizes.len()];
        let key = bytes(62, a.klen());
        let nonce = bytes(63, a.nlen());
        let imp = Imp::new(a, &key);
        let what = || format!("{a:?} with {n} bytes of {}", ["AAD", "text"][i % 2]);
        let sub = |x: &[u8]| -> ([u8; 32], [u8; 12]) {
            match a {
                A::XCha => xsub(&arr32(&key), x.try_into().unwrap()),
                _ => (arr32(&key), x.try_into().unwrap()),
            }
        };
        if i % 2 == 0 {
            let want = match a {
                A::Gcm128 | A::Gcm256 => GcmRef::new(&key).tag_zero_aad(&nonce[..].try_into().unwrap(), n.div_ceil(16) * 16, &[], &[]),
                _ => {
                    let (k, x) = sub(&nonce);
                    chapoly_tag_zeros(&k, &x, n, 0)
                }
            };
            // (the GCM form wants whole blocks)
            let n = if matches!(a, A::Gcm128 | A::Gcm256) { n.div_ceil(16) * 16 } else { n };
            let map = zeros(n as usize, libc::PROT_READ);
            let aad = unsafe { std::slice::from_raw_parts(map.0.cast::<u8>(), n as usize) };
            let t = imp.enc(&nonce, aad, &mut []);
            l.eq(&t, &want, || format!("tag: {}", what()));
            l.check(imp.dec(&nonce, aad, &mut [], &want), || format!("refused: {}", what()));
            l.t(2);
        } else {
            let _one = one_at_a_time.lock().unwrap();
            let map = zeros(n as usize, libc::PROT_READ | libc::PROT_WRITE);
            let b = unsafe { std::slice::from_raw_parts_mut(map.0.cast::<u8>(), n as usize) };
            let want = match a {
                A::Gcm128 | A::Gcm256 => GcmRef::new(&key).tag_zero_ct(&nonce[..].try_into().unwrap(), n),
                _ => {
                    let (k, x) = sub(&nonce);
                    chapoly_tag_zeros(&k, &x, 0, n)
                }
            };
            l.check(imp.dec(&nonce, &[], b, &want), || format!("refused: {}", what()));
            // the key stream, at both ends and at every 2^22
            let ends = (0..n).step_by(1 << 22).chain([n - 64, n - n % 64]).filter(|x| x % 64 == 0);
            for at in ends {
                let m = (n - at).min(64) as usize;
                let mut w = vec![0; m];
                match a {
                    A::Gcm128 | A::Gcm256 => {
                        let g = GcmRef::new(&key);
                        for (j, ch) in w.chunks_mut(16).enumerate() {
                            let mut y = [0u8; 16];
                            y[..12].copy_from_slice(&nonce);
                            y[12..].copy_from_slice(&((at / 16) as u32 + j as u32 + 2).to_be_bytes());
                            g.aes.enc(&mut y);
                            ch.copy_from_slice(&y[..ch.len()]);
                        }
                    }
                    _ => {
                        let (k, x) = sub(&nonce);
                        chacha_xor(&k, (at / 64) as u32 + 1, &x, &mut w);
                    }
                }
                l.check(b[at as usize..at as usize + m] == w[..], || format!("text at {at} of {}", what()));
            }
            // and back
            let t = imp.enc(&nonce, &[], b);
            l.eq(&t, &want, || format!("tag: {}", what()));
            l.check(b.chunks(1 << 16).all(|x| x.iter().all(|y| *y == 0)), || format!("encryption does not undo decryption: {}", what()));
            l.t(2);
        }
    });
}

/// Encrypt/decrypt call histories on one key object: no call disturbs another.
fn histories(c: &Ctx) {
    let lens = [0usize, 16, 100, 300];
    let depth = c.pick(4usize, 5);
    let ops = lens.len() * 3;
    for a in ALL {
        let key = bytes(90, a.klen());
        let rf = Ref::new(a, &key);
        c.section(&format!("{a:?}/call-histories"), ops.pow(depth as u32), |i, l| {
            let imp = Imp::new(a, &key);
            let mut x = i;
            for step in 0..depth {
                let o = x % ops;
                x /= ops;
                let n = bytes((o + step) as u64, a.nlen());
                let pt = bytes(o as u64, lens[o / 3]);
                let (ct, tag) = rf.seal(&n, b"hdr", &pt);
                l.t(1);
                match o % 3 {
                    0 => {
                        let mut b = pt.clone();
                        let t = imp.enc(&n, b"hdr", &mut b);
                        l.check(t == tag && b == ct, || format!("history {i} step {step}: encryption"));
                    }
                    1 => {
                        let mut b = ct.clone();
                        let ok = imp.dec(&n, b"hdr", &mut b, &tag);
                        l.check(ok && b == pt, || format!("history {i} step {step}: decryption"));
                    }
                    _ => {
                        let mut b = ct.clone();
                        let ok = imp.dec(&n, b"hdR", &mut b, &tag);
                        l.check(!ok, || format!("history {i} step {step}: forgery accepted"));
                    }
                }
                l.s(&tag);
            }
        });
    }
}

fn arr32(k: &[u8]) -> [u8; 32] {
    let mut v = [0; 32];
    v[..k.len()].copy_from_slice(k);
    v
}
fn main() {
    fw::main("C03", |c| {
        c.assume("reference AEADs: computed-S-box AES, bit-serial GF(2^128), RFC 8439 ChaCha20, Poly1305 over integers mod 2^130-5");
        c.assume("messages of 2^32 blocks or more are not explored");
        c.cpu_mask(&[]);
        for a in ALL {
            lengths(c, a, false);
            contents(c, a);
        }
        poly_targets(c);
        poly_extreme_keys(c);
        histories(c);
        huge_aad(c);
        if c.quick() {
            huge(c, &[A::Gcm256, A::Cha], &[(1 << 32) + 77]);
        } else {
            huge(c, &ALL, &[(1 << 29) + 77, (1 << 32) + 77, (1 << 33) + 5]);
        }
        c.cpu_mask(&["avx512f"]);
        for a in [A::Gcm128, A::Gcm256] {
            lengths(c, a, true);
            contents(c, a);
        }
        huge_aad(c);
        huge(c, if c.quick() { &[A::Gcm128] } else { &[A::Gcm128, A::Gcm256] }, &[(1 << 29) + 77]);
    });
}
