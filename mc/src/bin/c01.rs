//! C01: every hash function computes its standard on every message, however
//! the message is cut up, and forking a computation is independent.
use graviola::hashing::{Hash, HashContext, Sha256, Sha384, Sha512, sha2, sha3};
use mc::fw::{self, Ctx, L};
use mc::hashref as r;
use mc::rng::bytes;

/// One incremental implementation under test.
trait Inc: Clone {
    const NAME: &'static str;
    const BLOCK: usize;
    fn new() -> Self;
    fn up(&mut self, b: &[u8]);
    fn fin(self) -> Vec<u8>;
    fn reference(m: &[u8]) -> Vec<u8>;
    fn oneshot(m: &[u8]) -> Option<Vec<u8>> {
        let _ = m;
        None
    }
}

macro_rules! high {
    ($n:ident, $h:ty, $b:expr, $r:path) => {
        #[derive(Clone)]
        struct $n(<$h as Hash>::Context);
        impl Inc for $n {
            const NAME: &'static str = stringify!($n);
            const BLOCK: usize = $b;
            fn new() -> Self {
                Self(<$h>::new())
            }
            fn up(&mut self, b: &[u8]) {
                self.0.update(b)
            }
            fn fin(self) -> Vec<u8> {
                self.0.finish().as_ref().to_vec()
            }
            fn reference(m: &[u8]) -> Vec<u8> {
                $r(m).to_vec()
            }
            fn oneshot(m: &[u8]) -> Option<Vec<u8>> {
                Some(<$h>::hash(m).as_ref().to_vec())
            }
        }
    };
}
macro_rules! mid {
    ($n:ident, $t:ty, $b:expr, $r:path) => {
        #[derive(Clone)]
        struct $n($t);
        impl Inc for $n {
            const NAME: &'static str = stringify!($n);
            const BLOCK: usize = $b;
            fn new() -> Self {
                Self(<$t>::new())
            }
            fn up(&mut self, b: &[u8]) {
                self.0.update(b)
            }
            fn fin(self) -> Vec<u8> {
                self.0.finish().to_vec()
            }
            fn reference(m: &[u8]) -> Vec<u8> {
                $r(m).to_vec()
            }
        }
    };
}
high!(HighSha256, Sha256, 64, r::sha256);
high!(HighSha384, Sha384, 128, r::sha384);
high!(HighSha512, Sha512, 128, r::sha512);
mid!(MidSha256, sha2::Sha256Context, 64, r::sha256);
mid!(MidSha384, sha2::Sha384Context, 128, r::sha384);
mid!(MidSha512, sha2::Sha512Context, 128, r::sha512);
// SHA-3 contexts are not cloneable in the API: wrap so the explorer can
// still branch by re-running the prefix.
macro_rules! sha3w {
    ($n:ident, $t:ty, $b:expr, $r:path) => {
        struct $n($t, Vec<Vec<u8>>);
        impl Clone for $n {
            fn clone(&self) -> Self {
                let mut n = Self::new();
                for u in &self.1 {
                    n.up(u);
                }
                n
            }
        }
        impl Inc for $n {
            const NAME: &'static str = stringify!($n);
            const BLOCK: usize = $b;
            fn new() -> Self {
                Self(<$t>::new(), Vec::new())
            }
            fn up(&mut self, b: &[u8]) {
                self.1.push(b.to_vec());
                self.0.update(b)
            }
            fn fin(self) -> Vec<u8> {
                self.0.finish().to_vec()
            }
            fn reference(m: &[u8]) -> Vec<u8> {
                $r(m).to_vec()
            }
        }
    };
}
sha3w!(S3_256, sha3::Sha3_256Context, 136, r::sha3_256);
sha3w!(S3_512, sha3::Sha3_512Context, 72, r::sha3_512);

/// All one-shot lengths, two message fills each.
fn lengths<T: Inc>(c: &Ctx, max: usize) {
    c.section(&format!("{}/lengths", T::NAME), (max + 1) * 2, |i, l| {
        let n = i / 2;
        let m = if i % 2 == 0 { bytes(n as u64, n) } else { vec![0xff; n] };
        let want = T::reference(&m);
        let mut h = T::new();
        h.up(&m);
        l.t(2);
        l.eq(&h.fin(), &want, || format!("one update of {n} bytes"));
        if let Some(o) = T::oneshot(&m) {
            l.eq(&o, &want, || format!("one-shot of {n} bytes"));
        }
        l.note(|| format!("len {n} -> {}", fw::hex(&want)));
    });
}

/// Around every power of two up to 2^21, in one update and after a partial block.
fn big_lengths<T: Inc>(c: &Ctx) {
    let mut v = Vec::new();
    for k in 12..=21u32 {
        for d in 0..5usize {
            v.push((1usize << k) + d - 2);
        }
        v.push(3 << (k - 1));
    }
    let max = *v.iter().max().unwrap();
    let msg = bytes(4, max + 1);
    c.section(&format!("{}/power-of-two-lengths", T::NAME), v.len(), |i, l| {
        let m = &msg[..v[i]];
        let want = T::reference(m);
        for first in [0, 1, T::BLOCK, v[i] - 1] {
            let mut h = T::new();
            h.up(&m[..first]);
            h.up(&m[first..]);
            l.t(2);
            l.eq(&h.fin(), &want, || format!("{} bytes, first update {first}", v[i]));
        }
    });
}

/// All two-way splits of all messages up to a bound, forked at the split.
fn splits<T: Inc>(c: &Ctx, max: usize) {
    let msg = bytes(77, max * 2);
    let alt = bytes(78, max * 2);
    let refs: Vec<Vec<u8>> = (0..=2 * max).map(|n| T::reference(&msg[..n])).collect();
    c.section(&format!("{}/two-splits", T::NAME), max + 1, |a, l| {
        let mut pre = T::new();
        pre.up(&msg[..a]);
        l.t(2);
        for b in 0..=max {
            let mut h = pre.clone();
            h.up(&msg[a..a + b]);
            l.t(1);
            l.eq(&h.fin(), &refs[a + b], || format!("split {a}+{b}"));
        }
        // a fork with other content must not disturb the original
        let mut other = pre.clone();
        other.up(&alt[..max]);
        let mut m2 = msg[..a].to_vec();
        m2.extend_from_slice(&alt[..max]);
        l.eq(&other.fin(), &T::reference(&m2), || format!("fork at {a}"));
        l.eq(&pre.fin(), &refs[a], || format!("original after forks at {a}"));
    });
}

/// Every sequence of update sizes from an alphabet, to a depth; the digest is
/// checked at every node of the tree.
fn tree<T: Inc>(c: &Ctx, depth: usize) {
    let b = T::BLOCK;
    let sizes = [0, 1, b / 2, b - 1, b, b + 1, 2 * b, 3 * b - 1];
    let msg = bytes(99, 3 * b * (depth + 2));
    let refs: Vec<Vec<u8>> = (0..=3 * b * (depth + 1)).map(|n| T::reference(&msg[..n])).collect();
    fn go<T: Inc>(h: &T, pos: usize, left: usize, sizes: &[usize], msg: &[u8], refs: &[Vec<u8>], path: &mut Vec<usize>, l: &mut L) {
        l.t(1);
        l.eq(&h.clone().fin(), &refs[pos], || format!("updates {path:?}"));
        if left == 0 {
            return;
        }
        for &s in sizes {
            let mut n = h.clone();
            n.up(&msg[pos..pos + s]);
            path.push(s);
            go(&n, pos + s, left - 1, sizes, msg, refs, path, l);
            path.pop();
        }
    }
    c.section(&format!("{}/update-trees", T::NAME), sizes.len() * sizes.len(), |i, l| {
        let (x, y) = (sizes[i / sizes.len()], sizes[i % sizes.len()]);
        let mut h = T::new();
        h.up(&msg[..x]);
        h.up(&msg[x..x + y]);
        go(&h, x + y, depth - 2, &sizes, &msg, &refs, &mut vec![x, y], l);
        l.note(|| format!("all continuations of updates [{x}, {y}] to depth {depth} over {sizes:?}"));
    });
}

/// Every single-bit message at the padding-sensitive lengths.
fn bits<T: Inc>(c: &Ctx) {
    let b = T::BLOCK;
    let lens = [1, b - 17, b - 16, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, 2 * b, 2 * b + b / 2];
    let cases: Vec<(usize, usize)> = lens.iter().flat_map(|&n| (0..n * 8).map(move |k| (n, k))).collect();
    c.section(&format!("{}/single-bits", T::NAME), cases.len(), |i, l| {
        let (n, k) = cases[i];
        let mut m = vec![0u8; n];
        m[k / 8] ^= 1 << (k % 8);
        let mut h = T::new();
        h.up(&m);
        l.t(1);
        l.eq(&h.fin(), &T::reference(&m), || format!("bit {k} of {n} bytes"));
    });
}

fn all<T: Inc>(c: &Ctx) {
    lengths::<T>(c, c.pick(2100, 9000));
    big_lengths::<T>(c);
    splits::<T>(c, c.pick(3 * T::BLOCK + 9, 9 * T::BLOCK + 9));
    tree::<T>(c, c.pick(5, 7));
    bits::<T>(c);
}

fn shake(c: &Ctx) {
    // every message length x output length
    let lens: Vec<usize> = (0..=c.pick(345, 700)).collect();
    let outs = [0usize, 1, 31, 32, 135, 136, 137, 167, 168, 169, 271, 272, 273, 336, 337, 500];
    for k in [128u32, 256] {
        let rf = |m: &[u8], n: usize| if k == 128 { r::shake128(m, n) } else { r::shake256(m, n) };
        let one = |parts: &[&[u8]], reads: &[usize]| -> Vec<u8> {
            let mut o = Vec::new();
            if k == 128 {
                let mut s = sha3::Shake128::new(parts);
                for &n in reads {
                    let mut b = vec![0xa5; n];
                    s.read(&mut b);
                    o.extend(b);
                }
            } else {
                let mut s = sha3::Shake256::new(parts);
                for &n in reads {
                    let mut b = vec![0xa5; n];
                    s.read(&mut b);
                    o.extend(b);
                }
            }
            o
        };
        c.section(&format!("shake{k}/lengths"), lens.len(), |i, l| {
            let m = bytes(5, lens[i]);
            let full = rf(&m, 512);
            for n in outs {
                l.eq(&one(&[&m], &[n]), &full[..n], || format!("msg {} out {n}", m.len()));
            }
            l.note(|| format!("msg len {} all output lengths {outs:?}", m.len()));
        });
        // all splits of the message into up to three parts at these cut sizes
        let rate = if k == 128 { 168 } else { 136 };
        let cuts = [0, 1, rate / 2, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1];
        let n = cuts.len();
        c.section(&format!("shake{k}/parts"), n * n * n, |i, l| {
            let (a, b, d) = (cuts[i / n / n], cuts[i / n % n], cuts[i % n]);
            let m = bytes(6, a + b + d);
            let want = rf(&m, 200);
            l.eq(&one(&[&m[..a], &m[a..a + b], &m[a + b..]], &[200]), &want, || format!("parts {a},{b},{d}"));
        });
        // all sequences of reads
        let d: usize = c.pick(4, 5);
        let rs = [0usize, 1, 7, rate - 1, rate, rate + 1, 2 * rate + 3];
        let m = bytes(7, 50);
        let full = rf(&m, (2 * rate + 3) * d);
        c.section(&format!("shake{k}/reads"), rs.len().pow(d as u32), |i, l| {
            let mut x = i;
            let mut v = Vec::new();
            for _ in 0..d {
                v.push(rs[x % rs.len()]);
                x /= rs.len();
            }
            let o = one(&[&m], &v);
            l.t(v.len() as u64);
            l.eq(&o, &full[..o.len()], || format!("reads {v:?}"));
            l.note(|| format!("reads {v:?}"));
        });
    }
}

/// Messages whose bit length does not fit 32 bits, and whose byte length does
/// not fit 32 bits.  Expected values: CPython hashlib on the same zero bytes.
fn huge(c: &Ctx, cfg: &str) {
    let golden = include_str!("../../data/huge.txt");
    let mut cases: Vec<(&str, usize, usize, Vec<u8>)> = Vec::new();
    for line in golden.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        let n: usize = f[1].parse().unwrap();
        if c.quick() && (!cfg.is_empty() || n >= 1 << 32 && f[0] != "sha256") {
            continue;
        }
        for first in [0usize, 1, n / 2 + 3] {
            if c.quick() && first != 1 {
                continue;
            }
            cases.push((f[0], n, first, fw::unhex(f[2])));
        }
    }
    if cases.is_empty() {
        return;
    }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    c.section("huge-messages", cases.len(), |i, l| {
        let (alg, n, first, want) = &cases[i];
        let map = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                *n,
                libc::PROT_READ,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(map != libc::MAP_FAILED);
        let m = unsafe { std::slice::from_raw_parts(map.cast::<u8>(), *n) };
        fn run<T: Inc>(m: &[u8], first: usize) -> Vec<u8> {
            let mut h = T::new();
            h.up(&m[..first]);
            h.up(&m[first..]);
            h.fin()
        }
        let got = match *alg {
            "sha256" => run::<HighSha256>(m, *first),
            "sha384" => run::<HighSha384>(m, *first),
            "sha512" => run::<HighSha512>(m, *first),
            // feed directly: the wrapper keeps a copy of its input
            "sha3_256" => {
                let mut h = sha3::Sha3_256Context::new();
                h.update(&m[..*first]);
                h.update(&m[*first..]);
                h.finish().to_vec()
            }
            _ => {
                let mut h = sha3::Sha3_512Context::new();
                h.update(&m[..*first]);
                h.update(&m[*first..]);
                h.finish().to_vec()
            }
        };
        unsafe { libc::munmap(map, *n) };
        l.t(2);
        l.eq(&got, want, || format!("{alg} of {n} zero bytes, first update {first}"));
        l.note(|| format!("{alg} of {n} zero bytes, first update {first}"));
    });
}

fn main() {
    fw::main("C01", |c| {
        c.assume("reference digests: independent straight-line FIPS 180-4 / FIPS 202 implementations; huge messages: recorded CPython hashlib digests");
        for deny in [&[][..], &["sha"], &["bmi2"]] {
            c.cpu_mask(deny);
            if deny != ["bmi2"] {
                all::<HighSha256>(c);
                all::<MidSha256>(c);
            }
            if deny != ["sha"] {
                all::<HighSha384>(c);
                all::<MidSha384>(c);
                all::<HighSha512>(c);
                all::<MidSha512>(c);
            }
            if deny.is_empty() {
                all::<S3_256>(c);
                all::<S3_512>(c);
                shake(c);
            }
            huge(c, deny.first().copied().unwrap_or(""));
        }
    });
}
