//! Regenerates mc/data/rsa_primes.txt: "<p bits> <q bits> <e> <p hex> <q hex>".
use mc::big::B;
use std::sync::Mutex;
/// Prime moduli next to limb patterns: "<bits> <n hex>" lines of mc/data/rsa_moduli.txt.
fn moduli() {
    let mut starts: Vec<B> = vec![];
    for bits in [2048usize, 2049, 2056, 2111, 2112, 3072, 4096] {
        let w = bits / 64;
        let top = B::pow2(bits - 1);
        let all = B::pow2(bits).sub(&B::pow2(bits / 2));
        starts.push(top.clone());
        starts.push(B::pow2(bits).sub(&B::u(1 << 20)));
        starts.push(all);
        starts.push(top.add(&B::pow2(bits / 2)).sub(&B::u(1 << 20)));
        if bits <= 2112 {
            starts.push(top.add(&B::pow2(bits - 2)));
            // alternating limbs
            for (a, b) in [(0, u64::MAX), (u64::MAX, 0), (1, 1 << 63), (0x5555555555555555, 0xaaaaaaaaaaaaaaaa)] {
                let mut v: Vec<u64> = (0..w).map(|i| if i % 2 == 0 { a } else { b }).collect();
                v[0] |= 1;
                let x = B::from_be(&v.iter().rev().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>());
                starts.push(if x.bit(bits - 1) { x } else { x.add(&top) });
            }
            for k in [1usize, 8, 16, 24] {
                starts.push(B::pow2(bits).sub(&B::pow2(64 * k)));
                starts.push(top.add(&B::pow2(64 * k)));
            }
        }
    }
    let out = Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let e = B::u(65537);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= starts.len() {
                        break;
                    }
                    let i = starts.len() - 1 - i;
                    let bits = starts[i].bits();
                    let mut x = starts[i].clone();
                    if x.is_even() {
                        x = x.add(&B::u(1));
                    }
                    loop {
                        if (3..5000u64).step_by(2).all(|s| !x.rem(&B::u(s)).is_zero()) && x.passes_base(&B::u(2)) && x.is_prime() && x.sub(&B::u(1)).gcd(&e) == B::u(1) {
                            break;
                        }
                        x = x.add(&B::u(2));
                    }
                    if x.bits() == bits {
                        out.lock().unwrap().push((i, format!("{bits} {}", x.bytes().iter().map(|b| format!("{b:02x}")).collect::<String>())));
                    }
                }
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort();
    for (_, l) in o {
        println!("{l}");
    }
}
/// Primes for private keys next to limb patterns: mc/data/rsa_pairs.txt, one per line.
fn pairs() {
    let e = B::u(65537);
    for bits in [1024usize, 1025, 1056, 1536, 2048] {
        let top = B::pow2(bits - 1).add(&B::pow2(bits - 2));
        let mut v = vec![top.clone(), B::pow2(bits).sub(&B::u(1 << 16)), B::pow2(bits).sub(&B::pow2(bits / 2)), top.add(&B::pow2(bits / 2))];
        if bits == 1024 {
            for k in [1usize, 2, 4, 7, 8, 9, 12, 15] {
                v.push(B::pow2(bits).sub(&B::pow2(64 * k)));
                v.push(top.add(&B::pow2(64 * k)));
            }
        }
        for mut x in v {
            if x.is_even() {
                x = x.add(&B::u(1));
            }
            while !((3..5000u64).step_by(2).all(|s| !x.rem(&B::u(s)).is_zero()) && x.passes_base(&B::u(2)) && x.is_prime() && x.sub(&B::u(1)).gcd(&e) == B::u(1)) {
                x = x.add(&B::u(2));
            }
            println!("{bits} {}", x.bytes().iter().map(|b| format!("{b:02x}")).collect::<String>());
        }
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("pairs") {
        return pairs();
    }
    if std::env::args().nth(1).as_deref() == Some("moduli") {
        return moduli();
    }
    let mut jobs: Vec<(usize, usize, u64)> = vec![];
    // modulus sizes around byte and word boundaries
    for (p, q) in [(1024, 1024), (1025, 1024), (1025, 1025), (1028, 1027), (1028, 1028), (1029, 1028), (1032, 1032), (1033, 1032), (1056, 1055), (1056, 1056), (1057, 1056), (1088, 1087), (1088, 1088), (1100, 1060), (1152, 1024), (1536, 1535), (1500, 1500), (1536, 1537), (1600, 1600), (2048, 2047), (2048, 2048), (2049, 2048), (4096, 4095)] {
        jobs.push((p, q, 65537));
    }
    for e in [3, 5, 17, 257, 65539, 0x8000_0001, 0xffff_ffff] {
        jobs.push((1024, 1024, e));
    }
    jobs.push((1028, 1028, 3));
    let out = Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let i = if i < jobs.len() { jobs.len() - 1 - i } else { break };
                    let (pb, qb, e) = jobs[i];
                    let be = B::u(e);
                    let p = B::prime(1000 + 2 * i as u64, pb, &be);
                    let q = B::prime(1001 + 2 * i as u64, qb, &be);
                    let hex = |x: &B| x.bytes().iter().map(|b| format!("{b:02x}")).collect::<String>();
                    out.lock().unwrap().push((i, format!("{pb} {qb} {e} {} {}", hex(&p), hex(&q))));
                }
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort();
    for (_, l) in o {
        println!("{l}");
    }
}
