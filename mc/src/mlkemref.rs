//! Reference ML-KEM-768, written from FIPS 203 with schoolbook arithmetic in
//! the normal domain wherever that is possible.
use crate::hashref::{sha3_256, sha3_512, shake128, shake256};

pub const Q: i64 = 3329;
const K: usize = 3;

pub type Poly = [u16; 256];

fn bitrev7(i: usize) -> u32 {
    (i as u8).reverse_bits() as u32 >> 1
}
fn powq(b: i64, e: u32) -> i64 {
    let mut r = 1;
    for _ in 0..e {
        r = r * b % Q;
    }
    r
}
struct Tab {
    zeta: [i64; 128],
    gamma: [i64; 128],
}
fn tab() -> &'static Tab {
    static T: std::sync::OnceLock<Tab> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tab { zeta: [0; 128], gamma: [0; 128] };
        for i in 0..128 {
            t.zeta[i] = powq(17, bitrev7(i));
            t.gamma[i] = powq(17, 2 * bitrev7(i) + 1);
        }
        t
    })
}
pub fn ntt(f: &Poly) -> Poly {
    let mut f: Vec<i64> = f.iter().map(|x| *x as i64).collect();
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let z = tab().zeta[i];
            i += 1;
            for j in start..start + len {
                let t = z * f[j + len] % Q;
                f[j + len] = (f[j] - t).rem_euclid(Q);
                f[j] = (f[j] + t) % Q;
            }
            start += 2 * len;
        }
        len /= 2;
    }
    std::array::from_fn(|i| f[i] as u16)
}
pub fn intt(f: &Poly) -> Poly {
    let mut f: Vec<i64> = f.iter().map(|x| *x as i64).collect();
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let z = tab().zeta[i];
            i -= 1;
            for j in start..start + len {
                let t = f[j];
                f[j] = (t + f[j + len]) % Q;
                f[j + len] = z * (f[j + len] - t).rem_euclid(Q) % Q;
            }
            start += 2 * len;
        }
        len *= 2;
    }
    std::array::from_fn(|i| (f[i] * 3303 % Q) as u16)
}
pub fn mul_ntt(a: &Poly, b: &Poly) -> Poly {
    let mut r = [0u16; 256];
    for i in 0..128 {
        let (a0, a1, b0, b1) = (a[2 * i] as i64, a[2 * i + 1] as i64, b[2 * i] as i64, b[2 * i + 1] as i64);
        r[2 * i] = ((a0 * b0 + a1 * b1 % Q * tab().gamma[i]) % Q) as u16;
        r[2 * i + 1] = ((a0 * b1 + a1 * b0) % Q) as u16;
    }
    r
}
pub fn addp(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| ((a[i] as i64 + b[i] as i64) % Q) as u16)
}
pub fn subp(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| (a[i] as i64 - b[i] as i64).rem_euclid(Q) as u16)
}
pub fn encode(f: &Poly, d: usize) -> Vec<u8> {
    let mut o = vec![0u8; 32 * d];
    for (i, c) in f.iter().enumerate() {
        for j in 0..d {
            let b = i * d + j;
            o[b / 8] |= ((c >> j & 1) as u8) << (b % 8);
        }
    }
    o
}
/// raw d-bit integers
pub fn decode(b: &[u8], d: usize) -> Poly {
    std::array::from_fn(|i| {
        let mut v = 0u16;
        for j in 0..d {
            let k = i * d + j;
            v |= ((b[k / 8] >> (k % 8) & 1) as u16) << j;
        }
        v
    })
}
pub fn compress(f: &Poly, d: u32) -> Poly {
    // round(2^d/q x) mod 2^d, ties cannot occur
    std::array::from_fn(|i| (((f[i] as i64 * (1 << (d + 1)) + Q) / (2 * Q)) & ((1 << d) - 1)) as u16)
}
pub fn decompress(f: &Poly, d: u32) -> Poly {
    std::array::from_fn(|i| ((f[i] as i64 * Q * 2 + (1 << d)) >> (d + 1)) as u16)
}
pub fn sample_ntt(rho: &[u8], j: u8, i: u8) -> (Poly, usize) {
    let mut n = 504;
    loop {
        let xof = shake128(&[rho, &[j, i]].concat(), n);
        let mut p = [0u16; 256];
        let mut k = 0;
        for c in xof.chunks_exact(3) {
            let d1 = c[0] as u16 + 256 * (c[1] as u16 % 16);
            let d2 = c[1] as u16 / 16 + 16 * c[2] as u16;
            for d in [d1, d2] {
                if (d as i64) < Q && k < 256 {
                    p[k] = d;
                    k += 1;
                }
            }
        }
        if k == 256 {
            return (p, n);
        }
        n += 168;
    }
}
pub fn cbd2(b: &[u8]) -> Poly {
    std::array::from_fn(|i| {
        let bit = |k: usize| (b[k / 8] >> (k % 8) & 1) as i64;
        let x = bit(4 * i) + bit(4 * i + 1);
        let y = bit(4 * i + 2) + bit(4 * i + 3);
        (x - y).rem_euclid(Q) as u16
    })
}
fn prf(s: &[u8], n: u8) -> Poly {
    cbd2(&shake256(&[s, &[n]].concat(), 128))
}
/// number of SHAKE128 bytes each matrix entry needed (for choosing seeds)
pub fn matrix_bytes(rho: &[u8]) -> [usize; 9] {
    std::array::from_fn(|x| sample_ntt(rho, (x % 3) as u8, (x / 3) as u8).1)
}
fn matrix(rho: &[u8]) -> [[Poly; K]; K] {
    std::array::from_fn(|i| std::array::from_fn(|j| sample_ntt(rho, j as u8, i as u8).0))
}

/// (ek, dk)
pub fn keygen(seed: &[u8; 64]) -> (Vec<u8>, Vec<u8>) {
    let (d, z) = seed.split_at(32);
    let g = sha3_512(&[d, &[K as u8]].concat());
    let (rho, sigma) = g.split_at(32);
    let a = matrix(rho);
    let s: [Poly; K] = std::array::from_fn(|i| ntt(&prf(sigma, i as u8)));
    let e: [Poly; K] = std::array::from_fn(|i| ntt(&prf(sigma, (K + i) as u8)));
    let mut ek = vec![];
    for i in 0..K {
        let mut t = e[i];
        for j in 0..K {
            t = addp(&t, &mul_ntt(&a[i][j], &s[j]));
        }
        ek.extend(encode(&t, 12));
    }
    ek.extend_from_slice(rho);
    let mut dk = vec![];
    for s in &s {
        dk.extend(encode(s, 12));
    }
    dk.extend_from_slice(&ek);
    dk.extend(sha3_256(&ek));
    dk.extend_from_slice(z);
    (ek, dk)
}
pub fn pke_encrypt(ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    let a = matrix(&ek[384 * K..]);
    let t: [Poly; K] = std::array::from_fn(|i| decode(&ek[384 * i..384 * (i + 1)], 12));
    let y: [Poly; K] = std::array::from_fn(|i| ntt(&prf(r, i as u8)));
    let e1: [Poly; K] = std::array::from_fn(|i| prf(r, (K + i) as u8));
    let e2 = prf(r, 2 * K as u8);
    let mut c = vec![];
    for i in 0..K {
        let mut u = [0u16; 256];
        for j in 0..K {
            u = addp(&u, &mul_ntt(&a[j][i], &y[j]));
        }
        let u = addp(&intt(&u), &e1[i]);
        c.extend(encode(&compress(&u, 10), 10));
    }
    let mut v = [0u16; 256];
    for j in 0..K {
        v = addp(&v, &mul_ntt(&t[j], &y[j]));
    }
    let mu = decompress(&decode(m, 1), 1);
    let v = addp(&addp(&intt(&v), &e2), &mu);
    c.extend(encode(&compress(&v, 4), 4));
    c
}
pub fn encaps(ek: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let g = sha3_512(&[m, &sha3_256(ek)].concat());
    (g[..32].to_vec(), pke_encrypt(ek, m, &g[32..]))
}
pub fn pke_decrypt(dk: &[u8], c: &[u8]) -> Vec<u8> {
    let mut w = [0u16; 256];
    for i in 0..K {
        let u = decompress(&decode(&c[320 * i..320 * (i + 1)], 10), 10);
        let s = decode(&dk[384 * i..384 * (i + 1)], 12);
        w = addp(&w, &mul_ntt(&s, &ntt(&u)));
    }
    let v = decompress(&decode(&c[960..], 4), 4);
    encode(&compress(&subp(&v, &intt(&w)), 1), 1)
}
/// (secret, whether the ciphertext was accepted)
pub fn decaps(dk: &[u8], c: &[u8]) -> (Vec<u8>, bool) {
    let ek = &dk[384 * K..768 * K + 32];
    let h = &dk[768 * K + 32..768 * K + 64];
    let z = &dk[768 * K + 64..];
    let m = pke_decrypt(dk, c);
    let g = sha3_512(&[&m, h].concat());
    if pke_encrypt(ek, &m, &g[32..]) == c {
        (g[..32].to_vec(), true)
    } else {
        (shake256(&[z, c].concat(), 32), false)
    }
}
