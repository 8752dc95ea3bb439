//! Reference Curve25519 / edwards25519 (RFC 7748, RFC 8032).
use crate::hashref::sha512;
use crate::mont::*;
use std::sync::OnceLock;

pub struct C25519 {
    pub f: Mod<4>,
    /// group order
    pub l: Mod<4>,
    /// order of the prime-order subgroup of the quadratic twist
    pub twist: Mod<4>,
    d: E<4>,
    sqrt_m1: E<4>,
    pub b: Ed,
}
pub fn c25519() -> &'static C25519 {
    static C: OnceLock<C25519> = OnceLock::new();
    C.get_or_init(C25519::new)
}

/// projective twisted Edwards point (Montgomery-form coordinates)
#[derive(Clone, Copy, Debug)]
pub struct Ed {
    x: E<4>,
    y: E<4>,
    z: E<4>,
}

impl C25519 {
    fn new() -> Self {
        let p = sub_raw(&pow2::<4>(255), &from_u64(19)).0;
        let f = Mod::new(p);
        let l = Mod::new(from_hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"));
        let d = f.mul(&f.neg(&f.small(121665)), &f.inv(&f.small(121666)));
        // 2^((p-1)/4)
        let e = shr1(&shr1(&sub_raw(&p, &from_u64(1)).0));
        let sqrt_m1 = f.pow(&f.small(2), &e);
        let z = f.one();
        let twist = Mod::new([0x4fdb39cb4614581d, 0xd6420c42ba10c653, 0xffffffffffffffff, 0x1fffffffffffffff]);
        let mut c = C25519 { f, l, twist, d, sqrt_m1, b: Ed { x: z, y: z, z } };
        let y = c.f.from(&c.f.mul(&c.f.small(4), &c.f.inv(&c.f.small(5))));
        let mut enc: [u8; 32] = to_le(&y, 32).try_into().unwrap();
        enc[31] &= 0x7f;
        c.b = c.decode(&enc).unwrap();
        c
    }
    pub fn ident(&self) -> Ed {
        Ed { x: [0; 4], y: self.f.one(), z: self.f.one() }
    }
    /// strict RFC 8032 decoding
    pub fn decode(&self, b: &[u8; 32]) -> Option<Ed> {
        let f = &self.f;
        let sign = b[31] >> 7;
        let mut yb = *b;
        yb[31] &= 0x7f;
        let y: [u64; 4] = from_le(&yb);
        if cmp(&y, &f.m).is_ge() {
            return None;
        }
        let y = f.to(&y);
        let y2 = f.sqr(&y);
        let u = f.sub(&y2, &f.one());
        let v = f.add(&f.mul(&self.d, &y2), &f.one());
        let w = f.mul(&u, &f.inv(&v));
        // sqrt for p = 5 mod 8
        let e = shr1(&shr1(&shr1(&add_raw(&f.m, &from_u64(3)).0)));
        let mut x = f.pow(&w, &e);
        if f.sqr(&x) != w {
            x = f.mul(&x, &self.sqrt_m1);
            if f.sqr(&x) != w {
                return None;
            }
        }
        let xp = f.from(&x);
        if is_zero(&xp) && sign == 1 {
            return None;
        }
        if (xp[0] & 1) as u8 != sign {
            x = f.neg(&x);
        }
        Some(Ed { x, y, z: f.one() })
    }
    pub fn encode(&self, p: &Ed) -> [u8; 32] {
        let f = &self.f;
        let zi = f.inv(&p.z);
        let x = f.from(&f.mul(&p.x, &zi));
        let y = f.from(&f.mul(&p.y, &zi));
        let mut o: [u8; 32] = to_le(&y, 32).try_into().unwrap();
        o[31] |= ((x[0] & 1) as u8) << 7;
        o
    }
    /// complete addition (a = -1, d non-square)
    pub fn add(&self, p: &Ed, q: &Ed) -> Ed {
        let f = &self.f;
        let a = f.mul(&p.z, &q.z);
        let b = f.sqr(&a);
        let c = f.mul(&p.x, &q.x);
        let d = f.mul(&p.y, &q.y);
        let e = f.mul(&self.d, &f.mul(&c, &d));
        let ff = f.sub(&b, &e);
        let g = f.add(&b, &e);
        let xy = f.sub(&f.sub(&f.mul(&f.add(&p.x, &p.y), &f.add(&q.x, &q.y)), &c), &d);
        Ed { x: f.mul(&a, &f.mul(&ff, &xy)), y: f.mul(&a, &f.mul(&g, &f.add(&d, &c))), z: f.mul(&ff, &g) }
    }
    pub fn neg(&self, p: &Ed) -> Ed {
        Ed { x: self.f.neg(&p.x), y: p.y, z: p.z }
    }
    pub fn mul(&self, k: &[u64; 4], p: &Ed) -> Ed {
        let mut r = self.ident();
        let mut started = false;
        for i in (0..256).rev() {
            if started {
                r = self.add(&r, &r);
            }
            if bit(k, i) {
                r = self.add(&r, p);
                started = true;
            }
        }
        r
    }
    /// 64-byte little-endian hash reduced mod l
    pub fn reduce_le(&self, h: &[u8]) -> [u64; 4] {
        let v: Vec<u8> = h.iter().rev().copied().collect();
        self.l.reduce_be(&v)
    }
    /// a point of order 8
    pub fn order8(&self) -> Ed {
        // l * P for successive decodable y until the result has order 8
        for y in 2u8.. {
            let mut b = [0u8; 32];
            b[0] = y;
            if let Some(p) = self.decode(&b) {
                let t = self.mul(&self.l.m, &p);
                let t4 = self.mul(&from_u64(4), &t);
                if self.encode(&t4) != self.encode(&self.ident()) {
                    return t;
                }
            }
        }
        unreachable!()
    }
    pub fn x25519(&self, k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
        let mut k = *k;
        k[0] &= 248;
        k[31] = (k[31] & 127) | 64;
        let mut u = *u;
        u[31] &= 0x7f;
        let r = self.ladder(&from_le(&k), &self.f.to(&from_le(&u)));
        to_le(&r.map_or([0; 4], |r| self.f.from(&r)), 32).try_into().unwrap()
    }
    /// the u-coordinate of k times the point (on the curve or its twist) at
    /// `x1`; nothing for the point at infinity
    pub fn ladder(&self, k: &[u64; 4], x1: &E<4>) -> Option<E<4>> {
        let f = &self.f;
        let x1 = *x1;
        let (mut x2, mut z2, mut x3, mut z3) = (f.one(), [0u64; 4], x1, f.one());
        let a24 = f.small(121665);
        let mut swap = false;
        for t in (0..256).rev() {
            let kt = bit(k, t);
            if swap != kt {
                std::mem::swap(&mut x2, &mut x3);
                std::mem::swap(&mut z2, &mut z3);
            }
            swap = kt;
            let a = f.add(&x2, &z2);
            let aa = f.sqr(&a);
            let b = f.sub(&x2, &z2);
            let bb = f.sqr(&b);
            let e = f.sub(&aa, &bb);
            let c = f.add(&x3, &z3);
            let d = f.sub(&x3, &z3);
            let da = f.mul(&d, &a);
            let cb = f.mul(&c, &b);
            x3 = f.sqr(&f.add(&da, &cb));
            z3 = f.mul(&x1, &f.sqr(&f.sub(&da, &cb)));
            x2 = f.mul(&aa, &bb);
            z2 = f.mul(&e, &f.add(&aa, &f.mul(&a24, &e)));
        }
        if swap {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        (!is_zero(&z2)).then(|| f.mul(&x2, &f.inv(&z2)))
    }
    /// a u-coordinate which the scalar k maps to r (below p, in one of the two
    /// prime-order subgroups; otherwise nothing)
    pub fn preimage(&self, k: &[u8; 32], r: &[u64; 4]) -> Option<[u8; 32]> {
        let mut k = *k;
        k[0] &= 248;
        k[31] = (k[31] & 127) | 64;
        let k: [u64; 4] = from_le(&k);
        let x = self.f.to(r);
        for m in [&self.l, &self.twist] {
            if self.ladder(&m.m, &x).is_none() {
                let ki = m.pinv(&m.reduce(&k));
                return Some(to_le(&self.f.from(&self.ladder(&ki, &x)?), 32).try_into().unwrap());
            }
        }
        None
    }
    pub fn public(&self, seed: &[u8; 32]) -> [u8; 32] {
        self.encode(&self.mul(&self.clamped(seed).0, &self.b))
    }
    pub fn clamped(&self, seed: &[u8]) -> ([u64; 4], Vec<u8>) {
        let h = sha512(seed);
        let mut s: [u8; 32] = h[..32].try_into().unwrap();
        s[0] &= 248;
        s[31] = (s[31] & 127) | 64;
        (from_le(&s), h[32..].to_vec())
    }
    pub fn challenge(&self, r: &[u8], a: &[u8], m: &[u8]) -> [u64; 4] {
        self.reduce_le(&sha512(&[r, a, m].concat()))
    }
    pub fn sign(&self, seed: &[u8; 32], m: &[u8]) -> [u8; 64] {
        let (s, prefix) = self.clamped(seed);
        let a = self.public(seed);
        let r = self.reduce_le(&sha512(&[&prefix[..], m].concat()));
        let rb = self.encode(&self.mul(&r, &self.b));
        let k = self.challenge(&rb, &a, m);
        let sc = self.l.reduce(&s);
        let t = self.l.add(&self.l.pmul(&k, &sc), &r);
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(&rb);
        o[32..].copy_from_slice(&to_le(&t, 32));
        o
    }
    /// None: the public key itself is refused
    pub fn verify(&self, a: &[u8; 32], sig: &[u8], m: &[u8]) -> Option<bool> {
        let pa = self.decode(a)?;
        if sig.len() != 64 {
            return Some(false);
        }
        let s: [u64; 4] = from_le(&sig[32..]);
        if cmp(&s, &self.l.m).is_ge() {
            return Some(false);
        }
        let k = self.challenge(&sig[..32], a, m);
        let r = self.add(&self.mul(&s, &self.b), &self.mul(&k, &self.neg(&pa)));
        Some(self.encode(&r)[..] == sig[..32])
    }
}
