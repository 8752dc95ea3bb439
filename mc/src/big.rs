//! Plain big integers (little-endian u64 limbs, no leading zero limbs): the
//! reference arithmetic for RSA.
use std::cmp::Ordering;

#[derive(Default, Clone, PartialEq, Eq, Debug, Hash)]
pub struct B(pub Vec<u64>);

impl B {
    pub fn zero() -> B {
        B(vec![])
    }
    pub fn u(v: u64) -> B {
        B(vec![v]).norm()
    }
    fn norm(mut self) -> B {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_be(b: &[u8]) -> B {
        B(b.rchunks(8).map(|c| c.iter().fold(0, |a, x| a << 8 | *x as u64)).collect()).norm()
    }
    /// `n` bytes, big-endian (must fit)
    pub fn be(&self, n: usize) -> Vec<u8> {
        let mut o: Vec<u8> = self.0.iter().flat_map(|w| w.to_le_bytes()).collect();
        while o.len() > n {
            assert_eq!(o.pop(), Some(0), "value does not fit");
        }
        o.resize(n, 0);
        o.reverse();
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.be(self.bits().div_ceil(8))
    }
    pub fn bits(&self) -> usize {
        self.0.last().map_or(0, |l| self.0.len() * 64 - l.leading_zeros() as usize)
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_even(&self) -> bool {
        !self.bit(0)
    }
    pub fn pow2(k: usize) -> B {
        let mut v = vec![0; k / 64 + 1];
        v[k / 64] = 1 << (k % 64);
        B(v)
    }
    pub fn cmp(&self, o: &B) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &B) -> bool {
        self.cmp(o).is_lt()
    }
    pub fn add(&self, o: &B) -> B {
        let n = self.0.len().max(o.0.len());
        let mut r = vec![];
        let mut c = 0u128;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128;
            r.push(c as u64);
            c >>= 64;
        }
        r.push(c as u64);
        B(r).norm()
    }
    pub fn sub(&self, o: &B) -> B {
        assert!(!self.lt(o), "negative");
        let mut r = vec![];
        let mut br = 0i128;
        for i in 0..self.0.len() {
            let v = self.0[i] as i128 - *o.0.get(i).unwrap_or(&0) as i128 + br;
            r.push(v as u64);
            br = v >> 64;
        }
        B(r).norm()
    }
    pub fn mul(&self, o: &B) -> B {
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, b) in o.0.iter().enumerate() {
                c += *a as u128 * *b as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        B(r).norm()
    }
    fn shl(&self, s: u32) -> Vec<u64> {
        let mut r = vec![];
        let mut c = 0;
        for w in &self.0 {
            r.push(if s == 0 { *w } else { w << s | c });
            c = if s == 0 { 0 } else { w >> (64 - s) };
        }
        r.push(c);
        r
    }
    pub fn shr(&self, k: usize) -> B {
        let (w, b) = (k / 64, k % 64);
        let mut r = vec![];
        for i in w..self.0.len() {
            let hi = if b == 0 { 0 } else { self.0.get(i + 1).unwrap_or(&0) << (64 - b) };
            r.push(self.0[i] >> b | hi);
        }
        B(r).norm()
    }
    pub fn divrem(&self, d: &B) -> (B, B) {
        assert!(!d.is_zero());
        if self.lt(d) {
            return (B::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut r = 0u128;
            let mut q = vec![0; self.0.len()];
            for i in (0..self.0.len()).rev() {
                r = r << 64 | self.0[i] as u128;
                q[i] = (r / d.0[0] as u128) as u64;
                r %= d.0[0] as u128;
            }
            return (B(q).norm(), B::u(r as u64));
        }
        let s = d.0.last().unwrap().leading_zeros();
        let v = B(d.shl(s)).norm().0;
        let mut u = self.shl(s);
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u64; m];
        for j in (0..m).rev() {
            let num = (u[j + n] as u128) << 64 | u[j + n - 1] as u128;
            let (mut qh, mut rh) = if u[j + n] >= v[n - 1] {
                (u64::MAX as u128, num - u64::MAX as u128 * v[n - 1] as u128)
            } else {
                (num / v[n - 1] as u128, num % v[n - 1] as u128)
            };
            while rh >> 64 == 0 && qh * v[n - 2] as u128 > (rh << 64 | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
            }
            let (mut c, mut br) = (0u128, 0i128);
            for i in 0..n {
                c += qh * v[i] as u128;
                let t = u[i + j] as i128 - (c as u64) as i128 + br;
                u[i + j] = t as u64;
                br = t >> 64;
                c >>= 64;
            }
            let t = u[j + n] as i128 - c as i128 + br;
            u[j + n] = t as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    c += u[i + j] as u128 + v[i] as u128;
                    u[i + j] = c as u64;
                    c >>= 64;
                }
                u[j + n] = u[j + n].wrapping_add(c as u64);
            }
            q[j] = qh as u64;
        }
        u.truncate(n);
        (B(q).norm(), B(u).norm().shr(s as usize))
    }
    pub fn rem(&self, d: &B) -> B {
        self.divrem(d).1
    }
    pub fn mulmod(&self, o: &B, m: &B) -> B {
        self.mul(o).rem(m)
    }
    pub fn gcd(&self, o: &B) -> B {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    /// inverse modulo m, if coprime
    pub fn inv(&self, m: &B) -> Option<B> {
        // (r, t) pairs with t kept in [0, m)
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (B::zero(), B::u(1).rem(m));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let qt = q.mulmod(&t1, m);
            let t = if t0.lt(&qt) { t0.add(m).sub(&qt) } else { t0.sub(&qt) };
            (r0, r1) = (r1, r);
            (t0, t1) = (t1, t);
        }
        (r0 == B::u(1)).then_some(t0)
    }
    pub fn pow(&self, e: &B, m: &B) -> B {
        if m == &B::u(1) {
            return B::zero();
        }
        if m.is_even() {
            let mut r = B::u(1);
            let b = self.rem(m);
            for i in (0..e.bits()).rev() {
                r = r.mulmod(&r, m);
                if e.bit(i) {
                    r = r.mulmod(&b, m);
                }
            }
            return r;
        }
        // Montgomery, 4-bit windows
        let n = m.0.len();
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m.0[0].wrapping_mul(inv)));
        }
        let n0 = inv.wrapping_neg();
        let mm = |a: &[u64], b: &[u64]| -> Vec<u64> {
            let mut t = vec![0u64; n + 2];
            for i in 0..n {
                let mut c = 0u128;
                for j in 0..n {
                    c += a[i] as u128 * b[j] as u128 + t[j] as u128;
                    t[j] = c as u64;
                    c >>= 64;
                }
                c += t[n] as u128;
                t[n] = c as u64;
                t[n + 1] = (c >> 64) as u64;
                let q = t[0].wrapping_mul(n0);
                let mut c = (q as u128 * m.0[0] as u128 + t[0] as u128) >> 64;
                for j in 1..n {
                    c += q as u128 * m.0[j] as u128 + t[j] as u128;
                    t[j - 1] = c as u64;
                    c >>= 64;
                }
                c += t[n] as u128;
                t[n - 1] = c as u64;
                t[n] = t[n + 1].wrapping_add((c >> 64) as u64);
            }
            t.truncate(n + 1);
            let v = B(t).norm();
            let v = if v.lt(m) { v } else { v.sub(m) };
            let mut v = v.0;
            v.resize(n, 0);
            v
        };
        let pad = |x: B| {
            let mut v = x.0;
            v.resize(n, 0);
            v
        };
        let one = pad(B::pow2(64 * n).rem(m));
        let b = pad(self.rem(m).mul(&B::pow2(64 * n)).rem(m));
        let mut tab = vec![one.clone()];
        for i in 1..16 {
            tab.push(mm(&tab[i - 1], &b));
        }
        let mut r = one;
        for i in (0..e.bits().div_ceil(4)).rev() {
            for _ in 0..4 {
                r = mm(&r, &r);
            }
            let w = e.0[i / 16] >> (4 * (i % 16)) & 15;
            r = mm(&r, &tab[w as usize]);
        }
        let mut u = vec![0; n];
        u[0] = 1;
        B(mm(&r, &u)).norm()
    }
    /// Miller-Rabin with fixed and stream bases (reference, many rounds)
    pub fn is_prime(&self) -> bool {
        const SMALL: [u64; 30] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113];
        for s in SMALL {
            if self == &B::u(s) {
                return true;
            }
            if self.rem(&B::u(s)).is_zero() {
                return false;
            }
        }
        if self.bits() < 8 {
            return false;
        }
        let w1 = self.sub(&B::u(1));
        (0..24u64).all(|i| {
            let b = if i < 12 {
                B::u(SMALL[i as usize])
            } else {
                B::from_be(&crate::rng::bytes(i + 1, self.bits() / 8))
            };
            self.strong_probable(&b, &w1)
        })
    }
    fn strong_probable(&self, b: &B, w1: &B) -> bool {
        let a = (0..).find(|i| w1.bit(*i)).unwrap();
        let mut z = b.pow(&w1.shr(a), self);
        if z == B::u(1) || &z == w1 {
            return true;
        }
        for _ in 1..a {
            z = z.mulmod(&z, self);
            if &z == w1 {
                return true;
            }
        }
        false
    }
    /// is `b` a strong liar/witness for this odd number?
    pub fn passes_base(&self, b: &B) -> bool {
        self.strong_probable(b, &self.sub(&B::u(1)))
    }
    /// deterministic prime of exactly `bits` bits, from a seed, p = 1 mod 2 and
    /// coprime p-1 with e, top two bits set
    pub fn prime(seed: u64, bits: usize, e: &B) -> B {
        let mut i = 0u64;
        loop {
            let n = bits.div_ceil(8);
            let mut v = B::from_be(&crate::rng::bytes(seed ^ (i << 20), n)).rem(&B::pow2(bits)).0;
            v.resize(bits.div_ceil(64), 0);
            v[0] |= 1;
            for b in [bits - 1, bits - 2] {
                v[b / 64] |= 1 << (b % 64);
            }
            let p = B(v).norm();
            // quick sieve first
            if (3..2000u64).step_by(2).all(|s| !p.rem(&B::u(s)).is_zero()) && p.passes_base(&B::u(2)) && p.is_prime() && p.sub(&B::u(1)).gcd(e) == B::u(1) {
                return p;
            }
            i += 1;
        }
    }
}
