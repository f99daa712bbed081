//! Reference arithmetic: integers modulo p and polynomial extensions, done the boring way.
use crate::*;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Fld: Clone + Send + Sync {
    type E: Clone + Ord + Hash + Debug + Send + Sync;
    fn zero(&self) -> Self::E;
    fn one(&self) -> Self::E;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn neg(&self, a: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn inv(&self, a: &Self::E) -> Option<Self::E>;
    fn int(&self, v: &BigUint) -> Self::E;
    /// number of elements
    fn size(&self) -> BigUint;
    fn chr(&self) -> BigUint;
    /// coordinates over the prime field, lowest first
    fn coeffs(&self, a: &Self::E) -> Vec<BigUint>;
    fn of_coeffs(&self, c: &[BigUint]) -> Self::E;
    fn deg(&self) -> usize;

    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E {
        self.add(a, &self.neg(b))
    }
    fn sq(&self, a: &Self::E) -> Self::E {
        self.mul(a, a)
    }
    fn is_zero(&self, a: &Self::E) -> bool {
        *a == self.zero()
    }
    fn pow(&self, a: &Self::E, e: &BigUint) -> Self::E {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = self.sq(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    fn small(&self, v: i64) -> Self::E {
        let e = self.int(&BigUint::from(v.unsigned_abs()));
        if v < 0 {
            self.neg(&e)
        } else {
            e
        }
    }
    /// 0, 1 or -1 by Euler's criterion
    fn chi(&self, a: &Self::E) -> i64 {
        if self.is_zero(a) {
            return 0;
        }
        let e = (self.size() - BigUint::one()) >> 1;
        if self.pow(a, &e) == self.one() {
            1
        } else {
            -1
        }
    }
    /// A square root by Tonelli-Shanks in a field of any odd order.
    fn sqrt(&self, a: &Self::E) -> Option<Self::E> {
        if self.is_zero(a) {
            return Some(self.zero());
        }
        if self.chi(a) != 1 {
            return None;
        }
        let q1 = self.size() - BigUint::one();
        let s = q1.trailing_zeros().unwrap();
        let t = &q1 >> s;
        // a non-square
        let mut i = 2u32;
        let z = loop {
            let mut c = vec![BigUint::from(i); 1];
            if self.deg() > 1 {
                c = vec![BigUint::from(i), BigUint::one()];
                c.resize(self.deg(), BigUint::zero());
            }
            let z = self.of_coeffs(&c);
            if self.chi(&z) == -1 {
                break z;
            }
            i += 1;
        };
        let mut c = self.pow(&z, &t);
        let mut r = self.pow(a, &((&t + BigUint::one()) >> 1));
        let mut b = self.pow(a, &t);
        let mut m = s;
        while b != self.one() {
            let mut k = 0;
            let mut x = b.clone();
            while x != self.one() {
                x = self.sq(&x);
                k += 1;
            }
            let mut g = c.clone();
            for _ in 0..(m - k - 1) {
                g = self.sq(&g);
            }
            m = k;
            c = self.sq(&g);
            r = self.mul(&r, &g);
            b = self.mul(&b, &c);
        }
        Some(r)
    }
    /// RFC 9380 sgn0
    fn sgn0(&self, a: &Self::E) -> bool {
        let (mut sign, mut zero) = (false, true);
        for c in self.coeffs(a) {
            let s = c.bit(0);
            sign |= zero && s;
            zero &= c.is_zero();
        }
        sign
    }
}

#[derive(Clone, Debug)]
pub struct Prime {
    pub p: BigUint,
}
impl Fld for Prime {
    type E = BigUint;
    fn zero(&self) -> BigUint {
        BigUint::zero()
    }
    fn one(&self) -> BigUint {
        BigUint::one()
    }
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        let s = a + b;
        if s >= self.p {
            s - &self.p
        } else {
            s
        }
    }
    fn neg(&self, a: &BigUint) -> BigUint {
        if a.is_zero() {
            a.clone()
        } else {
            &self.p - a
        }
    }
    fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        a * b % &self.p
    }
    fn inv(&self, a: &BigUint) -> Option<BigUint> {
        (!a.is_zero()).then(|| modinv(a, &self.p))
    }
    fn int(&self, v: &BigUint) -> BigUint {
        v % &self.p
    }
    fn size(&self) -> BigUint {
        self.p.clone()
    }
    fn chr(&self) -> BigUint {
        self.p.clone()
    }
    fn coeffs(&self, a: &BigUint) -> Vec<BigUint> {
        vec![a.clone()]
    }
    fn of_coeffs(&self, c: &[BigUint]) -> BigUint {
        &c[0] % &self.p
    }
    fn deg(&self) -> usize {
        1
    }
    fn pow(&self, a: &BigUint, e: &BigUint) -> BigUint {
        a.modpow(e, &self.p)
    }
}

/// The same for tiny primes, on machine words.
#[derive(Clone, Debug)]
pub struct PrimeU {
    pub p: u64,
}
impl Fld for PrimeU {
    type E = u64;
    fn zero(&self) -> u64 {
        0
    }
    fn one(&self) -> u64 {
        1
    }
    fn add(&self, a: &u64, b: &u64) -> u64 {
        (a + b) % self.p
    }
    fn neg(&self, a: &u64) -> u64 {
        (self.p - a) % self.p
    }
    fn mul(&self, a: &u64, b: &u64) -> u64 {
        (*a as u128 * *b as u128 % self.p as u128) as u64
    }
    fn inv(&self, a: &u64) -> Option<u64> {
        if *a == 0 {
            return None;
        }
        let (mut r, mut b, mut e) = (1, *a, self.p - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(&r, &b);
            }
            b = self.mul(&b, &b);
            e >>= 1;
        }
        Some(r)
    }
    fn int(&self, v: &BigUint) -> u64 {
        u(&(v % self.p))
    }
    fn size(&self) -> BigUint {
        self.p.into()
    }
    fn chr(&self) -> BigUint {
        self.p.into()
    }
    fn coeffs(&self, a: &u64) -> Vec<BigUint> {
        vec![(*a).into()]
    }
    fn of_coeffs(&self, c: &[BigUint]) -> u64 {
        self.int(&c[0])
    }
    fn deg(&self) -> usize {
        1
    }
}

/// base[X] / (X^d - nr)
#[derive(Clone, Debug)]
pub struct Ext<B: Fld> {
    pub base: B,
    pub d: usize,
    pub nr: B::E,
}
impl<B: Fld> Fld for Ext<B> {
    type E = Vec<B::E>;
    fn zero(&self) -> Self::E {
        vec![self.base.zero(); self.d]
    }
    fn one(&self) -> Self::E {
        let mut v = self.zero();
        v[0] = self.base.one();
        v
    }
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E {
        a.iter().zip(b).map(|(a, b)| self.base.add(a, b)).collect()
    }
    fn neg(&self, a: &Self::E) -> Self::E {
        a.iter().map(|a| self.base.neg(a)).collect()
    }
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E {
        let k = &self.base;
        let mut w = vec![k.zero(); 2 * self.d - 1];
        for (i, x) in a.iter().enumerate() {
            if k.is_zero(x) {
                continue;
            }
            for (j, y) in b.iter().enumerate() {
                w[i + j] = k.add(&w[i + j], &k.mul(x, y));
            }
        }
        for i in (self.d..w.len()).rev() {
            let t = k.mul(&w[i], &self.nr);
            w[i - self.d] = k.add(&w[i - self.d], &t);
        }
        w.truncate(self.d);
        w
    }
    fn inv(&self, a: &Self::E) -> Option<Self::E> {
        if self.is_zero(a) {
            return None;
        }
        let k = &self.base;
        match self.d {
            2 => {
                let n = k.sub(&k.sq(&a[0]), &k.mul(&self.nr, &k.sq(&a[1])));
                let n = k.inv(&n)?;
                Some(vec![k.mul(&a[0], &n), k.neg(&k.mul(&a[1], &n))])
            }
            _ => {
                // a^-1 = a^(q-2); only used on small fields
                Some(self.pow(a, &(self.size() - BigUint::from(2u32))))
            }
        }
    }
    fn int(&self, v: &BigUint) -> Self::E {
        let mut e = self.zero();
        e[0] = self.base.int(v);
        e
    }
    fn size(&self) -> BigUint {
        self.base.size().pow(self.d as u32)
    }
    fn chr(&self) -> BigUint {
        self.base.chr()
    }
    fn coeffs(&self, a: &Self::E) -> Vec<BigUint> {
        a.iter().flat_map(|a| self.base.coeffs(a)).collect()
    }
    fn of_coeffs(&self, c: &[BigUint]) -> Self::E {
        c.chunks(self.base.deg()).map(|c| self.base.of_coeffs(c)).collect()
    }
    fn deg(&self) -> usize {
        self.d * self.base.deg()
    }
}
pub type Ext2 = Ext<Prime>;
