//! Uniform access to the pairing engines.
use crate::*;
use ff::Field;
use group::Group;
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};

pub type Fr<E> = <<E as PE>::C1 as HC>::Sc;
pub type A1<E> = <<E as PE>::C1 as HC>::Aff;
pub type A2<E> = <<E as PE>::C2 as HC>::Aff;
pub trait PE: 'static {
    type C1: HC;
    type C2: HC<Sc = Fr<Self>>;
    type T: H12;
    type Gt: Group<Scalar = Fr<Self>> + Default + subtle::ConstantTimeEq + subtle::ConditionallySelectable + 'static;
    const NAME: &'static str;
    fn ml(terms: &[(&A1<Self>, &A2<Self>)]) -> Self::T;
    /// the free function behind it
    fn ml_free(terms: &[(&A1<Self>, &A2<Self>)]) -> Self::T;
    fn fe(f: &Self::T) -> Self::Gt;
    /// every entry point for one pair
    fn entries(p: &A1<Self>, q: &A2<Self>) -> Vec<(&'static str, Self::Gt)>;
    /// every route to a + b, a - b
    fn binary(a: &Self::Gt, b: &Self::Gt) -> [Vec<Self::Gt>; 2];
    fn muls(a: &Self::Gt, k: &Fr<Self>) -> Vec<Self::Gt>;
    fn negs(a: &Self::Gt) -> Vec<Self::Gt>;
    fn doubles(a: &Self::Gt) -> Vec<Self::Gt>;
    fn ids() -> Vec<Self::Gt>;
    fn sums(v: &[Self::Gt]) -> Vec<Self::Gt>;
    /// the field element inside
    fn raw(g: &Self::Gt) -> Self::T {
        assert_eq!(std::mem::size_of::<Self::Gt>(), std::mem::size_of::<Self::T>());
        // SAFETY: Gt is a struct with one field of this type
        unsafe { std::mem::transmute_copy(g) }
    }
    fn wrap(t: &Self::T) -> Self::Gt {
        assert_eq!(std::mem::size_of::<Self::Gt>(), std::mem::size_of::<Self::T>());
        // SAFETY: as above
        unsafe { std::mem::transmute_copy(t) }
    }
}
macro_rules! pe {
    ($n:ident, $m:ident, $e:ident, $t:ty, $name:literal) => {
        pub struct $n;
        impl PE for $n {
            type C1 = halo2curves::$m::G1;
            type C2 = halo2curves::$m::G2;
            type T = $t;
            type Gt = halo2curves::$m::Gt;
            const NAME: &'static str = $name;
            fn ml(terms: &[(&A1<Self>, &A2<Self>)]) -> $t {
                <halo2curves::$m::$e as MultiMillerLoop>::multi_miller_loop(terms)
            }
            fn ml_free(terms: &[(&A1<Self>, &A2<Self>)]) -> $t {
                halo2curves::$m::multi_miller_loop(terms)
            }
            fn fe(f: &$t) -> Self::Gt {
                f.final_exponentiation()
            }
            fn entries(p: &A1<Self>, q: &A2<Self>) -> Vec<(&'static str, Self::Gt)> {
                type E = halo2curves::$m::$e;
                let prep = <E as MultiMillerLoop>::G2Prepared::from(*q);
                vec![
                    ("Engine::pairing", <E as Engine>::pairing(p, q)),
                    ("G1Affine::pairing_with", p.pairing_with(q)),
                    ("G2Affine::pairing_with", q.pairing_with(p)),
                    ("multi_miller_loop", E::multi_miller_loop(&[(p, &prep)]).final_exponentiation()),
                ]
            }
            fn binary(a: &Self::Gt, b: &Self::Gt) -> [Vec<Self::Gt>; 2] {
                let (a, b) = (*a, *b);
                let mut s = vec![&a + &b, &a + b, a + &b, a + b];
                let mut d = vec![&a - &b, &a - b, a - &b, a - b];
                let mut x = a;
                x += b;
                s.push(x);
                let mut x = a;
                x += &b;
                s.push(x);
                let mut x = a;
                x -= b;
                d.push(x);
                let mut x = a;
                x -= &b;
                d.push(x);
                [s, d]
            }
            fn muls(a: &Self::Gt, k: &Fr<Self>) -> Vec<Self::Gt> {
                let (a, k) = (*a, *k);
                let mut v = vec![&a * &k, &a * k, a * &k, a * k];
                let mut x = a;
                x *= k;
                v.push(x);
                let mut x = a;
                x *= &k;
                v.push(x);
                v
            }
            fn negs(a: &Self::Gt) -> Vec<Self::Gt> {
                vec![-*a, -a]
            }
            fn doubles(a: &Self::Gt) -> Vec<Self::Gt> {
                vec![a.double(), Group::double(a)]
            }
            fn ids() -> Vec<Self::Gt> {
                vec![halo2curves::$m::Gt::identity(), <Self::Gt as Group>::identity()]
            }
            fn sums(v: &[Self::Gt]) -> Vec<Self::Gt> {
                vec![v.iter().sum(), v.iter().copied().sum()]
            }
        }
    };
}
pe!(Bn, bn256, Bn256, halo2curves::bn256::Fq12, "bn256");
pe!(Bls, bls12381, Bls12381, halo2curves::bls12381::Fq12, "bls12381");
pe!(Plu, pluto_eris, Pluto, PlutoFp12, "pluto");

pub trait PairFn {
    fn call<E: PE>(&self);
}
pub fn each_engine(f: &impl PairFn) {
    f.call::<Bn>();
    f.call::<Bls>();
    f.call::<Plu>();
}
pub fn one<T: H12>() -> T {
    <T as Field>::ONE
}
/// square and multiply on the tower's own product
pub fn power<T: H12>(a: &T, e: &BigUint) -> T {
    let mut x = one::<T>();
    for i in (0..e.bits()).rev() {
        x = x * x;
        if e.bit(i) {
            x *= a;
        }
    }
    x
}
/// Powers of one element, from a table.
pub struct Powers<T> {
    t: Vec<T>,
    n: BigUint,
}
impl<T: H12> Powers<T> {
    pub fn new(g: T, n: &BigUint) -> Self {
        let mut t = vec![g];
        for _ in 0..n.bits() {
            let x = *t.last().unwrap();
            t.push(x * x);
        }
        Powers { t, n: n.clone() }
    }
    pub fn at(&self, k: &BigUint) -> T {
        let k = k % &self.n;
        let mut x = one::<T>();
        for i in 0..k.bits() {
            if k.bit(i) {
                x *= self.t[i as usize];
            }
        }
        x
    }
}
/// scalars at which things change: around 0, r, r/2, powers of two, and the curve parameter
pub fn telling_scalars(r: &BigUint, step: usize) -> Vec<BigUint> {
    let b1 = BigUint::one();
    let mut v: Vec<BigUint> = vec![];
    for i in 0..4u32 {
        v.push(i.into());
        v.push(r - 1u32 - i);
        v.push((r >> 1) + i);
        v.push((r >> 1) - i);
    }
    for i in (2..r.bits() as usize).step_by(step) {
        v.push(&b1 << i);
        v.push((&b1 << i) - 1u32);
        v.push(r - (&b1 << i) % r);
    }
    let mut v: Vec<BigUint> = v.into_iter().map(|x| x % r).collect();
    v.sort();
    v.dedup();
    v
}
