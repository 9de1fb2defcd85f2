//! Stand-in for rand 0.8: every random value is drawn from the simulation's choice source, so a
//! run can also make the random generator repeat itself. Generators with an explicit seed are
//! ordinary deterministic generators.
pub use distributions::Distribution;
pub use rngs::ThreadRng;

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("random generator failure")
    }
}
impl std::error::Error for Error {}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64 {
        (self.next_u32() as u64) << 32 | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let v = self.next_u32().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
impl<R: RngCore + ?Sized> RngCore for Box<R> {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
pub trait CryptoRng {}
impl<R: CryptoRng + ?Sized> CryptoRng for &mut R {}

pub trait SeedableRng: Sized {
    type Seed: Sized + Default + AsMut<[u8]>;
    fn from_seed(seed: Self::Seed) -> Self;
    fn seed_from_u64(state: u64) -> Self {
        let mut s = Self::Seed::default();
        for (i, b) in s.as_mut().iter_mut().enumerate() {
            *b = (state >> (8 * (i % 8))) as u8 ^ (i / 8) as u8;
        }
        Self::from_seed(s)
    }
    fn from_rng<R: RngCore>(mut rng: R) -> Result<Self, Error> {
        let mut s = Self::Seed::default();
        rng.fill_bytes(s.as_mut());
        Ok(Self::from_seed(s))
    }
    fn from_entropy() -> Self {
        Self::from_rng(rngs::OsRng).unwrap()
    }
}

pub trait Fill {
    fn try_fill<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Result<(), Error>;
}
impl Fill for [u8] {
    fn try_fill<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Result<(), Error> {
        rng.fill_bytes(self);
        Ok(())
    }
}
impl<const N: usize> Fill for [u8; N] {
    fn try_fill<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Result<(), Error> {
        rng.fill_bytes(self);
        Ok(())
    }
}

pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T
    where
        distributions::Standard: Distribution<T>,
    {
        distributions::Standard.sample(self)
    }
    fn gen_range<T, R: distributions::uniform::SampleRange<T>>(&mut self, r: R) -> T {
        r.sample_single(self)
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        (self.next_u32() as f64) < p * u32::MAX as f64
    }
    fn gen_ratio(&mut self, numerator: u32, denominator: u32) -> bool {
        self.next_u32() % denominator < numerator
    }
    fn fill<T: Fill + ?Sized>(&mut self, dest: &mut T) {
        dest.try_fill(self).unwrap()
    }
    fn try_fill<T: Fill + ?Sized>(&mut self, dest: &mut T) -> Result<(), Error> {
        dest.try_fill(self)
    }
    fn sample<T, D: Distribution<T>>(&mut self, d: D) -> T {
        d.sample(self)
    }
    fn sample_iter<T, D: Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T>
    where
        Self: Sized,
    {
        d.sample_iter(self)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod rngs {
    use super::{CryptoRng, RngCore, SeedableRng};
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    impl RngCore for ThreadRng {
        fn next_u32(&mut self) -> u32 {
            simcore::threads::random_u32()
        }
    }
    impl CryptoRng for ThreadRng {}
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            simcore::threads::random_u32()
        }
    }
    impl CryptoRng for OsRng {}
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct StdRng(u64, bool);
    impl RngCore for StdRng {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            if self.1 {
                simcore::threads::count_random();
            }
            self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
    }
    impl CryptoRng for StdRng {}
    impl SeedableRng for StdRng {
        type Seed = [u8; 32];
        fn from_seed(seed: [u8; 32]) -> Self {
            let good = simcore::threads::random_if(&seed);
            let state = seed.chunks(8).fold(0u64, |a, c| {
                a.rotate_left(17).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ u64::from_le_bytes(c.try_into().unwrap())
            });
            StdRng(state, good)
        }
    }
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub fn random<T>() -> T
where
    distributions::Standard: Distribution<T>,
{
    thread_rng().gen()
}

pub mod distributions {
    use super::Rng;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R>(self, rng: R) -> DistIter<Self, R, T>
        where
            R: Rng,
            Self: Sized,
        {
            DistIter { distr: self, rng, phantom: std::marker::PhantomData }
        }
        fn map<F, S>(self, func: F) -> DistMap<Self, F, T, S>
        where
            F: Fn(T) -> S,
            Self: Sized,
        {
            DistMap { distr: self, func, phantom: std::marker::PhantomData }
        }
    }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T {
            (**self).sample(rng)
        }
    }
    #[derive(Debug)]
    pub struct DistIter<D, R, T> {
        distr: D,
        rng: R,
        phantom: std::marker::PhantomData<T>,
    }
    impl<D: Distribution<T>, R: Rng, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.distr.sample(&mut self.rng))
        }
    }
    #[derive(Debug)]
    pub struct DistMap<D, F, T, S> {
        distr: D,
        func: F,
        phantom: std::marker::PhantomData<fn(T) -> S>,
    }
    impl<D: Distribution<T>, F: Fn(T) -> S, T, S> Distribution<S> for DistMap<D, F, T, S> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> S {
            (self.func)(self.distr.sample(rng))
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Standard;
    macro_rules! std_dist {
        ($($t:ty)*) => { $(impl Distribution<$t> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $t { rng.next_u64() as $t }
        })* }
    }
    std_dist!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    impl Distribution<u128> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u128 {
            (rng.next_u64() as u128) << 64 | rng.next_u64() as u128
        }
    }
    impl Distribution<bool> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> bool {
            (rng.next_u32() as i32) < 0
        }
    }
    impl Distribution<f64> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
            (rng.next_u64() >> 11) as f64 / (1u64 << 53) as f64
        }
    }
    impl<T, const N: usize> Distribution<[T; N]> for Standard
    where
        Standard: Distribution<T>,
    {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [T; N] {
            std::array::from_fn(|_| rng.gen())
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Alphanumeric;
    const SET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    impl Distribution<u8> for Alphanumeric {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u8 {
            SET[(rng.next_u32() % 62) as usize]
        }
    }
    pub trait DistString {
        fn append_string<R: Rng + ?Sized>(&self, rng: &mut R, s: &mut String, len: usize);
        fn sample_string<R: Rng + ?Sized>(&self, rng: &mut R, len: usize) -> String {
            let mut s = String::new();
            self.append_string(rng, &mut s, len);
            s
        }
    }
    impl DistString for Alphanumeric {
        fn append_string<R: Rng + ?Sized>(&self, rng: &mut R, s: &mut String, len: usize) {
            for _ in 0..len {
                s.push(Distribution::<u8>::sample(self, rng) as char);
            }
        }
    }
    pub mod uniform {
        use crate::Rng;
        use std::ops::{Range, RangeInclusive};
        pub trait SampleUniform: Sized + Copy {
            fn within<R: Rng + ?Sized>(rng: &mut R, lo: Self, hi: Self, inclusive: bool) -> Self;
        }
        macro_rules! uni {
            ($($t:ty)*) => { $(impl SampleUniform for $t {
                fn within<R: Rng + ?Sized>(rng: &mut R, lo: $t, hi: $t, inclusive: bool) -> $t {
                    let n = (hi as i128 - lo as i128) + inclusive as i128;
                    assert!(n > 0, "cannot sample empty range");
                    // As many draws as the width needs.
                    let v = if n <= 1 << 32 { rng.next_u32() as i128 } else { rng.next_u64() as i128 };
                    (lo as i128 + v % n) as $t
                }
            })* }
        }
        uni!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
        pub trait SampleRange<T> {
            fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T;
            fn is_empty(&self) -> bool;
        }
        impl<T: SampleUniform + PartialOrd> SampleRange<T> for Range<T> {
            fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T {
                T::within(rng, self.start, self.end, false)
            }
            fn is_empty(&self) -> bool {
                !(self.start < self.end)
            }
        }
        impl<T: SampleUniform + PartialOrd> SampleRange<T> for RangeInclusive<T> {
            fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T {
                T::within(rng, *self.start(), *self.end(), true)
            }
            fn is_empty(&self) -> bool {
                !(self.start() <= self.end())
            }
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<X> {
        lo: X,
        hi: X,
        inclusive: bool,
    }
    impl<X: uniform::SampleUniform> Uniform<X> {
        pub fn new(lo: X, hi: X) -> Self {
            Uniform { lo, hi, inclusive: false }
        }
        pub fn new_inclusive(lo: X, hi: X) -> Self {
            Uniform { lo, hi, inclusive: true }
        }
    }
    impl<X: uniform::SampleUniform> From<std::ops::Range<X>> for Uniform<X> {
        fn from(r: std::ops::Range<X>) -> Self {
            Uniform::new(r.start, r.end)
        }
    }
    impl<X: uniform::SampleUniform> From<std::ops::RangeInclusive<X>> for Uniform<X> {
        fn from(r: std::ops::RangeInclusive<X>) -> Self {
            Uniform::new_inclusive(*r.start(), *r.end())
        }
    }
    impl<X: uniform::SampleUniform> Distribution<X> for Uniform<X> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> X {
            X::within(rng, self.lo, self.hi, self.inclusive)
        }
    }
}

pub mod seq {
    use super::Rng;
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&T> {
            if self.is_empty() {
                return None;
            }
            self.get(rng.next_u32() as usize % self.len())
        }
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut T> {
            if self.is_empty() {
                return None;
            }
            let i = rng.next_u32() as usize % self.len();
            self.get_mut(i)
        }
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R) {
            for i in (1..self.len()).rev() {
                let k = rng.next_u32() as usize % (i + 1);
                self.swap(i, k);
            }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng + ?Sized>(self, rng: &mut R) -> Option<Self::Item> {
            let mut v: Vec<_> = self.collect();
            if v.is_empty() {
                return None;
            }
            let i = rng.next_u32() as usize % v.len();
            Some(v.swap_remove(i))
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}

pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::{StdRng, ThreadRng};
    pub use crate::seq::{IteratorRandom, SliceRandom};
    pub use crate::{random, thread_rng, CryptoRng, Rng, RngCore, SeedableRng};
}
