//! Stand-in for the `bounded-static` crate (not available offline).
use std::borrow::Cow;
use std::collections::VecDeque;
pub use bounded_static_derive::ToStatic;

pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}
pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}
macro_rules! copy_impl { ($($t:ty),* $(,)?) => { $(
    impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { self.clone() } }
    impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
)* } }
copy_impl!(
    (), bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, String,
    std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64
);
impl<'a, T: ?Sized + ToOwned + 'static> ToBoundedStatic for Cow<'a, T> where T::Owned: 'static {
    type Static = Cow<'static, T>;
    fn to_static(&self) -> Self::Static { Cow::Owned(match self { Cow::Borrowed(b) => (*b).to_owned(), Cow::Owned(o) => { let b: &T = std::borrow::Borrow::borrow(o); b.to_owned() } }) }
}
impl<'a, T: ?Sized + ToOwned + 'static> IntoBoundedStatic for Cow<'a, T> where T::Owned: 'static {
    type Static = Cow<'static, T>;
    fn into_static(self) -> Self::Static { Cow::Owned(self.into_owned()) }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> { type Static = Option<T::Static>; fn to_static(&self) -> Self::Static { self.as_ref().map(|x| x.to_static()) } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> { type Static = Option<T::Static>; fn into_static(self) -> Self::Static { self.map(|x| x.into_static()) } }
impl<T: ToBoundedStatic> ToBoundedStatic for Vec<T> { type Static = Vec<T::Static>; fn to_static(&self) -> Self::Static { self.iter().map(|x| x.to_static()).collect() } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec<T> { type Static = Vec<T::Static>; fn into_static(self) -> Self::Static { self.into_iter().map(|x| x.into_static()).collect() } }
impl<T: ToBoundedStatic> ToBoundedStatic for VecDeque<T> { type Static = VecDeque<T::Static>; fn to_static(&self) -> Self::Static { self.iter().map(|x| x.to_static()).collect() } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for VecDeque<T> { type Static = VecDeque<T::Static>; fn into_static(self) -> Self::Static { self.into_iter().map(|x| x.into_static()).collect() } }
impl<T: ToBoundedStatic> ToBoundedStatic for Box<T> { type Static = Box<T::Static>; fn to_static(&self) -> Self::Static { Box::new((**self).to_static()) } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Box<T> { type Static = Box<T::Static>; fn into_static(self) -> Self::Static { Box::new((*self).into_static()) } }
impl<A: ToBoundedStatic, B: ToBoundedStatic> ToBoundedStatic for (A, B) { type Static = (A::Static, B::Static); fn to_static(&self) -> Self::Static { (self.0.to_static(), self.1.to_static()) } }
impl<A: IntoBoundedStatic, B: IntoBoundedStatic> IntoBoundedStatic for (A, B) { type Static = (A::Static, B::Static); fn into_static(self) -> Self::Static { (self.0.into_static(), self.1.into_static()) } }
impl<A: ToBoundedStatic, E: ToBoundedStatic> ToBoundedStatic for Result<A, E> { type Static = Result<A::Static, E::Static>; fn to_static(&self) -> Self::Static { match self { Ok(a) => Ok(a.to_static()), Err(e) => Err(e.to_static()) } } }
impl<A: IntoBoundedStatic, E: IntoBoundedStatic> IntoBoundedStatic for Result<A, E> { type Static = Result<A::Static, E::Static>; fn into_static(self) -> Self::Static { match self { Ok(a) => Ok(a.into_static()), Err(e) => Err(e.into_static()) } } }
impl<'a> ToBoundedStatic for &'a str { type Static = String; fn to_static(&self) -> String { self.to_string() } }
