//! Stand-in for `rayon` (not in the offline cache): the same iterators, one item after another.
pub mod prelude {
    pub trait IntoParallelIterator: IntoIterator + Sized { fn into_par_iter(self) -> Self::IntoIter { self.into_iter() } }
    impl<T: IntoIterator> IntoParallelIterator for T {}
    pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Iter = <&'a T as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Self::Iter { self.into_iter() } }
}
pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) { (a(), b()) }
