//! stand-in: joining displayed items
pub trait Itertools: Iterator {
    fn join(&mut self, sep: &str) -> String where Self::Item: std::fmt::Display {
        let mut out = String::new();
        while let Some(x) = self.next() { if !out.is_empty() { out.push_str(sep) } out.push_str(&x.to_string()) }
        out
    }
    fn collect_vec(self) -> Vec<Self::Item> where Self: Sized { self.collect() }
    fn sorted(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Ord { let mut v: Vec<_> = self.collect(); v.sort(); v.into_iter() }
    fn unique(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: PartialEq { let mut v = vec![]; for x in self { if !v.contains(&x) { v.push(x) } } v.into_iter() }
}
impl<I: Iterator> Itertools for I {}
