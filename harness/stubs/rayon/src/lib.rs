//! Stand-in: parallel iterators that run one item after the other.
pub mod iter {
    pub use crate::prelude::*;
}
pub mod slice {
    pub use crate::prelude::*;
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let ra = a();
    let rb = b();
    (ra, rb)
}
pub fn current_num_threads() -> usize {
    1
}
pub mod prelude {
    use std::cmp::Ordering;
    pub trait IntoParallelRefIterator<'a> {
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoIterator,
    {
        type Iter = <&'a C as IntoIterator>::IntoIter;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoIterator,
    {
        type Iter = <&'a mut C as IntoIterator>::IntoIter;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            self.into_iter()
        }
    }
    pub trait IntoParallelIterator: IntoIterator + Sized {
        fn into_par_iter(self) -> Self::IntoIter {
            self.into_iter()
        }
    }
    impl<I: IntoIterator> IntoParallelIterator for I {}
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Self {
            self
        }
    }
    impl<I: Iterator> ParallelBridge for I {}
    /// What parallel iterators have and ordinary ones lack.
    pub trait ParallelIterator: Iterator + Sized {
        fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(self, f: F) -> std::iter::FlatMap<Self, U, F> {
            self.flat_map(f)
        }
        fn find_any<F: FnMut(&Self::Item) -> bool>(mut self, f: F) -> Option<Self::Item> {
            self.find(f)
        }
        fn find_first<F: FnMut(&Self::Item) -> bool>(mut self, f: F) -> Option<Self::Item> {
            self.find(f)
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
    }
    impl<I: Iterator> ParallelIterator for I {}
    pub trait IndexedParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for I {}
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T>;
        fn par_windows(&self, n: usize) -> std::slice::Windows<'_, T>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T> {
            self.chunks(n)
        }
        fn par_windows(&self, n: usize) -> std::slice::Windows<'_, T> {
            self.windows(n)
        }
    }
    pub trait ParallelSliceMut<T> {
        fn par_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F);
        fn par_sort_unstable_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F);
        fn par_sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F);
        fn par_sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F);
        fn par_sort_by_cached_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F);
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T>;
        fn par_sort(&mut self)
        where
            T: Ord;
        fn par_sort_unstable(&mut self)
        where
            T: Ord;
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn par_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) {
            self.sort_by(f)
        }
        fn par_sort_unstable_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) {
            self.sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
            self.sort_by_key(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
            self.sort_by_key(f)
        }
        fn par_sort_by_cached_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
            self.sort_by_cached_key(f)
        }
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T> {
            self.chunks_mut(n)
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.sort()
        }
    }
}
