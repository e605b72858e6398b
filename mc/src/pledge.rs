//! Storage that keeps a promise of room instead of memory, so that reservations of any size can be granted.

use crate::items::Home;
use narrow::buffer::Buffer;
use narrow::collection::view::AsView;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::length::Length;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::fmt::Debug;

thread_local! {
    static GROWN: Cell<u64> = const { Cell::new(0) };
}
/// How often storage had to grow beyond what was promised while `f` ran.
pub fn grown<T>(f: impl FnOnce() -> T) -> (T, u64) {
    GROWN.set(0);
    let r = f();
    (r, GROWN.get())
}

#[derive(Default)]
pub struct PledgeVec<T> {
    v: Vec<T>,
    room: u128,
}
impl<T> PledgeVec<T> {
    /// How many items fit before the storage has to grow.
    pub fn room(&self) -> u128 {
        self.room
    }
    fn pledge(&mut self, additional: usize) {
        self.room = self.room.max(self.v.len() as u128 + additional as u128);
    }
    fn put(&mut self, i: impl IntoIterator<Item = T>) {
        for x in i {
            self.v.push(x);
            if self.v.len() as u128 > self.room {
                GROWN.set(GROWN.get() + 1);
                self.room = self.v.len() as u128;
            }
        }
    }
    fn of(v: Vec<T>) -> Self {
        let room = v.len() as u128;
        PledgeVec { v, room }
    }
}
impl<T: Debug> Debug for PledgeVec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.v.fmt(f)
    }
}
impl<T> FromIterator<T> for PledgeVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self::of(i.into_iter().collect())
    }
}
impl<T> Borrow<[T]> for PledgeVec<T> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T> BorrowMut<[T]> for PledgeVec<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T> Length for PledgeVec<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T: for<'any> AsView<'any>> Collection for PledgeVec<T> {
    type View<'a>
        = <Vec<T> as Collection>::View<'a>
    where
        Self: 'a;
    type Owned = T;
    fn view(&self, index: usize) -> Option<Self::View<'_>> {
        Collection::view(&self.v, index)
    }
    type Iter<'a>
        = <Vec<T> as Collection>::Iter<'a>
    where
        Self: 'a;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter_views()
    }
    type IntoIter = <Vec<T> as Collection>::IntoIter;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter_owned()
    }
}
impl<T: for<'any> AsView<'any>> Extend<T> for PledgeVec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.put(i);
    }
}
impl<T: for<'any> AsView<'any>> CollectionAllocIn for PledgeVec<T> {
    type Alloc = ();
    fn with_capacity_in(n: usize, (): ()) -> Self {
        PledgeVec { v: vec![], room: n as u128 }
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(i: I, (): ()) -> Self {
        i.into_iter().collect()
    }
    fn try_with_capacity_in(n: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Self::with_capacity_in(n, ()))
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(i: I, (): ()) -> Result<Self, AllocError> {
        Ok(i.into_iter().collect())
    }
}
impl<T: for<'any> AsView<'any>> CollectionRealloc for PledgeVec<T> {
    fn allocator(&self) {}
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.pledge(n);
        Ok(())
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, i: I) -> Result<(), AllocError> {
        self.put(i);
        Ok(())
    }
    fn reserve(&mut self, n: usize) {
        self.pledge(n);
    }
    fn truncate(&mut self, n: usize) {
        self.v.truncate(n);
    }
}

/// Storage that promises room without having it.
#[derive(Default, Debug, Clone, Copy)]
pub struct PledgeBuffer;
impl Buffer for PledgeBuffer {
    type For<T: FixedSize> = PledgeVec<T>;
}
impl Home for PledgeBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<PledgeVec<T>> {
        Some(PledgeVec::of(v))
    }
}
