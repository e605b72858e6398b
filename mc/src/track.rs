//! Growable storage of our own: knows which handle it was made with, and can panic on request.

use crate::alloc::exempt;
use crate::engine::Injected;
use crate::items::Home;
use narrow::buffer::Buffer;
use narrow::collection::view::AsView;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::length::Length;
use std::borrow::{Borrow, BorrowMut};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::rc::Rc;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static PANIC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static AFTER: Cell<bool> = const { Cell::new(false) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` with the `at`-th storage operation panicking, before or after it took effect.
pub fn panicking<T>(at: Option<u64>, after: bool, f: impl FnOnce() -> T) -> (T, u64) {
    OPS.set(0);
    PANIC_AT.set(at.unwrap_or(u64::MAX));
    AFTER.set(after);
    let r = f();
    PANIC_AT.set(u64::MAX);
    (r, OPS.get())
}
/// Runs `f` with the `at`-th fallible storage operation refusing.
pub fn refusing<T>(at: Option<u64>, f: impl FnOnce() -> T) -> (T, u64, u64) {
    OPS.set(0);
    FAILED.set(0);
    FAIL_AT.set(at.unwrap_or(u64::MAX));
    let r = f();
    FAIL_AT.set(u64::MAX);
    (r, OPS.get(), FAILED.get())
}

/// One storage operation: panics if it is its turn.
fn op<T>(f: impl FnOnce() -> T) -> T {
    let k = OPS.get();
    OPS.set(k + 1);
    if k == PANIC_AT.get() {
        PANIC_AT.set(u64::MAX);
        if AFTER.get() {
            f();
        }
        std::panic::panic_any(Injected);
    }
    f()
}
fn refuse() -> bool {
    let r = OPS.get() == FAIL_AT.get();
    if r {
        FAILED.set(FAILED.get() + 1);
        OPS.set(OPS.get() + 1);
    }
    r
}

thread_local! {
    static OWN: Cell<bool> = const { Cell::new(false) };
    static DEFAULTS: Cell<u64> = const { Cell::new(0) };
    static CURRENT: RefCell<Option<Token>> = const { RefCell::new(None) };
}
/// Runs `f` with the memory of all storage of this kind left out of every count of allocations.
pub fn owning<T>(f: impl FnOnce() -> T) -> T {
    OWN.set(true);
    let r = f();
    OWN.set(false);
    r
}
fn mem<T>(f: impl FnOnce() -> T) -> T {
    if OWN.get() { exempt(f) } else { f() }
}
/// How many handles were conjured up (`Default`) so far.
pub fn defaults() -> u64 {
    DEFAULTS.get()
}
/// The handle of storage made from given contents from here on.
pub fn set_current(t: Option<Token>) {
    CURRENT.with(|c| *c.borrow_mut() = t);
}

/// A vector that remembers its allocator handle.
pub struct TrackVec<T, H> {
    v: Vec<T>,
    h: H,
}
impl<T: Debug, H> Debug for TrackVec<T, H> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.v.fmt(f)
    }
}
impl<T, H> TrackVec<T, H> {
    pub fn handle(&self) -> &H {
        &self.h
    }
    pub fn of(v: Vec<T>, h: H) -> Self {
        TrackVec { v, h }
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
}
impl<T, H: Handle + Default> Default for TrackVec<T, H> {
    fn default() -> Self {
        TrackVec { v: vec![], h: H::default() }
    }
}
impl<T, H: Handle + Default> FromIterator<T> for TrackVec<T, H> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        TrackVec { v: op(|| i.into_iter().collect()), h: H::default() }
    }
}
impl<T, H> Borrow<[T]> for TrackVec<T, H> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T, H> BorrowMut<[T]> for TrackVec<T, H> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T, H> Length for TrackVec<T, H> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T: for<'any> AsView<'any>, H> Collection for TrackVec<T, H> {
    type View<'a>
        = <Vec<T> as Collection>::View<'a>
    where
        Self: 'a;
    type Owned = T;
    fn view(&self, index: usize) -> Option<Self::View<'_>> {
        Collection::view(&self.v, index)
    }
    type Iter<'a>
        = <Vec<T> as Collection>::Iter<'a>
    where
        Self: 'a;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter_views()
    }
    type IntoIter = <Vec<T> as Collection>::IntoIter;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter_owned()
    }
}
impl<T: for<'any> AsView<'any>, H> Extend<T> for TrackVec<T, H> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        op(|| {
            if OWN.get() {
                for x in i {
                    exempt(|| self.v.push(x));
                }
            } else {
                self.v.extend(i);
            }
        });
    }
}
impl<T: for<'any> AsView<'any>, H: Handle> CollectionAllocIn for TrackVec<T, H> {
    type Alloc = H;
    fn with_capacity_in(n: usize, h: H) -> Self {
        h.used(std::mem::size_of::<T>());
        TrackVec { v: op(|| mem(|| Vec::with_capacity(n))), h }
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(i: I, h: H) -> Self {
        h.used(std::mem::size_of::<T>());
        if OWN.get() {
            let mut r = TrackVec { v: vec![], h };
            r.extend(i);
            return r;
        }
        TrackVec { v: op(|| i.into_iter().collect()), h }
    }
    fn try_with_capacity_in(n: usize, h: H) -> Result<Self, AllocError> {
        h.used(std::mem::size_of::<T>());
        if refuse() {
            return Err(AllocError);
        }
        let v = op(|| mem(|| Vec::try_with_capacity_in(n, ())))?;
        Ok(TrackVec { v, h })
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(i: I, h: H) -> Result<Self, AllocError> {
        h.used(std::mem::size_of::<T>());
        if refuse() {
            return Err(AllocError);
        }
        if OWN.get() {
            let mut r = TrackVec { v: vec![], h };
            r.extend(i);
            return Ok(r);
        }
        let v = op(|| Vec::try_from_iter_in(i, ()))?;
        Ok(TrackVec { v, h })
    }
}
impl<T: for<'any> AsView<'any>, H: Handle> CollectionRealloc for TrackVec<T, H> {
    fn allocator(&self) -> H {
        self.h.clone()
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        if refuse() {
            return Err(AllocError);
        }
        // exactly: no slack hides a reservation that is too small
        op(|| mem(|| self.v.try_reserve_exact(n).map_err(|_| AllocError)))
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, i: I) -> Result<(), AllocError> {
        if refuse() {
            return Err(AllocError);
        }
        if OWN.get() {
            self.extend(i);
            return Ok(());
        }
        op(|| CollectionRealloc::try_extend(&mut self.v, i))
    }
    fn reserve(&mut self, n: usize) {
        op(|| mem(|| self.v.reserve_exact(n)));
    }
    fn truncate(&mut self, n: usize) {
        self.v.truncate(n);
    }
}

/// Allocator handles.
pub trait Handle: Clone + Debug + 'static {
    /// A buffer of items of this size is made with this handle.
    fn used(&self, size: usize);
}
impl Handle for () {
    fn used(&self, _: usize) {}
}

/// A handle that knows who it is; one that is conjured up (`Default`) is nobody's and counted.
#[derive(Clone)]
pub struct Token(Rc<TokenInner>);
pub struct TokenInner {
    pub id: u32,
    pub made: RefCell<Vec<usize>>,
}
impl Token {
    pub fn new(id: u32) -> Self {
        Token(Rc::new(TokenInner { id, made: RefCell::new(vec![]) }))
    }
    pub fn id(&self) -> u32 {
        self.0.id
    }
    pub fn same(&self, o: &Token) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
    /// How many buffers were made with this handle.
    pub fn made(&self) -> usize {
        self.0.made.borrow().len()
    }
    /// How many clones of this handle exist.
    pub fn clones(&self) -> usize {
        Rc::strong_count(&self.0)
    }
}
impl Default for Token {
    fn default() -> Self {
        DEFAULTS.set(DEFAULTS.get() + 1);
        exempt(|| Token::new(u32::MAX))
    }
}
impl Debug for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "handle {}", self.0.id)
    }
}
impl Handle for Token {
    fn used(&self, size: usize) {
        exempt(|| self.0.made.borrow_mut().push(size));
    }
}

/// Storage that panics on request.
#[derive(Default, Debug, Clone, Copy)]
pub struct PanicBuffer;
impl Buffer for PanicBuffer {
    type For<T: FixedSize> = TrackVec<T, ()>;
}
impl Home for PanicBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<TrackVec<T, ()>> {
        Some(TrackVec { v, h: () })
    }
}
/// Storage that knows its handle.
#[derive(Default, Debug, Clone, Copy)]
pub struct TrackBuffer;
impl Home for TrackBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<TrackVec<T, Token>> {
        let h = CURRENT.with(|c| c.borrow().clone()).expect("engine: no current handle");
        Some(TrackVec { v, h })
    }
}
impl Buffer for TrackBuffer {
    type For<T: FixedSize> = TrackVec<T, Token>;
}
