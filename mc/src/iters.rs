//! Row sources: truthful but varied size hints, panics, life after the end.

use crate::engine::Injected;
use std::cell::Cell;

/// How a source reports how much is left. All are truthful.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hint {
    Exact,
    /// (0, None)
    Unknown,
    /// (0, Some(left))
    Upper,
    /// (left, None)
    Lower,
    /// (0, Some(usize::MAX))
    Enormous,
    /// (left / 2, Some(left * 1000 + 77))
    Loose,
    /// Enormous, but different at every call.
    Wobbly,
    /// (left, Some(isize::MAX))
    Halfway,
}
pub const HINTS: &[Hint] = &[
    Hint::Exact,
    Hint::Unknown,
    Hint::Upper,
    Hint::Lower,
    Hint::Enormous,
    Hint::Loose,
    Hint::Wobbly,
    Hint::Halfway,
];
impl Hint {
    pub fn of(self, left: usize, call: usize) -> (usize, Option<usize>) {
        match self {
            Hint::Exact => (left, Some(left)),
            Hint::Unknown => (0, None),
            Hint::Upper => (0, Some(left)),
            Hint::Lower => (left, None),
            Hint::Enormous => (0, Some(usize::MAX)),
            Hint::Loose => (left / 2, Some(left.saturating_mul(1000) + 77)),
            Hint::Wobbly => match call % 3 {
                0 => (0, Some(usize::MAX - call)),
                1 => (left.min(1), None),
                _ => (left, Some(left + (1 << 40))),
            },
            Hint::Halfway => (left, Some(isize::MAX as usize)),
        }
    }
}

/// A source of rows.
pub struct Source<T> {
    rows: std::vec::IntoIter<T>,
    /// What it would yield if asked again after its end.
    again: std::vec::IntoIter<T>,
    hint: Hint,
    ended: bool,
    calls: usize,
    hints: Cell<usize>,
    panic_at: Option<usize>,
    panic_hint_at: Option<usize>,
    panic_on_drop: bool,
}
impl<T> Drop for Source<T> {
    fn drop(&mut self) {
        if self.panic_on_drop && !std::thread::panicking() {
            std::panic::panic_any(Injected);
        }
    }
}
/// Rows whose source cannot even be made.
pub struct Unstartable<T>(pub std::marker::PhantomData<T>);
impl<T> IntoIterator for Unstartable<T> {
    type Item = T;
    type IntoIter = Source<T>;
    fn into_iter(self) -> Source<T> {
        std::panic::panic_any(Injected)
    }
}
impl<T> Source<T> {
    pub fn new(rows: Vec<T>, hint: Hint) -> Self {
        Source {
            rows: rows.into_iter(),
            again: vec![].into_iter(),
            hint,
            ended: false,
            calls: 0,
            hints: Cell::new(0),
            panic_at: None,
            panic_hint_at: None,
            panic_on_drop: false,
        }
    }
    /// Rows yielded when asked again after the end.
    pub fn again(mut self, rows: Vec<T>) -> Self {
        self.again = rows.into_iter();
        self
    }
    /// Panics instead of yielding row `k` (or instead of the end).
    pub fn panic_at(mut self, k: usize) -> Self {
        self.panic_at = Some(k);
        self
    }
    /// Panics at the `k`-th question for its size.
    pub fn panic_hint_at(mut self, k: usize) -> Self {
        self.panic_hint_at = Some(k);
        self
    }
    /// Panics when dropped, if nothing else panics then.
    pub fn panic_on_drop(mut self) -> Self {
        self.panic_on_drop = true;
        self
    }
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return self.again.next();
        }
        if self.panic_at == Some(self.calls) {
            std::panic::panic_any(Injected);
        }
        self.calls += 1;
        let r = self.rows.next();
        self.ended = r.is_none();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.hints.get();
        self.hints.set(n + 1);
        if self.panic_hint_at == Some(n) {
            std::panic::panic_any(Injected);
        }
        if self.ended {
            // Nothing truthful can be said about a source that resumes; it claims its end.
            return (0, None);
        }
        self.hint.of(self.rows.len(), n)
    }
}
