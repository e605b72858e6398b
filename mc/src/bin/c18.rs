//! C18: all storage of an array comes from the allocator handle it was given.
use mc::alloc::counted;
use mc::engine::*;
use mc::hist::{far_cuts, Cut, Op, batches, dirts, show, start_rows};
use mc::items::*;
use mc::track::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::ValidityBitmap;
use narrow::buffer::BufferRef;
use narrow::collection::{ChildRef, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use std::fmt::Debug;

/// The handles of every buffer.
#[derive(Default)]
struct Handles(Vec<(Role, Token)>);
impl Visit<TrackBuffer> for Handles {
    fn buffer<T: FixedSize>(&mut self, b: &TrackVec<T, Token>, role: Role) {
        self.0.push((role, b.handle().clone()));
    }
}
/// A column whose buffers can be looked at.
trait Held<T: Item>: CollectionAllocIn<Owned = T, Alloc = Token> + CollectionRealloc + Extend<T> + Debug {
    fn handles(&self) -> Handles;
    fn contents(&self) -> Phys;
    fn raw(p: &Phys) -> Option<Result<Self, String>>;
}
impl<T: Item> Held<T> for Array<T, TrackBuffer>
where
    Self: CollectionRealloc<Owned = T, Alloc = Token> + Debug,
{
    fn handles(&self) -> Handles {
        let mut h = Handles::default();
        T::visit::<TrackBuffer, _>(self.buffer_ref(), &mut h);
        h
    }
    fn contents(&self) -> Phys {
        phys(self)
    }
    fn raw(p: &Phys) -> Option<Result<Self, String>> {
        Some(from_phys(p))
    }
}
impl<T: Item> Held<Vec<T>> for VariableSizeList<T, NonNullable, i64, TrackBuffer>
where
    Self: CollectionRealloc<Owned = Vec<T>, Alloc = Token> + Debug,
{
    fn handles(&self) -> Handles {
        let mut h = Handles::default();
        visit_offsets::<T, i64, TrackBuffer, _>(self.buffer_ref(), &mut h);
        h
    }
    fn contents(&self) -> Phys {
        Phys { validity: None, body: offsets_body::<T, i64, TrackBuffer>(self.buffer_ref()) }
    }
    fn raw(_: &Phys) -> Option<Result<Self, String>> {
        None
    }
}
impl<T: Item> Held<Option<Vec<T>>> for VariableSizeList<T, Nullable, i64, TrackBuffer>
where
    Self: CollectionRealloc<Owned = Option<Vec<T>>, Alloc = Token> + Debug,
{
    fn handles(&self) -> Handles {
        let mut h = Handles::default();
        let v = self.buffer_ref();
        if let Some(b) = v.bitmap_ref() {
            h.buffer::<u8>(b.buffer_ref(), Role::Validity);
        }
        visit_offsets::<T, i64, TrackBuffer, _>(v.child_ref(), &mut h);
        h
    }
    fn contents(&self) -> Phys {
        let v = self.buffer_ref();
        Phys { validity: Some(v.bitmap_ref().map(bits_of)), body: offsets_body::<T, i64, TrackBuffer>(v.child_ref()) }
    }
    fn raw(_: &Phys) -> Option<Result<Self, String>> {
        None
    }
}

/// Every buffer there is uses the handle, and so does the array.
fn check<T: Item, C: Held<T>>(c: &C, h: &Token, before: u64) -> R {
    for (i, (role, x)) in c.handles().0.iter().enumerate() {
        ensure!(x.same(h), "buffer {i} ({role:?}) was made with {x:?}, not with the array's {h:?}");
    }
    let a = no_panic("allocator", || c.allocator())?;
    ensure!(a.same(h), "the array reports {a:?}, not {h:?}");
    ensure!(defaults() == before, "a default handle was made");
    Ok(())
}
fn contents<T: Item, C: Held<T>>(c: &C, model: &[Val]) -> R {
    match no_panic("raw parts", || c.contents())?.decode(&T::ty(), true) {
        Ok(r) => ensure!(r == model, "holds {r:?}, expected {model:?}"),
        Err(e) => fail!("raw parts: {e}"),
    }
    Ok(())
}
/// Runs an operation; memory other than the storage's must not be asked for.
fn measured<X>(what: &str, f: impl FnOnce() -> X) -> R<X> {
    let (r, n) = counted(None, false, || owning(|| no_panic(what, f)));
    let r = r?;
    ensure!(n.allocations == 0, "{what} allocated {} bytes outside of its storage", n.bytes);
    Ok(r)
}

#[derive(Clone, Debug)]
enum Make<T> {
    Cap(usize),
    TryCap(usize),
    Iter(Vec<T>),
    TryIter(Vec<T>),
    Raw(Vec<Val>, Phys),
}

fn makes<T: Item>(tier: Tier) -> Vec<Make<T>> {
    let ty = T::ty();
    let mut v = vec![];
    for n in [0, 1, 9] {
        v.push(Make::Cap(n));
        v.push(Make::TryCap(n));
    }
    for rows in start_rows::<T>(tier) {
        let it: Vec<T> = items(&rows);
        v.push(Make::Iter(it.clone()));
        v.push(Make::TryIter(it));
        let mut seen = vec![];
        for d in dirts() {
            let p = Phys::encode(&ty, &rows, &d);
            if !seen.contains(&p) {
                seen.push(p.clone());
                v.push(Make::Raw(rows.clone(), p));
            }
        }
    }
    v
}

/// Many rows, and rows that are long lists.
fn big_rows(ty: &Ty, tier: Tier) -> Vec<Vec<Val>> {
    let lens: &[usize] = if is_wide(ty) { &[40] } else { tier.pick(&[1025, 2049], &[65, 1023, 1024, 1025, 2049, 3000]) };
    let mut v: Vec<Vec<Val>> = lens.iter().map(|n| (0..*n).map(|k| sample_val(ty, k)).collect()).collect();
    v.extend(long_lists(ty, Tier::Quick).into_iter().filter(|_| !is_wide(ty)));
    v
}

fn history<T: Item, C: Held<T>>(tier: Tier, depth: usize, size: usize) -> impl Fn(&mut Ctx) -> R
where
    T: Send + Sync,
{
    let big = size > 0;
    let big_rows = |ty: &Ty, tier: Tier| -> Vec<Vec<Val>> {
        if size < 2 {
            return big_rows(ty, tier);
        }
        let lens: &[usize] = tier.pick(&[65_537], &[4097, 65_536, 65_537]);
        lens.iter().map(|n| (0..*n).map(|k| sample_val(ty, k)).collect()).collect()
    };
    let makes = if big {
        let mut v = vec![Make::Cap(0), Make::TryCap(2), Make::Cap(if size > 1 { 66_000 } else { 1030 })];
        let implicit = Dirt { implicit: true, ..dirts()[1] };
        for rows in big_rows(&T::ty(), tier) {
            v.push(Make::Iter(items(&rows)));
            v.push(Make::TryIter(items(&rows)));
            for d in [dirts()[4], implicit] {
                v.push(Make::Raw(rows.clone(), Phys::encode(&T::ty(), &rows, &d)));
            }
        }
        v
    } else {
        makes::<T>(tier)
    };
    let mut ops: Vec<Op<T>> = vec![];
    let all = if big { big_rows(&T::ty(), tier).iter().map(|r| items(r)).collect() } else { batches::<T>(tier) };
    for b in all {
        ops.push(Op::Extend(b.clone()));
        ops.push(Op::TryExtend(b));
    }
    ops.extend([
        Op::Truncate(Cut::Off(1)),
        Op::Truncate(Cut::At(0)),
        Op::Truncate(Cut::At(1)),
        Op::Reserve(5),
        Op::TryReserve(5),
        Op::Reserve(0),
        Op::Reserve(1030),
    ]);
    move |cx| {
        let h = Token::new(1);
        let other = Token::new(2);
        let before = defaults();
        let make = cx.pick(&makes).clone();
        let named = |m: &Make<T>| match m {
            Make::Iter(r) | Make::TryIter(r) if big => format!("{} rows", r.len()),
            Make::Raw(r, _) if big => format!("raw parts of {} rows", r.len()),
            m => format!("{m:?}"),
        };
        let shown = |o: &Op<T>| match o {
            Op::Extend(b) if big => format!("extend by {} rows", b.len()),
            Op::TryExtend(b) if big => format!("try_extend by {} rows", b.len()),
            o => show(o),
        };
        cx.note(|| named(&make));
        let mut path = vec![named(&make)];
        // Another array with another handle is around, and built in between.
        let bystander: C = C::with_capacity_in(3, other.clone());
        let mut model: Vec<Val> = vec![];
        let given = h.clone();
        let mut c: C = match make {
            Make::Cap(n) => measured("with_capacity_in", || C::with_capacity_in(n, given))?,
            Make::TryCap(n) => match measured("try_with_capacity_in", || C::try_with_capacity_in(n, given))? {
                Ok(c) => c,
                Err(e) => fail!("{e}"),
            },
            Make::Iter(r) => {
                model = vals(&r);
                measured("from_iter_in", || C::from_iter_in(r, given))?
            }
            Make::TryIter(r) => {
                model = vals(&r);
                match measured("try_from_iter_in", || C::try_from_iter_in(r, given))? {
                    Ok(c) => c,
                    Err(e) => fail!("{e}"),
                }
            }
            Make::Raw(rows, p) => {
                model = rows;
                set_current(Some(given));
                let c = C::raw(&p);
                set_current(None);
                match c {
                    Some(Ok(c)) => c,
                    Some(Err(e)) => fail!("raw parts refused: {e}"),
                    None => return Ok(()),
                }
            }
        };
        check(&c, &h, before).ctx(|| path.join(", "))?;
        contents(&c, &model).ctx(|| path.join(", "))?;
        let len = cx.choose(depth + 1);
        let mut reserved = vec![];
        for i in 0..len {
            cx.merge(hash_of(&(c.contents(), &model, &reserved)), (len - i) as u32)?;
            let k = cx.choose(ops.len());
            let op = &ops[k];
            cx.note(|| shown(op));
            path.push(shown(op));
            match op {
                Op::Extend(b) => {
                    model.extend(b.iter().map(T::val));
                    let b = b.clone();
                    measured("extend", || c.extend(b)).ctx(|| path.join(", "))?;
                }
                Op::TryExtend(b) => {
                    model.extend(b.iter().map(T::val));
                    let b = b.clone();
                    if let Err(e) = measured("try_extend", || c.try_extend(b)).ctx(|| path.join(", "))? {
                        fail!("{e}");
                    }
                }
                Op::Truncate(k) => {
                    let cuts: Vec<usize> = match k {
                        Cut::At(k) => vec![*k],
                        Cut::Off(k) => vec![model.len().saturating_sub(*k)],
                        Cut::Huge => far_cuts(model.len()).collect(),
                    };
                    for n in cuts {
                        model.truncate(n);
                        measured("truncate", || c.truncate(n)).ctx(|| path.join(", "))?;
                    }
                }
                Op::Reserve(n) => {
                    reserved.push(k);
                    measured("reserve", || c.reserve(*n)).ctx(|| path.join(", "))?;
                }
                Op::TryReserve(n) => {
                    reserved.push(k);
                    if let Err(e) = measured("try_reserve", || c.try_reserve(*n)).ctx(|| path.join(", "))? {
                        fail!("{e}");
                    }
                }
                Op::Rewrap => {}
            }
            cx.step();
            check(&c, &h, before).ctx(|| path.join(", "))?;
            contents(&c, &model).ctx(|| path.join(", "))?;
        }
        cx.merge(hash_of(&(c.contents(), &model, &reserved)), 0)?;
        check(&bystander, &other, before).ctx(|| "an array with another handle".into())?;
        // An operation that storage refuses in the middle leaves the handles alone.
        let b = batches::<T>(tier)[1].clone();
        let at = cx.choose(8) as u64;
        let (_, _, failed) = refusing(Some(at), || no_panic("try_extend", || c.try_extend(b)));
        cx.outcome(hash_of(&(at, failed)));
        check(&c, &h, before).ctx(|| format!("{}, try_extend refused at {at}", path.join(", ")))?;
        let (_, _, _) = refusing(Some(at), || no_panic("try_reserve", || c.try_reserve(7)));
        check(&c, &h, before).ctx(|| format!("{}, try_reserve refused at {at}", path.join(", ")))
    }
}

fn main() {
    mc::engine::main("C18", |tier, c| {
        let depth = tier.pick(3, 4);
        c.bound(format!("every history of up to {depth} operations (extend, truncate, reserve, fallible or not, across the 1024-row chunk when reserving) from with_capacity_in, from_iter_in, their fallible forms and raw parts of one handle; then a fallible operation refused at each storage operation"));
        c.bound("the same for arrays of and batches of 1025 and 2049 rows (thorough 6 lengths from 65 to 3000), and rows that are lists of 65 and 1025 elements at every level of nesting, over one operation (thorough two)");
        c.bound("the same for 65 537 rows (thorough 4097, 65 536, 65 537) of every core shape, over one operation");
        c.bound("the same for fixed-size rows of 31 to 1030 items (9 shapes), over one operation (thorough two)");
        c.assume("storage is reached only through the collection traits (the storage used here records the handle of every buffer)");
        macro_rules! v {
            ($t:ty) => {
                c.job(stringify!($t), history::<$t, Array<$t, TrackBuffer>>(tier, depth, 0));
            };
        }
        mc::shapes_core!(v);
        mc::shapes_deep!(v);
        macro_rules! w {
            ($t:ty) => {
                c.job(concat!("big/", stringify!($t)), history::<$t, Array<$t, TrackBuffer>>(tier, tier.pick(1, 2), 1));
            };
        }
        mc::shapes_core!(w);
        mc::shapes_deep!(w);
        macro_rules! h {
            ($t:ty) => {
                c.job(concat!("huge/", stringify!($t)), history::<$t, Array<$t, TrackBuffer>>(tier, 1, 2));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), history::<$t, Array<$t, TrackBuffer>>(tier, tier.pick(1, 2), 0));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_core!(h);
        macro_rules! l {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("large/", stringify!($t)), history::<Vec<$t>, VariableSizeList<$t, NonNullable, i64, TrackBuffer>>(tier, depth, 0));
                c.job(concat!("large?/", stringify!($t)), history::<Option<Vec<$t>>, VariableSizeList<$t, Nullable, i64, TrackBuffer>>(tier, depth, 0));
            )*};
        }
        l!(bool, u16, Option<bool>, Option<u8>, Vec<u8>, [Option<bool>; 3]);
    });
}
