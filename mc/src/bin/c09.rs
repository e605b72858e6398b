//! C09: a failed fallible operation changes nothing, and memory exhaustion never aborts.
//!
//! Every allocation made inside a fallible operation is made to fail, once or from there on.
use mc::alloc::*;
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::iters::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::BoxBuffer;
use narrow::collection::{AllocError, CollectionAllocIn, Collection};

/// A fallible operation on an existing column.
#[derive(Clone)]
enum Fop<T> {
    Extend(Vec<T>, Hint),
    Reserve(usize),
}
impl<T: Item> Fop<T> {
    fn show(&self) -> String {
        match self {
            Fop::Extend(b, h) => format!("try_extend {} rows {:?} (hint {h:?})", b.len(), vals(&b[..b.len().min(6)])),
            Fop::Reserve(n) => format!("try_reserve {n}"),
        }
    }
    /// Iterators are made beforehand: only the library's allocations count.
    fn run<C: Column<T>>(&self, c: &mut C, fail_at: Option<u64>, sticky: bool) -> R<(Result<(), AllocError>, Count)> {
        let src = exempt(|| match self {
            Fop::Extend(b, h) => Source::new(b.clone(), *h),
            Fop::Reserve(_) => Source::new(vec![], Hint::Exact),
        });
        let (r, n) = counted(fail_at, sticky, || {
            catch(|| match self {
                Fop::Extend(..) => c.try_extend(src),
                Fop::Reserve(n) => c.try_reserve(*n),
            })
        });
        match r {
            Caught::Value(v) => Ok((v, n)),
            Caught::Injected => fail!("injected panic out of place"),
            Caught::Panic(p) => fail!("panicked at {p}"),
        }
    }
    fn apply(&self, model: &mut Vec<Val>) {
        if let Fop::Extend(b, _) = self {
            model.extend(b.iter().map(T::val));
        }
    }
}

fn whole<T: Item, C: Column<T>>(c: &C, model: &[Val]) -> R {
    exempt(|| whole_inner(c, model))
}
fn whole_inner<T: Item, C: Column<T>>(c: &C, model: &[Val]) -> R {
    check_reads(c, model)?;
    c.check_nulls()?;
    let p = no_panic("raw parts", || c.phys())?;
    match p.decode(&C::col_ty(), true) {
        Ok(rows) => ensure!(rows == model, "raw parts hold {rows:?}, expected {model:?}"),
        Err(e) => fail!("raw parts {p:?}: {e}"),
    }
    Ok(())
}

/// Blocks still alive once everything was dropped are leaks.
fn closed(what: &dyn Fn() -> String) -> R {
    let w = window_close();
    ensure!(w.clean(), "{}: memory accounting at the end: {w:?}", what());
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Size {
    /// Few rows.
    Short,
    /// Many rows.
    Long,
    /// Few fixed-size rows of many items.
    Wide,
}

fn faults<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier, size: Size) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let ty = T::ty();
    let (long, wide) = (size == Size::Long, size == Size::Wide);
    let nth = |k: usize| T::from_val(&sample_val(&ty, k));
    let many = |n: usize, from: usize| -> Vec<T> { (0..n).map(|k| nth(k + from)).collect() };
    let (starts, fops): (Vec<Start<T>>, Vec<Fop<T>>) = if long {
        let d = Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true };
        let rows: Vec<Val> = (0..1023).map(|k| sample_val(&ty, k)).collect();
        (
            vec![
                Start::Default,
                Start::Collected(many(3, 0)),
                Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)),
            ],
            vec![
                Fop::Extend(many(1025, 5000), Hint::Exact),
                Fop::Extend(many(1025, 5000), Hint::Unknown),
                Fop::Extend(many(2100, 7000), Hint::Unknown),
                Fop::Extend(many(3100, 7000), Hint::Exact),
                Fop::Reserve(5000),
            ],
        )
    } else if wide {
        let d = Dirt { off_valid: 5, off_bool: 3, extra: 2, fill: 0xFF, surplus: 1, implicit: true, junk: true };
        let rows: Vec<Val> = (0..3).map(|k| sample_val(&ty, k)).collect();
        (
            vec![
                Start::Default,
                Start::Extended(many(3, 0)),
                Start::Raw(rows.clone(), d, Phys::encode(&ty, &rows, &d)),
            ],
            vec![
                Fop::Extend(many(3, 50), Hint::Exact),
                Fop::Extend(many(9, 70), Hint::Unknown),
                Fop::Reserve(5),
            ],
        )
    } else {
        let mut f = vec![];
        for b in batches::<T>(tier) {
            f.push(Fop::Extend(b.clone(), Hint::Exact));
            f.push(Fop::Extend(b, Hint::Unknown));
        }
        f.push(Fop::Extend(many(40, 300), Hint::Unknown));
        f.push(Fop::Extend(many(40, 300), Hint::Lower));
        for level in 0..list_levels(&ty) {
            let rows = |n: usize| items::<T>(&[sample_val(&ty, 3), sized_val(&ty, level, n, 1), sample_val(&ty, 4)]);
            f.push(Fop::Extend(rows(1030), Hint::Exact));
            if tier.thorough() {
                f.push(Fop::Extend(rows(70), Hint::Unknown));
                f.push(Fop::Extend(rows(2100), Hint::Unknown));
            }
        }
        f.push(Fop::Reserve(1));
        f.push(Fop::Reserve(20));
        if tier.thorough() {
            f.push(Fop::Extend(many(70, 900), Hint::Loose));
            f.push(Fop::Extend(many(17, 800), Hint::Upper));
            f.push(Fop::Reserve(9));
            f.push(Fop::Reserve(0));
        }
        (mc::hist::starts::<T>(tier), f)
    };
    let pre = [None, Some(Op::Truncate(Cut::Off(1))), Some(Op::Truncate(Cut::At(0))), Some(Op::Extend(many(1, 99)))];
    let npre = if long || wide { 1 } else { tier.pick(2, 4) };
    let after: Vec<Op<T>> = vec![
        Op::Extend(many(2, 41)),
        Op::Truncate(Cut::Off(1)),
        Op::TryReserve(3),
        Op::Rewrap,
        Op::TryExtend(many(9, 51)),
    ];
    let nafter = if long || wide { 2 } else { after.len() };
    move |cx| {
        let s = cx.pick(&starts).clone();
        let p = &pre[cx.choose(npre)];
        let f = cx.pick(&fops).clone();
        let what = || format!("{}, {}, {}", show_start(&s).chars().take(300).collect::<String>(), p.as_ref().map(show).unwrap_or_default(), f.show());
        cx.note(what);
        let make = || -> R<(C, Vec<Val>)> {
            let (mut c, mut m): (C, _) = start(&s)?;
            if let Some(op) = p {
                c = apply(c, &mut m, op)?;
            }
            Ok((c, m))
        };
        // Without a fault: succeeds, and tells how many allocations there are.
        let n = {
            let (mut c, mut m) = make().ctx(what)?;
            let (r, n) = f.run(&mut c, None, false).ctx(what)?;
            ensure!(r.is_ok(), "{}: reported an error though memory was available", what());
            exempt(|| f.apply(&mut m));
            if n.allocations == 0 {
                whole::<T, C>(&c, &m).ctx(what)?;
            }
            n.allocations
        };
        if n == 0 {
            cx.outcome(1);
            return Ok(());
        }
        let k = cx.choose(n as usize) as u64;
        let sticky = cx.flag();
        let what = || format!("{} with allocation {k} of {n} failing{}", what(), if sticky { " and all later ones" } else { "" });
        cx.note(what);
        cx.state(hash_of(&what()));
        window_open();
        {
            let (mut c, mut m) = make()?;
            let (r, cnt) = f.run(&mut c, Some(k), sticky).ctx(what)?;
            cx.step();
            ensure!(cnt.failed > 0, "engine: {}: fault not hit", what());
            match r {
                Ok(()) => exempt(|| f.apply(&mut m)),
                Err(AllocError) => {}
            }
            cx.outcome(hash_of(&(r.is_ok(), &m)));
            let what = || format!("after {} (answered {r:?})", what());
            whole::<T, C>(&c, &m).ctx(what)?;
            // Then as if the failed operation had not been attempted.
            let then = cx.choose(nafter + 2);
            if then == nafter + 1 {
                // the same again, failing at every other place
                let (r2, c2) = f.run(&mut c, Some(k / 2), true).ctx(what)?;
                cx.step();
                ensure!(r2.is_ok() || c2.failed > 0, "{}: the same again reported an error though memory was available", what());
                if r2.is_ok() {
                    exempt(|| f.apply(&mut m));
                }
                whole::<T, C>(&c, &m).ctx(|| format!("{}, then the same failing again", what()))?;
            }
            if then >= nafter {
                let (r3, _) = f.run(&mut c, None, false).ctx(what)?;
                cx.step();
                ensure!(r3.is_ok(), "{}: trying again reported an error though memory was available", what());
                exempt(|| f.apply(&mut m));
                whole::<T, C>(&c, &m).ctx(|| format!("{}, then tried again", what()))?;
            } else {
                c = apply(c, &mut m, &after[then]).ctx(what)?;
                cx.step();
                whole::<T, C>(&c, &m).ctx(|| format!("{}, then {}", what(), show(&after[then])))?;
            }
            exempt(|| check_into(c, &m)).ctx(what)?;
        }
        closed(&what)
    }
}

/// Fallible constructors.
fn making<T: Item + Send + Sync, C: Collection<Owned = T> + CollectionAllocIn<Alloc = ()> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let ty = T::ty();
    let hints = [Hint::Exact, Hint::Unknown, Hint::Lower, Hint::Upper, Hint::Loose];
    let nh = tier.pick(3, 5);
    let lens: &[usize] = if tier.thorough() { &[0, 1, 2, 3, 8, 9, 33, 70, 1025, 2100] } else { &[0, 1, 3, 9, 33, 1025] };
    let caps: &[usize] = &[0, 1, 8, 9, 64, 1025];
    move |cx| {
        let by_rows = cx.flag();
        let n = if by_rows { *cx.pick(lens) } else { *cx.pick(caps) };
        let hint = if by_rows { hints[cx.choose(nh)] } else { Hint::Exact };
        let what = || if by_rows { format!("try_from_iter_in of {n} rows (hint {hint:?})") } else { format!("try_with_capacity_in({n})") };
        let run = |fail_at, sticky| -> R<(Result<C, AllocError>, Count)> {
            let src = exempt(|| {
                let rows: Vec<T> = if by_rows { (0..n).map(|k| T::from_val(&sample_val(&ty, k))).collect() } else { vec![] };
                Source::new(rows, hint)
            });
            let (r, cnt) = counted(fail_at, sticky, || {
                catch(|| if by_rows { C::try_from_iter_in(src, ()) } else { C::try_with_capacity_in(n, ()) })
            });
            match r {
                Caught::Value(v) => Ok((v, cnt)),
                Caught::Injected => fail!("injected panic out of place"),
                Caught::Panic(p) => fail!("panicked at {p}"),
            }
        };
        cx.note(what);
        let (r, cnt) = run(None, false).ctx(what)?;
        ensure!(r.is_ok(), "{}: reported an error though memory was available", what());
        let total = cnt.allocations;
        drop(r);
        let k = cx.choose(total as usize + 1) as u64;
        let sticky = k < total && cx.flag();
        let what = || format!("{} with allocation {k} of {total} failing, {sticky}", what());
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.step();
        window_open();
        {
            let (r, cnt) = run(Some(k), sticky).ctx(what)?;
            cx.outcome(u64::from(r.is_ok()));
            match r {
                Err(AllocError) => ensure!(cnt.failed > 0, "{}: reported an error though memory was available", what()),
                Ok(c) => {
                    let m: Vec<Val> = exempt(|| if by_rows { (0..n).map(|k| sample_val(&ty, k)).collect() } else { vec![] });
                    exempt(|| check_all(c, &m)).ctx(what)?;
                }
            }
        }
        closed(&what)
    }
}

/// Requests no memory can satisfy.
fn absurd<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let starts = mc::hist::starts::<T>(tier);
    let amounts: Vec<usize> = {
        let mut v = vec![usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, 1 << 62, 1 << 61, 1 << 60, 1 << 50];
        for w in [2, 3, 5, 6, 8, 10, 16] {
            for d in 0..3 {
                v.push(usize::MAX / w + d);
                v.push(usize::MAX / w - d);
                v.push(isize::MAX as usize / w + d);
            }
        }
        for d in 1..20 {
            v.push(usize::MAX - d);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    move |cx| {
        let n = *cx.pick(&amounts);
        match cx.choose(2) {
            0 => {
                cx.note(|| format!("try_with_capacity_in({n})"));
                cx.step();
                let r = no_panic(&format!("try_with_capacity_in({n})"), || C::try_with_capacity_in(n, ()))?;
                ensure!(r.is_err(), "try_with_capacity_in({n}) claims to have succeeded");
            }
            _ => {
                let s = cx.pick(&starts);
                cx.note(|| format!("{}, try_reserve({n})", show_start(s)));
                let what = || format!("{}, try_reserve({n})", show_start(s));
                window_open();
                {
                    let (mut c, mut m): (C, _) = start(s)?;
                    cx.step();
                    let r = no_panic(&what(), || c.try_reserve(n))?;
                    ensure!(r.is_err(), "{} claims to have succeeded", what());
                    whole::<T, C>(&c, &m).ctx(what)?;
                    c = apply(c, &mut m, &Op::TryExtend((0..9).map(|k| T::from_val(&sample_val(&T::ty(), k + 60))).collect())).ctx(what)?;
                    whole::<T, C>(&c, &m).ctx(what)?;
                }
                closed(&what)?;
            }
        }
        cx.state(hash_of(&n));
        Ok(())
    }
}

/// A source without end: memory runs out sooner or later, and that is all that happens.
fn endless<T: Item + Send + Sync, C: Column<T> + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R + Send + Sync {
    let k = tier.pick(9, 12);
    move |cx| {
        let at = cx.choose(k) as u64;
        let shy = cx.flag();
        let rows: Vec<T> = (0..*cx.pick(&[0_usize, 3, 9])).map(|k| T::from_val(&sample_val(&T::ty(), k))).collect();
        let what = || format!("{} rows, try_extend without end (shy {shy}), memory ends at allocation {at}", rows.len());
        cx.note(what);
        cx.state(hash_of(&what()));
        window_open();
        {
            let mut m = vals(&rows);
            let mut c: C = rows.iter().cloned().collect();
            let one = T::alphabet(false)[0].clone();
            struct Endless<T>(T, bool);
            impl<T: Clone> Iterator for Endless<T> {
                type Item = T;
                fn next(&mut self) -> Option<T> {
                    Some(exempt(|| self.0.clone()))
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    if self.1 { (0, None) } else { (usize::MAX, None) }
                }
            }
            let (r, _) = counted(Some(at), true, || catch(|| c.try_extend(Endless(one, shy))));
            cx.step();
            match r {
                Caught::Value(Err(AllocError)) => {}
                Caught::Value(Ok(())) => fail!("{}: claims to have stored an endless source", what()),
                Caught::Injected => fail!("injected panic out of place"),
                Caught::Panic(p) => fail!("{}: panicked at {p}", what()),
            }
            whole::<T, C>(&c, &m).ctx(what)?;
            c = apply(c, &mut m, &Op::TryExtend(rows.clone())).ctx(what)?;
            whole::<T, C>(&c, &m).ctx(what)?;
        }
        closed(&what)
    }
}

fn main() {
    mc::engine::main("C09", |tier, c| {
        c.bound("every allocation inside every fallible operation (try_extend, try_reserve, try_from_iter_in, try_with_capacity_in) fails, once or from there on, from every start state (rows up to 9, thorough 17; dirty raw parts, bit offsets, spare capacity), then one further operation or the same again");
        c.bound("batches of up to 40 (thorough 70) rows with exact and absent size hints; batches of 1025 to 3100 rows across the 1024-row validity chunks; rows that are lists of 1030 (thorough also 70 and 2100) elements at every level of nesting; endless sources with memory ending at each of the first 9 (thorough 12) allocations");
        c.bound("impossible requests: 50 amounts around the integer limits and their fractions");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): every allocation of extensions by 3 and 9 rows and of reservations fails, from 3 starts");
        macro_rules! f {
            ($t:ty) => {
                c.job(concat!("make/", stringify!($t)), making::<$t, Arr<$t>>(tier));
                c.job(concat!("fault/", stringify!($t)), faults::<$t, Arr<$t>>(tier, Size::Short));
                c.job(concat!("chunk/", stringify!($t)), faults::<$t, Arr<$t>>(tier, Size::Long));
                c.job(concat!("absurd/", stringify!($t)), absurd::<$t, Arr<$t>>(tier));
                c.job(concat!("endless/", stringify!($t)), endless::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_core!(f);
        macro_rules! g {
            ($t:ty) => {
                c.job(concat!("make/", stringify!($t)), making::<$t, Arr<$t>>(tier));
                c.job(concat!("fault/", stringify!($t)), faults::<$t, Arr<$t>>(tier, Size::Short));
                c.job(concat!("absurd/", stringify!($t)), absurd::<$t, Arr<$t>>(tier));
            };
        }
        g!([[u8; 2]; 2]); g!([Vec<u8>; 2]); g!([Option<Vec<bool>>; 3]); g!(Vec<Vec<u8>>); g!(Vec<[bool; 3]>);
        g!(Vec<Option<[bool; 2]>>); g!(Vec<Option<Vec<u8>>>); g!(Option<Vec<[bool; 3]>>); g!(Option<[Vec<u8>; 2]>);
        g!(Option<[Option<[Option<bool>; 2]>; 3]>); g!(Option<Vec<Option<Vec<Option<u8>>>>>);
        macro_rules! l {
            ($n:literal, $t:ty, $c:ty) => {
                c.job(concat!("make/", $n), making::<$t, $c>(tier));
                c.job(concat!("fault/", $n), faults::<$t, $c>(tier, Size::Short));
                c.job(concat!("absurd/", $n), absurd::<$t, $c>(tier));
            };
        }
        l!("i64/Vec<u8>", Vec<u8>, Large<u8>);
        l!("i64/Option<Vec<Option<bool>>>", Option<Vec<Option<bool>>>, LargeNull<Option<bool>>);
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain/", stringify!($c)), making::<$t, $c>(tier));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), faults::<$t, Arr<$t>>(tier, Size::Wide));
            };
        }
        mc::shapes_wide!(wide);
        mc::compositions!(m);
        macro_rules! b {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), making::<$t, Array<$t, BoxBuffer>>(tier));
            };
        }
        b!(bool); b!(u8); b!(i64); b!([bool; 3]); b!([u16; 2]);
    });
}
