//! C17: exported memory lives exactly as long as the release protocol says.
use mc::alloc::*;
use mc::engine::*;
use mc::ffi::*;
use mc::hist::start_rows;
use mc::items::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::*;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow_ffi::{ArrowArray, ArrowSchema, Export, Import, ImportError};

type Importer = fn(&CArray, &CSchema, &[Val]) -> R;

fn import_as<T: Item>(a: &CArray, s: &CSchema, model: &[Val]) -> R
where
    Array<T, SliceBuffer<'static>>: Import<'static>,
{
    // Sound: nothing imported outlives this function, and the structures do.
    let a: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(a)) };
    let s: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(s)) };
    let r: Result<Array<T, SliceBuffer<'static>>, ImportError> =
        no_panic("import", || unsafe { Import::import(a, s) })?;
    match r {
        Ok(x) => check_all(x, model),
        Err(e) => fail!("import failed: {e}"),
    }
}

/// One level of the exported structures.
#[derive(Clone)]
struct Level {
    ty: Ty,
    import: Importer,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Place {
    /// Inside its parent.
    Parent,
    /// Moved out; the consumer holds it.
    Held,
    Gone,
}

/// The structures of one chain (of arrays or of schemas), outermost first.
trait Struct: Copy + std::fmt::Debug {
    fn kid(&self) -> *mut Self;
    fn free(&mut self);
    fn free_as_rust(self);
    fn take(&mut self) -> Self;
    fn released(&self) -> bool;
}
impl Struct for CArray {
    fn kid(&self) -> *mut Self {
        self.child(0)
    }
    fn free(&mut self) {
        self.release();
    }
    fn free_as_rust(self) {
        // Sound: same layout; ownership passes over.
        drop(unsafe { std::mem::transmute::<CArray, ArrowArray>(self) });
    }
    fn take(&mut self) -> Self {
        self.moved()
    }
    fn released(&self) -> bool {
        self.release.is_none()
    }
}
impl Struct for CSchema {
    fn kid(&self) -> *mut Self {
        self.child(0)
    }
    fn free(&mut self) {
        self.release();
    }
    fn free_as_rust(self) {
        drop(unsafe { std::mem::transmute::<CSchema, ArrowSchema>(self) });
    }
    fn take(&mut self) -> Self {
        self.moved()
    }
    fn released(&self) -> bool {
        self.release.is_none()
    }
}

struct Chain<X: Struct> {
    place: Vec<Place>,
    held: Vec<Option<Box<X>>>,
    moves: usize,
}
impl<X: Struct> Drop for Chain<X> {
    fn drop(&mut self) {
        for h in self.held.iter_mut().flatten() {
            h.free();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Do {
    /// Move a child out of its parent.
    Take(usize),
    /// Move a held structure somewhere else.
    Relocate(usize),
    /// Call the release callback.
    Release(usize),
    /// Drop it as a value of the library's type.
    Drop(usize),
}

impl<X: Struct> Chain<X> {
    fn new(x: X, levels: usize) -> Self {
        let mut c = Chain {
            place: vec![Place::Parent; levels],
            held: (0..levels).map(|_| None).collect(),
            moves: 0,
        };
        c.place[0] = Place::Held;
        c.held[0] = Some(Box::new(x));
        c
    }
    /// The structure at a level, if it is still there.
    fn at(&self, l: usize) -> Option<*mut X> {
        match self.place[l] {
            Place::Held => self.held[l].as_ref().map(|b| std::ptr::from_ref::<X>(b).cast_mut()),
            Place::Parent => self.at(l.checked_sub(1)?).map(|p| unsafe { (*p).kid() }),
            Place::Gone => None,
        }
    }
    /// Everything below it is still in place.
    fn whole(&self, l: usize) -> bool {
        self.at(l).is_some() && self.place[l + 1..].iter().all(|p| *p == Place::Parent)
    }
    fn ops(&self, moves: usize) -> Vec<Do> {
        let mut v = vec![];
        for l in 0..self.place.len() {
            match self.place[l] {
                Place::Parent if self.at(l).is_some() => v.push(Do::Take(l)),
                Place::Held => {
                    if self.moves < moves {
                        v.push(Do::Relocate(l));
                    }
                    v.push(Do::Release(l));
                    v.push(Do::Drop(l));
                }
                _ => {}
            }
        }
        v
    }
    fn apply(&mut self, op: Do) -> R {
        match op {
            Do::Take(l) => {
                let p = self.at(l).expect("engine: structure");
                let x = unsafe { (*p).take() };
                self.held[l] = Some(exempt(|| Box::new(x)));
                self.place[l] = Place::Held;
            }
            Do::Relocate(l) => {
                let mut old = self.held[l].take().expect("engine: held");
                let x = (*old).take();
                self.held[l] = Some(exempt(|| Box::new(x)));
                drop(old);
                self.moves += 1;
            }
            Do::Release(l) => {
                let mut old = self.held[l].take().expect("engine: held");
                no_panic("release", || old.free())?;
                ensure!(old.released(), "the released structure is not marked released");
                // Dropping a released structure does nothing.
                no_panic("drop of a released structure", || (*old).free_as_rust())?;
                self.gone(l);
            }
            Do::Drop(l) => {
                let old = self.held[l].take().expect("engine: held");
                no_panic("drop", || (*old).free_as_rust())?;
                self.gone(l);
            }
        }
        Ok(())
    }
    fn gone(&mut self, l: usize) {
        self.place[l] = Place::Gone;
        for k in l + 1..self.place.len() {
            match self.place[k] {
                Place::Parent => self.place[k] = Place::Gone,
                _ => break,
            }
        }
    }
    fn done(&self) -> bool {
        self.place.iter().all(|p| *p == Place::Gone)
    }
}

/// Every structure not yet released reads as it did.
fn look(levels: &[Level], models: &[Vec<Val>], a: &Chain<CArray>, s: &Chain<CSchema>) -> R {
    for (l, lv) in levels.iter().enumerate() {
        let array = a.whole(l).then(|| a.at(l)).flatten();
        let schema = s.whole(l).then(|| s.at(l)).flatten();
        if let Some(p) = array {
            let x = unsafe { &*p };
            for y in all_arrays(x) {
                ensure!(y.release.is_some(), "a structure below array level {l} is marked released");
                ensure!(
                    !window_is_freed(y.buffers.cast()) && !window_is_freed(y.children.cast()),
                    "array level {l} points to freed memory"
                );
            }
            let mut ps = vec![];
            pointers(&lv.ty, x, &mut ps);
            for (q, n) in ps {
                ensure!(n == 0 || !window_is_freed(q), "a buffer at or below array level {l} is freed memory");
            }
            match no_panic("reading", || read_rows(&lv.ty, x))? {
                Ok(r) => ensure!(r == models[l], "array level {l} now reads {r:?}, expected {:?}", models[l]),
                Err(e) => fail!("array level {l} is no longer readable: {e}"),
            }
        }
        if let Some(p) = schema {
            let x = unsafe { &*p };
            for y in all_schemas(x) {
                ensure!(y.release.is_some(), "a structure below schema level {l} is marked released");
                ensure!(
                    !window_is_freed(y.format.cast()) && !window_is_freed(y.children.cast()),
                    "schema level {l} points to freed memory"
                );
            }
            if let Err(e) = check_schema(&lv.ty, x) {
                fail!("schema level {l} is no longer readable: {e}");
            }
        }
        if let (Some(p), Some(q)) = (array, schema) {
            unsafe { (lv.import)(&*p, &*q, &models[l]) }.ctx(|| format!("importing level {l}"))?;
        }
    }
    Ok(())
}

/// Which interleavings.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// Every order of operations on the arrays; the schema goes first or last.
    Arrays,
    Schemas,
    /// Both together, states merged on where every structure is.
    Both,
}

fn protocol<T: Item, S: Home>(tier: Tier, levels: Vec<Level>, mode: Mode) -> impl Fn(&mut Ctx) -> R
where
    Array<T, S>: Export,
{
    let moves = if levels.len() > 3 { 1 } else { tier.pick(1, 2) };
    let ty = T::ty();
    let mut rows = start_rows::<T>(Tier::Quick);
    rows.truncate(tier.pick(4, 5));
    let d = Dirt::default();
    let dirts = [Dirt { implicit: true, surplus: 1, extra: 1, fill: 0xFF, ..d }, d];
    move |cx| {
        let k = if mode == Mode::Both { 2 } else { cx.choose(rows.len()) };
        let d = dirts[if mode == Mode::Both { 0 } else { cx.choose(2) }];
        let p = Phys::encode(&ty, &rows[k], &d);
        cx.note(|| format!("{:?}, {d:?}", rows[k]));
        window_open();
        let r = run::<T, S>(cx, &p, &rows[k], &levels, mode, moves);
        leak::free();
        let w = window_close();
        r?;
        ensure!(w.clean(), "after the last release, memory: {w:?}");
        Ok(())
    }
}

fn run<T: Item, S: Home>(cx: &mut Ctx, p: &Phys, rows: &[Val], levels: &[Level], mode: Mode, moves: usize) -> R
where
    Array<T, S>: Export,
{
    let array = match exempt(|| p.clone()) {
        p => match from_phys::<T, S>(&p) {
            Ok(a) => a,
            // does not fit a fixed array
            Err(_) => return Ok(()),
        },
    };
    let rows = match exempt(|| phys(&array).decode(&levels[0].ty, true)) {
        Ok(r) => r,
        Err(_) => exempt(|| rows.to_vec()),
    };
    let (a, s) = match no_panic("export", || array.export())? {
        Ok(x) => x,
        Err(e) => fail!("export failed: {e}"),
    };
    let n = levels.len();
    let mut a = exempt(|| Chain::new(take_array(a), n));
    let mut s = exempt(|| Chain::new(take_schema(s), n));
    exempt(|| {
        // What every level holds, before anything is released.
        let mut models: Vec<Vec<Val>> = vec![];
        for (l, lv) in levels.iter().enumerate() {
            match read_rows(&lv.ty, unsafe { &*a.at(l).expect("engine: level") }) {
                Ok(r) => models.push(r),
                Err(e) => fail!("exported array level {l}: {e}"),
            }
        }
        ensure!(models[0] == rows, "exported array holds {:?}, expected {rows:?}", models[0]);
        look(levels, &models, &a, &s)?;
        let mut path: Vec<(bool, Do)> = vec![];
        match mode {
            Mode::Arrays => {
                if cx.flag() {
                    cx.note(|| "schema released".into());
                    s.apply(Do::Release(0))?;
                    look(levels, &models, &a, &s)?;
                }
            }
            Mode::Schemas => {
                if cx.flag() {
                    cx.note(|| "array released".into());
                    a.apply(Do::Release(0))?;
                    look(levels, &models, &a, &s)?;
                }
            }
            Mode::Both => {}
        }
        loop {
            let mut ops: Vec<(bool, Do)> = vec![];
            if mode != Mode::Schemas {
                ops.extend(a.ops(moves).into_iter().map(|o| (true, o)));
            }
            if mode != Mode::Arrays {
                ops.extend(s.ops(moves).into_iter().map(|o| (false, o)));
            }
            let key = hash_of(&(&a.place, a.moves, &s.place, s.moves, mode == Mode::Both || path.is_empty()));
            if mode == Mode::Both {
                cx.merge(key, 0)?;
            } else {
                cx.state(key);
            }
            if ops.is_empty() {
                break;
            }
            let (on, op) = *cx.pick(&ops);
            path.push((on, op));
            let say = || {
                path.iter()
                    .map(|(on, o)| format!("{} {o:?}", if *on { "array" } else { "schema" }))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            cx.note(|| format!("{} {op:?}", if on { "array" } else { "schema" }));
            if on {
                a.apply(op).ctx(say)?;
            } else {
                s.apply(op).ctx(say)?;
            }
            cx.step();
            look(levels, &models, &a, &s).ctx(say)?;
        }
        cx.outcome(hash_of(&path));
        if !a.done() {
            a.apply(Do::Release(0))?;
            look(levels, &models, &a, &s)?;
        }
        if !s.done() {
            s.apply(Do::Release(0))?;
            look(levels, &models, &a, &s)?;
        }
        Ok(())
    })
}

/// Two exports that share their storage: neither needs the other.
fn shared<T: Item>(share: fn() -> (Vec<Array<T, ArcBuffer>>, Box<dyn Fn() -> usize>), model: Vec<Val>) -> impl Fn(&mut Ctx) -> R
where
    Array<T, ArcBuffer>: Export,
    Array<T, SliceBuffer<'static>>: Import<'static>,
{
    let ty = T::ty();
    move |cx| {
        window_open();
        let r = (|| {
            let (arrays, owners) = share();
            let mut out: Vec<Option<(CArray, CSchema)>> = vec![];
            let mut live = arrays.len();
            for a in arrays {
                match no_panic("export", || a.export())? {
                    Ok((a, s)) => out.push(Some((take_array(a), take_schema(s)))),
                    Err(e) => fail!("export failed: {e}"),
                }
            }
            while live > 0 {
                let left: Vec<usize> = (0..out.len()).filter(|&i| out[i].is_some()).collect();
                let i = *cx.pick(&left);
                let how = cx.choose(3);
                cx.note(|| format!("export {i} goes, way {how}"));
                let (mut a, mut s) = out[i].take().expect("engine: live");
                match how {
                    0 => {
                        a.release();
                        s.release();
                    }
                    1 => {
                        s.free_as_rust();
                        a.free_as_rust();
                    }
                    _ => {
                        let mut b = a.moved();
                        s.release();
                        b.release();
                    }
                }
                live -= 1;
                cx.step();
                ensure!(owners() > live, "{} owners of the storage, {live} exports live", owners());
                ensure!(live > 0 || owners() == 1, "{} owners of the storage after the last release", owners());
                for (a, s) in out.iter().flatten() {
                    check_exported(&ty, a, s, &model).ctx(|| format!("after export {i} went"))?;
                    import_as::<T>(a, s, &model).ctx(|| format!("after export {i} went"))?;
                }
            }
            cx.state(hash_of(&live));
            Ok(())
        })();
        let w = window_close();
        r?;
        ensure!(w.clean(), "after the last release, memory: {w:?}");
        Ok(())
    }
}

fn main() {
    mc::engine::main("C17", |tier, c| {
        c.bound("every order of taking children out of their parents, moving held structures (quick: once, thorough: twice), releasing through the callback and dropping, for nesting depths 1 to 4; arrays and schemas each alone exhaustively, and together with states merged on where every structure is");
        c.bound("after every step every structure not yet released is read at every level by the independent reader and by import; freed blocks are poisoned and kept, double frees and leaks are counted at the end");
        c.assume("a child may be taken out and its parent released any time later (the specification says immediately); the parent is not read in between");
        macro_rules! p {
            ($s:ty, $sn:literal, $t:ty $(, $more:ty)*) => {{
                let levels = vec![
                    Level { ty: <$t as Item>::ty(), import: import_as::<$t> },
                    $(Level { ty: <$more as Item>::ty(), import: import_as::<$more> },)*
                ];
                if tier.thorough() || levels.len() < 4 {
                    c.job(concat!($sn, "/arrays/", stringify!($t)), protocol::<$t, $s>(tier, levels.clone(), Mode::Arrays));
                    c.job(concat!($sn, "/schemas/", stringify!($t)), protocol::<$t, $s>(tier, levels.clone(), Mode::Schemas));
                }
                c.job(concat!($sn, "/both/", stringify!($t)), protocol::<$t, $s>(tier, levels, Mode::Both));
            }};
        }
        macro_rules! all {
            ($s:ty, $sn:literal) => {
                p!($s, $sn, bool);
                p!($s, $sn, Option<u32>);
                p!($s, $sn, [u16; 2], u16);
                p!($s, $sn, Option<[bool; 2]>, bool);
                p!($s, $sn, Vec<Option<u8>>, Option<u8>);
                p!($s, $sn, Option<Vec<bool>>, bool);
                p!($s, $sn, Vec<[u8; 2]>, [u8; 2], u8);
                p!($s, $sn, [Vec<u8>; 2], Vec<u8>, u8);
                p!($s, $sn, Option<Vec<Option<[Option<bool>; 2]>>>, Option<[Option<bool>; 2]>, Option<bool>);
            };
        }
        all!(VecBuffer, "vec");
        all!(ArcBuffer, "arc");
        all!(BoxBuffer, "box");
        all!(RcBuffer, "rc");
        all!(SliceBuffer<'static>, "slice");
        all!(ArrayBuffer<4>, "array");
        p!(VecBuffer, "vec", Vec<Vec<Vec<bool>>>, Vec<Vec<bool>>, Vec<bool>, bool);
        p!(VecBuffer, "vec", Option<[Option<Vec<[Option<u8>; 2]>>; 2]>, Option<Vec<[Option<u8>; 2]>>, [Option<u8>; 2], Option<u8>);
        c.job("default", |cx: &mut Ctx| {
            let n = cx.choose(4);
            cx.state(hash_of(&n));
            cx.step();
            window_open();
            let r = no_panic("default structures", || {
                let (mut released, mut empty) = (true, true);
                for _ in 0..n {
                    let (a, s) = (Box::<ArrowArray>::default(), Box::<ArrowSchema>::default());
                    released &= a.is_released() && s.is_released();
                    released &= c_array(&a).release.is_none() && c_schema(&s).release.is_none();
                    // and hold nothing at all
                    // SAFETY: every field may be zero.
                    empty &= *c_array(&a) == unsafe { std::mem::zeroed() } && *c_schema(&s) == unsafe { std::mem::zeroed() };
                }
                (released, empty)
            });
            let w = window_close();
            let (released, empty) = r?;
            ensure!(released, "default structures are not marked released");
            ensure!(empty, "default structures are not empty");
            ensure!(w.clean(), "memory: {w:?}");
            Ok(())
        });
        c.job("shared/u32", shared::<u32>(|| {
            let v: std::sync::Arc<[u32]> = std::sync::Arc::from([7_u32, 0, u32::MAX]);
            let arrays = (0..3).map(|_| Array::from_buffer(FixedSizePrimitive::from_buffer(v.clone()))).collect();
            (arrays, Box::new(move || std::sync::Arc::strong_count(&v)))
        }, vec![Val::Num(7), Val::Num(0), Val::Num(u128::from(u32::MAX))]));
        c.job("shared/bool", shared::<bool>(|| {
            let v: std::sync::Arc<[u8]> = std::sync::Arc::from([0b0101_u8]);
            let arrays = (0..3)
                .map(|_| {
                    let b = narrow::bitmap::Bitmap::try_from_parts(v.clone(), 4, 0).ok().expect("engine: bitmap");
                    Array::from_buffer(Boolean::from_buffer(b))
                })
                .collect();
            (arrays, Box::new(move || std::sync::Arc::strong_count(&v)))
        }, vec![Val::Bool(true), Val::Bool(false), Val::Bool(true), Val::Bool(false)]));
    });
}
