//! C15: export followed by import returns the same rows without copying.
use mc::alloc::*;
use mc::engine::*;
use mc::ffi::*;
use mc::hist::*;
use mc::items::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::*;
use narrow_ffi::{ArrowArray, ArrowSchema, Export, Import, ImportError};

type Slice = SliceBuffer<'static>;
type Imported<T> = Array<T, Slice>;

/// Everything an importer must not change: the structures and the memory behind their buffers.
#[derive(PartialEq, Debug)]
struct Snapshot(Vec<CArray>, Vec<CSchema>, Vec<Vec<u8>>);
fn snapshot(ty: &Ty, a: &CArray, s: &CSchema) -> Snapshot {
    let mut p = vec![];
    pointers(ty, a, &mut p);
    let bytes = p
        .iter()
        .map(|&(q, n)| if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(q, n) }.to_vec() })
        .collect();
    Snapshot(all_arrays(a), all_schemas(s), bytes)
}

/// Imports the structures and looks at everything that comes out.
fn imported<T: Item>(a: &CArray, s: &CSchema, model: &[Val], full: bool) -> R
where
    Imported<T>: Import<'static>,
{
    let ty = T::ty();
    // Sound: nothing imported outlives this function, and the structures do.
    let a_ref: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(a)) };
    let s_ref: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(s)) };
    let r: Result<Imported<T>, ImportError> = no_panic("import", || unsafe { Import::import(a_ref, s_ref) })?;
    let got = match r {
        Ok(x) => x,
        Err(e) => fail!("import of an exported array failed: {e}"),
    };
    // backed by the exported memory
    let mut p = vec![];
    pointers(&ty, a, &mut p);
    let has = places(&got);
    ensure!(p.len() == has.len(), "imported array has {} buffers, {} were exported", has.len(), p.len());
    for (i, (&(at, size), &(role, is, bytes))) in p.iter().zip(&has).enumerate() {
        if size == 0 {
            continue;
        }
        ensure!(at as usize == is, "buffer {i} ({role:?}) of the imported array is not the exported one");
        ensure!(bytes == size, "buffer {i} ({role:?}) of the imported array has {bytes} bytes, expected {size}");
    }
    check_reads(&got, model)?;
    no_panic("null queries", || T::check_nulls::<Slice>(got.buffer_ref()))??;
    match no_panic("raw parts", || phys(&got))?.decode(&ty, true) {
        Ok(r) => ensure!(r == model, "raw parts of the imported array hold {r:?}, expected {model:?}"),
        Err(e) => fail!("raw parts of the imported array: {e}"),
    }
    if full {
        check_every_index(&got, model)?;
    }
    check_into(got, model)
}
use narrow::buffer::BufferRef;

/// Exports, imports twice (the second time after the first is gone), and once more after the
/// structures were moved elsewhere.
fn round<T: Item, S: Buffer>(a: Array<T, S>, model: &[Val]) -> R
where
    Array<T, S>: Export,
    Imported<T>: Import<'static>,
{
    let ty = T::ty();
    let (array, schema) = match no_panic("export", || a.export())? {
        Ok(x) => x,
        // C14 decides when this is right
        Err(_) => return Ok(()),
    };
    let mut array = take_array(array);
    let mut schema = take_schema(schema);
    let full = model.len() <= 20;
    let r = (|| {
        let before = snapshot(&ty, &array, &schema);
        imported::<T>(&array, &schema, model, full)?;
        ensure!(before == snapshot(&ty, &array, &schema), "importing changed the exported structures or memory");
        // two at a time
        {
            let a_ref: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(&array)) };
            let s_ref: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(&schema)) };
            let first: Result<Imported<T>, ImportError> =
                no_panic("import", || unsafe { Import::import(a_ref, s_ref) })?;
            imported::<T>(&array, &schema, model, false).ctx(|| "second import".into())?;
            match first {
                Ok(x) => check_all(x, model).ctx(|| "first import, after a second one".into())?,
                Err(e) => fail!("import of an exported array failed: {e}"),
            }
        }
        ensure!(before == snapshot(&ty, &array, &schema), "importing changed the exported structures or memory");
        let mut array2 = Box::new(array.moved());
        let mut schema2 = Box::new(schema.moved());
        let r = imported::<T>(&array2, &schema2, model, false).ctx(|| "after a move".into());
        // An import does not need the schema once it is done.
        let a_ref: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(&array2)) };
        let s_ref: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(&schema2)) };
        let last: Result<Imported<T>, ImportError> =
            no_panic("import", || unsafe { Import::import(a_ref, s_ref) })?;
        schema2.release();
        let r = r.and_then(|()| match last {
            Ok(x) => check_all(x, model).ctx(|| "after the schema was released".into()),
            Err(e) => fail!("import of an exported array failed: {e}"),
        });
        array2.release();
        r
    })();
    array.release();
    schema.release();
    r
}

fn round_windowed<T: Item, S: Buffer>(a: Array<T, S>, model: &[Val]) -> R
where
    Array<T, S>: Export,
    Imported<T>: Import<'static>,
{
    // Reading back allocates a lot: only small arrays are observed for leaks.
    if model.len() > 3 {
        return round(a, model);
    }
    window_open();
    let r = round(a, model);
    let w = window_close();
    r?;
    ensure!(w.overflow || w.clean(), "memory: {w:?}");
    Ok(())
}

fn row_lists<T: Item>(tier: Tier) -> Vec<Vec<Val>> {
    let ty = T::ty();
    if is_wide(&ty) {
        return wide_rows(&ty);
    }
    let a = alphabet(&ty, true);
    let mut rows = start_rows::<T>(Tier::Thorough);
    for x in &a {
        rows.push(vec![x.clone()]);
        for y in &a {
            rows.push(vec![x.clone(), y.clone()]);
            if tier.thorough() {
                for z in &a {
                    rows.push(vec![x.clone(), y.clone(), z.clone()]);
                }
            }
        }
    }
    for &n in BOUNDARY.iter().chain(&[1024, 1025]) {
        rows.push((0..n).map(|k| sample_val(&ty, k + 9)).collect());
    }
    rows.extend(long_lists(&ty, tier));
    rows
}

/// From raw parts in any storage, bit offsets apart.
fn raw<T: Item, S: Home>(tier: Tier) -> impl Fn(&mut Ctx) -> R
where
    Array<T, S>: Export,
    Imported<T>: Import<'static>,
{
    let rows = std::sync::OnceLock::new();
    let d = Dirt::default();
    let dirts = [
        d,
        Dirt { extra: 2, fill: 0xFF, ..d },
        Dirt { fill: 0xFF, ..d },
        Dirt { surplus: 2, fill: 0xA5, extra: 1, junk: true, ..d },
        Dirt { implicit: true, ..d },
        Dirt { implicit: true, surplus: 1, extra: 1, fill: 0xA5, junk: true, ..d },
    ];
    move |cx| {
        let rows = cx.pick(rows.get_or_init(|| row_lists::<T>(tier)));
        let d = *cx.pick(&dirts);
        let p = Phys::encode(&T::ty(), rows, &d);
        cx.note(|| format!("{} rows {:?}.., {d:?}", rows.len(), rows.first()));
        cx.state(hash_of(&p));
        cx.steps(3);
        let r = match from_phys::<T, S>(&p) {
            Ok(a) => {
                // what the raw parts say: fixed arrays are padded
                let model = match phys(&a).decode(&T::ty(), true) {
                    Ok(m) => m,
                    Err(e) => fail!("raw parts: {e}"),
                };
                cx.outcome(hash_of(&model));
                round::<T, S>(a, &model)
            }
            // does not fit a fixed array
            Err(_) => Ok(()),
        };
        leak::free();
        r.ctx(|| format!("{} rows, {d:?}", rows.len()))
    }
}

fn main() {
    mc::engine::main("C15", |tier, c| {
        let depth = tier.pick(3, 4);
        c.bound("arrays of six shapes with more than 2^32 (thorough: also around 2^31 and 2^32) rows, bits or list elements, in memory that is hardly touched: exported, imported and read around 2^31, 2^32, 2^33 and the ends");
        c.job("vast", mc::vast::exchanged(tier, true));
        c.bound(format!("every history of up to {depth} operations (and across the 1024-row chunk) of growable arrays of every exportable shape, exported and imported from every state reached: twice at once, again after moving the structures, and with the schema released"));
        c.bound("raw parts of boundary lengths up to 1025 and all lists of up to two rows (thorough: three) over the value alphabet, six kinds of deviating raw parts, six storages");
        macro_rules! v {
            ($t:ty) => {
                c.job(concat!("history/", stringify!($t)), histories::<$t, Arr<$t>>(tier, depth, |_, _| Ok(()), |a, m| {
                    round_windowed::<$t, VecBuffer>(a, m)
                }));
                c.job(concat!("raw/", stringify!($t)), raw::<$t, VecBuffer>(tier));
            };
        }
        mc::shapes_ffi!(v);
        macro_rules! l {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("chunk/", stringify!($t)), long_histories::<$t, Arr<$t>>(tier, |_, _| Ok(()), |a, m| {
                    round::<$t, VecBuffer>(a, m)
                }));
            )*};
        }
        l!(bool, u32, Option<bool>, Option<u8>, [Option<bool>; 3], Vec<Option<u8>>, Option<Vec<bool>>);
        macro_rules! s {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("box/", stringify!($t)), raw::<$t, BoxBuffer>(tier));
                c.job(concat!("rc/", stringify!($t)), raw::<$t, RcBuffer>(tier));
                c.job(concat!("arc/", stringify!($t)), raw::<$t, ArcBuffer>(tier));
                c.job(concat!("slice/", stringify!($t)), raw::<$t, SliceBuffer<'static>>(tier));
                c.job(concat!("array/", stringify!($t)), raw::<$t, ArrayBuffer<4>>(tier));
            )*};
        }
        s!(
            bool, u8, u64, Option<bool>, Option<i32>, [bool; 3], [u16; 2], Option<[u8; 2]>, Vec<bool>, Vec<Option<u8>>,
            Option<Vec<Option<bool>>>, Vec<Vec<u8>>, Option<[Option<[Option<bool>; 2]>; 2]>,
        );
        c.bound("rows that are lists of 65 to 1026 (thorough 0 to 2050) elements at every level of nesting");
        c.bound("wide fixed-size lists: widths 127, 128, 255, 256, 257, 300, 999 and 1000 (thorough: 65536), up to two rows, every kind of deviating raw parts");
        macro_rules! wide {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("wide/", stringify!($t)), raw::<$t, VecBuffer>(tier));
            )*};
        }
        wide!([u8; 127], [u8; 128], [bool; 255], [bool; 256], Option<[u8; 300]>, [Option<bool>; 999], Option<[Option<u16>; 1000]>, [Vec<u8>; 257], Vec<[bool; 256]>, [[u8; 20]; 300]);
        if tier.thorough() {
            wide!([bool; 65536]);
        }
    });
}
