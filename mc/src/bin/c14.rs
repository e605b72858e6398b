//! C14: exported descriptors describe the array exactly, per the Arrow C data interface.
use mc::alloc::*;
use mc::engine::*;
use mc::ffi::*;
use mc::hist::*;
use mc::items::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::*;
use narrow_ffi::{Export, ExportError};

/// Every non-zero bit offset of the raw parts.
fn offsets(p: &Phys, out: &mut Vec<usize>) {
    if let Some(Some(b)) = &p.validity {
        out.push(b.off);
    }
    match &p.body {
        Body::Bool(b) => out.push(b.off),
        Body::Fixed(_, c) | Body::List(_, c) => offsets(c, out),
        Body::Prim(_) => {}
    }
    out.retain(|&o| o != 0);
}

/// Exports an array, compares everything with the rows and with the buffers the array had, and
/// releases it.
fn exported<T: Item, S: Buffer>(a: Array<T, S>, model: &[Val], inline: bool) -> R
where
    Array<T, S>: Export,
{
    let ty = T::ty();
    let (had, off) = exempt(|| {
        let mut off = vec![];
        offsets(&phys(&a), &mut off);
        (places(&a), off)
    });
    let mark = window_mark();
    let r = no_panic("export", || a.export())?;
    let (array, schema) = match r {
        Ok(x) => {
            ensure!(off.is_empty(), "an array with bitmaps at bit offsets {off:?} is exported");
            x
        }
        Err(e) => match e {
            ExportError::NonZeroOffset { offset } => {
                ensure!(off.contains(&offset), "refused for offset {offset}, bitmaps start at {off:?}");
                let s = e.to_string();
                ensure!(s.contains(&offset.to_string()), "message {s:?} does not mention {offset}");
                return Ok(());
            }
            e => fail!("export failed: {e}"),
        },
    };
    ensure!(!array.is_released() && !schema.is_released(), "exported structures are marked released");
    let mut array = take_array(array);
    let mut schema = take_schema(schema);
    exempt(|| check_exported(&ty, &array, &schema, model))?;
    let p = exempt(|| {
        let mut p = vec![];
        pointers(&ty, &array, &mut p);
        p
    });
    ensure!(p.len() == had.len(), "{} buffers exported, the array had {}", p.len(), had.len());
    for (i, (&(at, size), &(role, was, _))) in p.iter().zip(&had).enumerate() {
        if size == 0 {
            continue;
        }
        match window_block(at, size) {
            None => fail!("buffer {i} ({role:?}) of {size} bytes lies in no live block"),
            Some(b) if !inline => {
                ensure!(b < mark, "buffer {i} ({role:?}) lies in memory that was allocated by the export");
                ensure!(at as usize == was, "buffer {i} ({role:?}) was moved by the export");
            }
            Some(_) => {}
        }
    }
    // in either order
    if model.len() % 2 == 0 {
        array.release();
        schema.release();
    } else {
        schema.release();
        array.release();
    }
    ensure!(array.release.is_none() && schema.release.is_none(), "release does not mark the structure released");
    Ok(())
}

/// Runs in a window: what was allocated is freed exactly once at the end.
fn windowed(f: impl FnOnce() -> R) -> R {
    window_open();
    let r = f();
    leak::free();
    let w = window_close();
    r?;
    ensure!(w.clean(), "memory: {w:?}");
    Ok(())
}

fn raw_dirts() -> Vec<Dirt> {
    let d = Dirt::default();
    vec![
        d,
        Dirt { extra: 2, fill: 0xFF, ..d },
        Dirt { extra: 0, fill: 0xFF, ..d },
        Dirt { surplus: 2, fill: 0xFF, extra: 1, junk: true, ..d },
        Dirt { implicit: true, ..d },
        Dirt { implicit: true, surplus: 1, extra: 1, fill: 0xA5, junk: true, ..d },
        Dirt { off_valid: 3, ..d },
        Dirt { off_bool: 6, fill: 0xFF, ..d },
        Dirt { off_valid: 8, ..d },
        Dirt { off_bool: 8, extra: 1, ..d },
        Dirt { off_valid: 1, off_bool: 7, ..d },
        Dirt { off_valid: 13, off_bool: 13, implicit: true, fill: 0xFF, ..d },
        Dirt { off_valid: 64, off_bool: 64, ..d },
    ]
}

fn row_lists<T: Item>(tier: Tier) -> Vec<Vec<Val>> {
    let ty = T::ty();
    if is_wide(&ty) {
        return wide_rows(&ty);
    }
    let mut v = start_rows::<T>(Tier::Thorough);
    let a = alphabet(&ty, true);
    let n = tier.pick(2, 3);
    // all short lists
    let mut short: Vec<Vec<Val>> = vec![vec![]];
    for _ in 0..n {
        let next: Vec<Vec<Val>> = short
            .iter()
            .flat_map(|l| {
                a.iter().map(move |x| {
                    let mut l = l.clone();
                    l.push(x.clone());
                    l
                })
            })
            .collect();
        v.extend(next.iter().cloned());
        short = next;
    }
    let lens: &[usize] = if tier.thorough() { BOUNDARY } else { &[63, 64, 65, 129] };
    for &n in lens.iter().chain(&[1024, 1025]) {
        v.push((0..n).map(|k| sample_val(&ty, k)).collect());
    }
    v.extend(long_lists(&ty, tier));
    v.sort();
    v.dedup();
    v
}

/// From raw parts in any storage.
fn raw<T: Item, S: Home>(tier: Tier, inline: bool) -> impl Fn(&mut Ctx) -> R
where
    Array<T, S>: Export,
{
    let rows = std::sync::OnceLock::new();
    let dirts = raw_dirts();
    move |cx| {
        let rows = cx.pick(rows.get_or_init(|| row_lists::<T>(tier)));
        let d = *cx.pick(&dirts);
        let p = Phys::encode(&T::ty(), rows, &d);
        cx.note(|| format!("{} rows {:?}.., {d:?}", rows.len(), rows.first()));
        cx.state(hash_of(&p));
        cx.steps(1);
        windowed(|| match from_phys::<T, S>(&p) {
            Ok(a) => {
                // Fixed arrays are padded: what they hold is what their raw parts say.
                let model = if inline {
                    match exempt(|| phys(&a).decode(&T::ty(), true)) {
                        Ok(m) => m,
                        Err(e) => fail!("raw parts: {e}"),
                    }
                } else {
                    exempt(|| rows.clone())
                };
                cx.outcome(hash_of(&model));
                exported::<T, S>(a, &model, inline)
            }
            Err(e) if inline => {
                cx.outcome(hash_of(&e));
                Ok(())
            }
            Err(e) => fail!("consistent raw parts refused: {e}"),
        })
        .ctx(|| format!("{} rows, {d:?}", rows.len()))
    }
}

fn main() {
    mc::engine::main("C14", |tier, c| {
        let depth = tier.pick(3, 4);
        c.bound("arrays of six shapes with more than 2^32 (thorough: also around 2^31 and 2^32) rows, bits or list elements, in memory that is hardly touched: exported");
        c.job("vast", mc::vast::exchanged(tier, false));
        c.bound("raw parts in six storages: all short row lists over the value alphabet, boundary lengths up to 1025, thirteen ways the raw parts can deviate (bit offsets 0..64, trailing bytes, dirty padding, list data beyond the last offset, missing bitmaps)");
        c.bound(format!("growable arrays: every history of up to {depth} operations, exported from every state reached; histories across the 1024-row chunk"));
        c.assume("the reader used as oracle (mc/src/ffi.rs) follows the C data interface specification");
        c.job("flags", |cx: &mut Ctx| {
            let all = [
                ("dictionary ordered", narrow_ffi::ARROW_FLAG_DICTIONARY_ORDERED, 1),
                ("nullable", narrow_ffi::ARROW_FLAG_NULLABLE, 2),
                ("map keys sorted", narrow_ffi::ARROW_FLAG_MAP_KEYS_SORTED, 4),
            ];
            let (name, is, want) = *cx.pick(&all);
            cx.state(hash_of(&name));
            cx.step();
            ensure!(is == want, "the flag for {name} is {is}, the specification says {want}");
            Ok(())
        });
        macro_rules! v {
            ($t:ty) => {
                c.job(concat!("vec/", stringify!($t)), raw::<$t, VecBuffer>(tier, false));
                c.job(concat!("history/", stringify!($t)), histories::<$t, Arr<$t>>(tier, depth, |_, _| Ok(()), |a, m| {
                    exported_unwindowed::<$t>(a, m)
                }));
            };
        }
        mc::shapes_ffi!(v);
        macro_rules! l {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("chunk/", stringify!($t)), long_histories::<$t, Arr<$t>>(tier, |_, _| Ok(()), |a, m| {
                    exported_unwindowed::<$t>(a, m)
                }));
            )*};
        }
        l!(bool, Option<bool>, Option<u8>, [Option<bool>; 3], Option<Vec<Option<u8>>>);
        macro_rules! s {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("box/", stringify!($t)), raw::<$t, BoxBuffer>(tier, false));
                c.job(concat!("rc/", stringify!($t)), raw::<$t, RcBuffer>(tier, false));
                c.job(concat!("arc/", stringify!($t)), raw::<$t, ArcBuffer>(tier, false));
                c.job(concat!("slice/", stringify!($t)), raw::<$t, SliceBuffer<'static>>(tier, false));
                c.job(concat!("array/", stringify!($t)), raw::<$t, ArrayBuffer<4>>(tier, true));
            )*};
        }
        s!(
            bool, u8, u64, f64, Option<bool>, Option<u8>, Option<i32>, [bool; 3], [u16; 2], [Option<bool>; 2],
            Option<[bool; 2]>, Option<[u8; 2]>, Vec<bool>, Vec<u16>, Vec<Option<u8>>, Option<Vec<bool>>,
            Option<Vec<Option<bool>>>, [Vec<u8>; 1], Vec<Vec<u8>>, Option<[Option<[Option<bool>; 2]>; 2]>,
        );
        c.bound("rows that are lists of 65 to 1026 (thorough 0 to 2050) elements at every level of nesting");
        c.bound("wide fixed-size lists: widths 127, 128, 255, 256, 257, 300, 999 and 1000 (thorough: 65536), up to two rows, every kind of deviating raw parts");
        c.job("constants", |cx: &mut Ctx| {
            let (what, got, want) = *cx.pick(&[
                ("dictionary ordered", narrow_ffi::ARROW_FLAG_DICTIONARY_ORDERED, 1),
                ("nullable", narrow_ffi::ARROW_FLAG_NULLABLE, 2),
                ("map keys sorted", narrow_ffi::ARROW_FLAG_MAP_KEYS_SORTED, 4),
            ]);
            cx.state(hash_of(&what));
            cx.step();
            ensure!(got == want, "flag {what} is {got}, the specification says {want}");
            Ok(())
        });
        macro_rules! wide {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("wide/", stringify!($t)), raw::<$t, VecBuffer>(tier, false));
            )*};
        }
        wide!([u8; 127], [u8; 128], [bool; 255], [bool; 256], Option<[u8; 300]>, [Option<bool>; 999], Option<[Option<u16>; 1000]>, [Vec<u8>; 257], Vec<[bool; 256]>, [[u8; 20]; 300]);
        if tier.thorough() {
            wide!([bool; 65536]);
        }
    });
}

/// As `exported`, for arrays that were made outside of a window.
fn exported_unwindowed<T: Item>(a: Arr<T>, model: &[Val]) -> R
where
    Arr<T>: Export,
{
    let ty = T::ty();
    let (had, off) = exempt(|| {
        let mut off = vec![];
        offsets(&phys(&a), &mut off);
        (places(&a), off)
    });
    window_open();
    let r = (|| {
        let (array, schema) = match no_panic("export", || a.export())? {
            Ok(x) => {
                ensure!(off.is_empty(), "an array with bitmaps at bit offsets {off:?} is exported");
                x
            }
            Err(ExportError::NonZeroOffset { offset }) => {
                ensure!(off.contains(&offset), "refused for offset {offset}, bitmaps start at {off:?}");
                return Ok(());
            }
            Err(e) => fail!("export failed: {e}"),
        };
        exempt(|| check_exported(&ty, c_array(&array), c_schema(&schema), model))?;
        let p = exempt(|| {
            let mut p = vec![];
            pointers(&ty, c_array(&array), &mut p);
            p
        });
        ensure!(p.len() == had.len(), "{} buffers exported, the array had {}", p.len(), had.len());
        for (i, (&(at, size), &(role, was, held))) in p.iter().zip(&had).enumerate() {
            ensure!(size == 0 || at as usize == was, "buffer {i} ({role:?}) was moved by the export");
            ensure!(size <= held, "buffer {i} ({role:?}) has {held} bytes, {size} are needed");
        }
        Ok(())
    })();
    let w = window_close();
    r?;
    ensure!(w.clean(), "memory: {w:?}");
    Ok(())
}
