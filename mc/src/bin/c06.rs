//! C06: null queries and null counts always agree with the rows.
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::{ensure, fail};
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::*;
use narrow::collection::Collection;
use narrow::length::Length;
use narrow::validity::Validity;

/// The queries against bits known from outside (not only against the rows read back).
fn against<C: Collection, S: Buffer>(v: &Validity<C, S>, bits: &[bool]) -> R {
    no_panic("null queries", || {
        let valid = bits.iter().filter(|&&b| b).count();
        let rows: Vec<bool> = v.iter_views().map(|x| x.is_some()).collect();
        ensure!(rows == bits, "rows are valid {rows:?}, expected {bits:?}");
        ensure!(v.null_count() == bits.len() - valid, "null_count {} of {bits:?}", v.null_count());
        check_nulls_of(v).ctx(|| format!("{bits:?}"))
    })?
}

fn with_bits<S: Home>(b: &Bits) -> R {
    let bits = match b.to_bools() {
        Ok(v) => v,
        Err(e) => panic!("engine: {e}"),
    };
    let bm: Bitmap<S> = match bitmap_from(b) {
        Ok(b) => b,
        Err(e) if e.contains("does not fit") => return Ok(()),
        Err(e) => fail!("{e}"),
    };
    let v: Validity<Vec<u8>, S> = match Validity::try_from_parts(vec![9; b.len], bm) {
        Ok(v) => v,
        Err(e) => fail!("{e}"),
    };
    let r = against(&v, &bits).ctx(|| format!("{b:?}"));
    drop(v);
    leak::free();
    r
}

/// All validity strings, all alignments, dirt of both kinds.
fn strings(max: usize) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        let n = cx.choose(max + 1);
        let bits: Vec<bool> = (0..n).map(|_| cx.flag()).collect();
        let off = cx.choose(10);
        let fill = *cx.pick(&[0_u8, 0xFF]);
        let extra = cx.choose(2);
        let b = Bits::from_bools(&bits, off, extra, fill);
        cx.note(|| format!("{b:?}"));
        cx.state(hash_of(&b));
        cx.steps(n as u64 * 4 + 7);
        with_bits::<VecBuffer>(&b)
    }
}

/// Every alignment of both ends; nothing, everything, one, all but one null, at every position.
fn edges<S: Home>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(35, 80);
    move |cx| {
        let n = cx.choose(max);
        let off = cx.choose(17);
        let fill = *cx.pick(&[0_u8, 0xFF]);
        let extra = cx.choose(2);
        let kind = cx.choose(3);
        let odd = if kind == 0 || n == 0 { usize::MAX } else { cx.choose(n) };
        let bits: Vec<bool> = (0..n)
            .map(|i| match kind {
                0 => fill == 0,
                1 => (i == odd) != (fill == 0),
                _ => (mix(i) & 1 == 1) != (i == odd),
            })
            .collect();
        let b = Bits::from_bools(&bits, off, extra, fill);
        cx.note(|| format!("{b:?}"));
        cx.state(hash_of(&b));
        cx.steps(n as u64 * 4 + 7);
        with_bits::<S>(&b)
    }
}

/// Many rows, far offsets: all alike, one odd row, everything before or after a row, and counts
/// that do not fit a narrower type.
fn long<S: Home>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let lens: &'static [usize] = tier.pick(
        &[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537][..],
        &[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 65_535, 65_536, 65_537, 66_000, 131_072, 131_073][..],
    );
    let offs: &'static [usize] = tier.pick(&[0, 3, 8, 13, 64, 255, 256, 65_533][..], &[0, 1, 3, 7, 8, 13, 63, 64, 255, 256, 263, 8192, 65_533, 65_536][..]);
    move |cx| {
        let n = *cx.pick(lens);
        let off = *cx.pick(offs);
        let fill = *cx.pick(&[0_u8, 0xFF]);
        let kind = cx.choose(4);
        let at = match kind {
            0 => 0,
            _ => [0, 1, 7, 8, 63, 64, 65, 127, 128, 255, 256, 1023, n / 2, n - 65, n - 64, n - 9, n - 8, n - 2, n - 1][cx.choose(19)].min(n - 1),
        };
        let bits: Vec<bool> = (0..n)
            .map(|i| {
                (match kind {
                    0 => false,
                    1 => i == at,
                    2 => i < at,
                    _ => i >= at && mix(i) & 1 == 1,
                }) != (fill == 0)
            })
            .collect();
        let b = Bits::from_bools(&bits, off, cx.choose(2), fill);
        cx.note(|| format!("{n} rows at {off}, stale bytes {fill:#x}, kind {kind} at {at}"));
        cx.state(hash_of(&b));
        cx.steps(n as u64 * 4 + 7);
        let bm: Bitmap<S> = match bitmap_from(&b) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        let r = match Validity::<Vec<u8>, S>::try_from_parts(vec![9; n], bm) {
            Ok(v) => no_panic("null queries", || {
                let valid = bits.iter().filter(|&&b| b).count();
                ensure!(v.null_count() == n - valid, "null_count {}, expected {}", v.null_count(), n - valid);
                for (i, x) in v.iter_views().enumerate() {
                    ensure!(bits.get(i) == Some(&x.is_some()), "row {i} is valid: {}", x.is_some());
                }
                check_nulls_of(&v)
            })?,
            Err(e) => fail!("{e}"),
        };
        leak::free();
        r.ctx(|| format!("{n} rows at bit {off}, kind {kind} at {at}"))
    }
}

fn implicit(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(40, 200);
    move |cx| {
        let n = cx.choose(max);
        cx.state(n as u64);
        cx.steps(7);
        let v: Validity<Vec<u8>> = Validity::from_collection(vec![1; n]);
        against(&v, &vec![true; n])?;
        let v: Validity<Bitmap> = Validity::from_collection((0..n).map(|k| k % 2 == 0).collect());
        ensure!(v.len() == n, "length");
        against(&v, &vec![true; n])
    }
}

fn main() {
    mc::engine::main("C06", |tier, c| {
        let depth = tier.pick(3, 4);
        c.bound("all validity strings up to 9 (thorough 13) rows x 10 bit offsets x surplus bytes x stale bits of both kinds");
        c.bound("all lengths up to 34 (79) x 17 offsets with a single null or valid row at every position, 6 storages; no bitmap up to 39 (199) rows");
        c.bound("17 (23) lengths from 127 to 65537 (131073) x 8 (14) offsets up to 65533 (65536) x stale bits of both kinds x surplus bytes; all rows alike, one odd row, a boundary or a mixed tail at 19 positions; 3 storages");
        c.bound(format!("all histories of up to {depth} operations over every nullable shape (nested levels included), and chunk boundaries; all queries at every row and beyond the end after every operation"));
        c.bound("windows of up to 2^33 bits at offsets to 2^32: rows around 2^31, 2^32, 2^33 and the ends; null counts of more than 2^32 null rows and of more than 2^32 valid rows");
        c.job("vast/bits", mc::vast::bitmaps());
        c.job("vast/counts", mc::vast::counts(tier.thorough()));
        c.job("vast/set-counts", mc::vast::set_counts(tier.thorough()));
        c.job("strings", strings(tier.pick(9, 13)));
        c.job("edges/vec", edges::<VecBuffer>(tier));
        c.job("edges/box", edges::<BoxBuffer>(tier));
        c.job("edges/rc", edges::<RcBuffer>(tier));
        c.job("edges/arc", edges::<ArcBuffer>(tier));
        c.job("edges/slice", edges::<SliceBuffer<'static>>(tier));
        c.job("edges/array", edges::<ArrayBuffer<9>>(tier));
        c.job("many/vec", long::<VecBuffer>(tier));
        c.job("many/arc", long::<ArcBuffer>(tier));
        c.job("many/slice", long::<SliceBuffer<'static>>(tier));
        c.job("implicit", implicit(tier));
        macro_rules! j {
            ($t:ty) => {
                if format!("{:?}", <$t as Item>::ty()).contains("Nullable") {
                    c.job(concat!("history/", stringify!($t)), histories::<$t, Arr<$t>>(tier, depth, |c, _| no_panic("null queries", || c.check_nulls())?, ignore));
                    c.job(concat!("chunk/", stringify!($t)), long_histories::<$t, Arr<$t>>(tier, |c, _| no_panic("null queries", || c.check_nulls())?, ignore));
                }
            };
        }
        mc::shapes_core!(j);
        macro_rules! k {
            ($t:ty) => {
                if format!("{:?}", <$t as Item>::ty()).contains("Nullable") {
                    c.job(concat!("deep/", stringify!($t)), histories::<$t, Arr<$t>>(tier, 2, |c, _| no_panic("null queries", || c.check_nulls())?, ignore));
                }
            };
        }
        mc::shapes_deep!(k);
        macro_rules! r {
            ($t:ty) => {
                if format!("{:?}", <$t as Item>::ty()).contains("Nullable") {
                    c.job(concat!("long/", stringify!($t)), long_rows::<$t, Arr<$t>>(tier, |c, _| no_panic("null queries", || c.check_nulls())?, ignore));
                }
            };
        }
        mc::shapes_lists!(r);
        c.job("history/i64", histories::<Option<Vec<Option<bool>>>, LargeNull<Option<bool>>>(tier, depth, |c, _| no_panic("null queries", || c.check_nulls())?, ignore));
    });
}
