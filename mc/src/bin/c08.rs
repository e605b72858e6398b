//! C08: the memory of every array is laid out as the Arrow columnar format prescribes.
use mc::engine::*;
use mc::hist::*;
use mc::items::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::BoxBuffer;

/// Decodes the raw parts with the independent reader.
fn decode<T: Item, C: Column<T>>(c: &C, model: &[Val]) -> R {
    let p = no_panic("raw parts", || c.phys())?;
    match p.decode(&T::ty_of::<C>(), true) {
        Ok(rows) => ensure!(rows == model, "raw parts {p:?} hold {rows:?}, expected {model:?}"),
        Err(e) => fail!("raw parts {p:?}: {e}"),
    }
    Ok(())
}

trait TyOf: Item {
    fn ty_of<C: Column<Self>>() -> Ty {
        C::col_ty()
    }
}
impl<T: Item> TyOf for T {}

fn built<T: Item, C: Column<T>>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let alpha = T::alphabet(true);
    let len = match alpha.len() {
        0..=3 => tier.pick(5, 8),
        4..=6 => tier.pick(3, 5),
        _ => tier.pick(3, 4),
    };
    let mut lens = BOUNDARY.to_vec();
    lens.extend_from_slice(&[1023, 1024, 1025]);
    move |cx| {
        let rows: Vec<T> = match cx.choose(3) {
            0 => {
                let n = cx.choose(len + 1);
                (0..n).map(|_| cx.pick(&alpha).clone()).collect()
            }
            1 => (0..*cx.pick(&lens)).map(T::nth).collect(),
            _ => {
                let n = *cx.pick(BOUNDARY);
                let mut v = vec![alpha[0].clone(); n];
                if n > 0 {
                    v[cx.choose(n)] = alpha[1 % alpha.len()].clone();
                }
                v
            }
        };
        let how = *cx.pick(HOWS);
        let model = vals(&rows);
        cx.note(|| format!("{how:?} of {} rows, hash {:x}", model.len(), hash_of(&model)));
        cx.state(hash_of(&(&model, format!("{how:?}"))));
        cx.steps(1);
        let c: C = build(how, rows)?;
        decode(&c, &model).ctx(|| format!("{how:?}"))
    }
}

fn boxed<T: Item>(tier: Tier) -> impl Fn(&mut Ctx) -> R
where
    Array<T, BoxBuffer>: FromIterator<T>,
{
    let alpha = T::alphabet(true);
    let len = tier.pick(3, 5);
    move |cx| {
        let rows: Vec<T> = if cx.flag() {
            (0..*cx.pick(BOUNDARY)).map(T::nth).collect()
        } else {
            let n = cx.choose(len + 1);
            (0..n).map(|_| cx.pick(&alpha).clone()).collect()
        };
        let model = vals(&rows);
        cx.note(|| format!("{model:?}"));
        cx.state(hash_of(&model));
        cx.steps(1);
        let a: Array<T, BoxBuffer> = no_panic("building", || rows.into_iter().collect())?;
        let p = phys(&a);
        let got = p.decode(&T::ty(), true).or_else(|e| violation(format!("{p:?}: {e}")))?;
        ensure!(got == model, "raw parts {p:?} hold {got:?}, expected {model:?}");
        Ok(())
    }
}

fn main() {
    mc::engine::main("C08", |tier, c| {
        let depth = tier.pick(3, 4);
        c.bound("all row lists up to length 3 to 5 (thorough 4 to 8) per shape, boundary lengths 0..129 and around 1024 with one deviating row at every position, through 20 constructors");
        c.bound(format!("all histories of up to {depth} (nested shapes 3) operations from every start state, decoded after every operation, and histories across the 1024-row chunk"));
        c.bound("core shapes over 65 535 and 65 536 rows (thorough 7 lengths to 131 073), collected or raw: extension, truncation around 65 536, extension");
        c.bound("histories of rows that are lists of 0 to 2049 elements, at every level of nesting");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): every start and one (thorough two) operations");
        macro_rules! f {
            ($t:ty) => {
                c.job(concat!("flat/", stringify!($t)), built::<$t, Arr<$t>>(tier));
            };
        }
        mc::shapes_flat!(f);
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("built/", stringify!($t)), built::<$t, Arr<$t>>(tier));
                c.job(concat!("history/", stringify!($t)), histories::<$t, Arr<$t>>(tier, depth, decode::<$t, Arr<$t>>, ignore));
                c.job(concat!("chunk/", stringify!($t)), long_histories::<$t, Arr<$t>>(tier, decode::<$t, Arr<$t>>, ignore));
                c.job(concat!("huge/", stringify!($t)), huge_histories::<$t, Arr<$t>>(tier, decode::<$t, Arr<$t>>, ignore));
            };
        }
        mc::shapes_core!(j);
        macro_rules! k {
            ($t:ty) => {
                c.job(concat!("built/", stringify!($t)), built::<$t, Arr<$t>>(tier));
                c.job(concat!("history/", stringify!($t)), histories::<$t, Arr<$t>>(tier, 3, decode::<$t, Arr<$t>>, ignore));
            };
        }
        mc::shapes_deep!(k);
        macro_rules! r {
            ($t:ty) => {
                c.job(concat!("long/", stringify!($t)), long_rows::<$t, Arr<$t>>(tier, decode::<$t, Arr<$t>>, ignore));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), histories::<$t, Arr<$t>>(tier, tier.pick(1, 2), decode::<$t, Arr<$t>>, ignore));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_lists!(r);
        macro_rules! l {
            ($n:literal, $t:ty, $c:ty) => {
                c.job(concat!("i64-built/", $n), built::<$t, $c>(tier));
                c.job(concat!("i64-history/", $n), histories::<$t, $c>(tier, depth, decode::<$t, $c>, ignore));
                c.job(concat!("i64-long/", $n), long_rows::<$t, $c>(tier, decode::<$t, $c>, ignore));
            };
        }
        l!("Vec<u8>", Vec<u8>, Large<u8>);
        l!("Vec<Option<bool>>", Vec<Option<bool>>, Large<Option<bool>>);
        l!("Option<Vec<u16>>", Option<Vec<u16>>, LargeNull<u16>);
        macro_rules! b {
            ($t:ty) => {
                c.job(concat!("box/", stringify!($t)), boxed::<$t>(tier));
            };
        }
        b!(bool); b!(u8); b!(i64); b!(f64); b!([bool; 3]); b!([u16; 2]); b!([[bool; 2]; 3]);
    });
}
