//! C02: any history of growing, shrinking and reserving behaves like a plain list.
use mc::hist::*;
use mc::items::*;
use mc::reads::*;

fn main() {
    mc::engine::main("C02", |tier, c| {
        let depth = 3;
        let core = tier.pick(3, 4);
        c.bound(format!("all sequences of up to {core} operations (core shapes) or {depth} (nested shapes) over extend/try_extend with 4 (thorough 6) batches, 4 (7) truncations (one of them a run of about 25 lengths beyond the end that are small in a narrower type or when scaled), reserve/try_reserve and unwrap+rewrap, from every start state: default, with_capacity, collected, one by one, and raw parts under 8 kinds of dirt"));
        c.bound("histories of up to two extensions and a truncation around multiples of the 1024-row chunk");
        c.bound("core shapes over 65 535 and 65 536 rows (thorough 7 lengths to 131 073), collected or raw: extension by 1 and 65 537 rows (thorough 5), truncation around 65 536, extension");
        c.bound("histories of rows that are lists of 0 to 2049 elements around byte, word and chunk boundaries, at every level of nesting");
        c.bound("fixed-size rows of 31 to 1030 items (9 shapes): every start and one (thorough two) operations");
        c.assume("row values outside the alphabets behave like those inside");
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("core/", stringify!($t)), histories::<$t, Arr<$t>>(tier, core, check_reads, check_into));
                c.job(concat!("chunk/", stringify!($t)), long_histories::<$t, Arr<$t>>(tier, check_reads, check_into));
                c.job(concat!("huge/", stringify!($t)), huge_histories::<$t, Arr<$t>>(tier, check_reads, check_into));
            };
        }
        mc::shapes_core!(j);
        macro_rules! k {
            ($t:ty) => {
                c.job(concat!("deep/", stringify!($t)), histories::<$t, Arr<$t>>(tier, depth, check_reads, check_into));
            };
        }
        mc::shapes_deep!(k);
        macro_rules! r {
            ($t:ty) => {
                c.job(concat!("long/", stringify!($t)), long_rows::<$t, Arr<$t>>(tier, check_reads, check_into));
            };
        }
        macro_rules! wide {
            ($t:ty) => {
                c.job(concat!("wide/", stringify!($t)), histories::<$t, Arr<$t>>(tier, tier.pick(1, 2), check_reads, check_into));
            };
        }
        mc::shapes_wide!(wide);
        mc::shapes_lists!(r);
        macro_rules! m {
            ($t:ty, $c:ty) => {
                c.job(concat!("plain/", stringify!($c)), plain_histories::<$t, $c>(tier, tier.pick(2, 3)));
            };
        }
        mc::compositions!(m);
        macro_rules! l {
            ($n:literal, $t:ty, $c:ty) => {
                c.job(concat!("i64/", $n), histories::<$t, $c>(tier, core, check_reads, check_into));
                c.job(concat!("i64-long/", $n), long_rows::<$t, $c>(tier, check_reads, check_into));
            };
        }
        l!("Vec<u8>", Vec<u8>, Large<u8>);
        l!("Vec<Option<bool>>", Vec<Option<bool>>, Large<Option<bool>>);
        l!("Option<Vec<u16>>", Option<Vec<u16>>, LargeNull<u16>);
    });
}
