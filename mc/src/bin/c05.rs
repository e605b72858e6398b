//! C05: growing a bitmap preserves what it held and never exposes stale bits.
use mc::engine::*;
use mc::items::*;
use mc::{ensure, fail};
use narrow::bitmap::Bitmap;
use narrow::collection::{Collection, CollectionRealloc};
use narrow::length::Length;

fn same(b: &Bitmap, want: &[bool], start: &Bits) -> R {
    ensure!(b.len() == want.len(), "length is {}, expected {}", b.len(), want.len());
    let v: Vec<bool> = b.iter_views().collect();
    ensure!(v == want, "bits are {v:?}, expected {want:?}");
    for (i, w) in want.iter().enumerate() {
        ensure!(b.view(i) == Some(*w), "view({i}) is {:?}", b.view(i));
    }
    ensure!(b.view(want.len()).is_none(), "a bit beyond the end is visible");
    let now = bits_of(b);
    ensure!(now.off == start.off, "bit offset moved from {} to {}", start.off, now.off);
    for i in 0..start.off {
        let old = start.bytes[i / 8] >> (i % 8) & 1;
        let new = now.bytes.get(i / 8).map(|b| b >> (i % 8) & 1);
        ensure!(new == Some(old), "bit {i} before the window changed");
    }
    let r = now.to_bools();
    ensure!(r.as_deref() == Ok(want), "raw bytes hold {r:?}, expected {want:?}");
    Ok(())
}

fn grow(b: &mut Bitmap, how: usize, bits: &[bool]) -> R {
    no_panic("growing", || match how {
        0 => b.extend(bits.iter().copied()),
        1 => b.extend(bits.iter()),
        _ => {
            let _ = b.try_extend(bits.iter().copied());
        }
    })
}

/// Small dirty windows, then `rounds` appends with truncations between them.
fn small(max_bytes: usize, max_add: usize, rounds: usize) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        let n = cx.choose(max_bytes + 1);
        let off = cx.choose(8 * n + 1);
        let len = cx.choose(8 * n + 1 - off);
        let fill = *cx.pick(&[0xFF, 0x00]);
        let mut want: Vec<bool> = (0..len).map(|i| mix(i + 3) & 1 == 1).collect();
        let extra = n - (off + len).div_ceil(8);
        let start = Bits::from_bools(&want, off, extra, fill);
        let mut b: Bitmap = match bitmap_from(&start) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        let mut log = format!("{start:?}");
        cx.note(|| format!("{start:?}"));
        for r in 0..rounds {
            if r > 0 && cx.flag() {
                let k = cx.choose(want.len().min(18) + 1);
                let to = want.len() - k;
                log += &format!(", truncate {to}");
                no_panic("truncate", || b.truncate(to))?;
                want.truncate(to);
                same(&b, &want, &start).ctx(|| log.clone())?;
            }
            let m = cx.choose(max_add + 1);
            let add: Vec<bool> = (0..m).map(|_| cx.flag()).collect();
            let how = cx.choose(3);
            log += &format!(", append {add:?} by {how}");
            grow(&mut b, how, &add).ctx(|| log.clone())?;
            want.extend(&add);
            cx.step();
            same(&b, &want, &start).ctx(|| log.clone())?;
            let now = bits_of(&b);
            cx.merge(hash_of(&(&now, &want, &start)), (rounds - r) as u32)?;
        }
        cx.note(|| log.clone());
        let v: Vec<bool> = b.into_iter_owned().collect();
        ensure!(v == want, "{log}: into_iter_owned gives {v:?}, expected {want:?}");
        Ok(())
    }
}

/// Boundary lengths: every alignment of the end against every appended length.
fn aligned(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let adds: Vec<usize> = (0..tier.pick(35, 140)).collect();
    let offs: &[usize] = if tier.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17] } else { &[0, 1, 5, 7, 8, 11] };
    let max = tier.pick(25, 72);
    move |cx| {
        let off = *cx.pick(offs);
        let len = cx.choose(max);
        let extra = *cx.pick(&[0, 1, 2, 5]);
        let fill = *cx.pick(&[0xFF_u8, 0x00]);
        let m = *cx.pick(&adds);
        let how = cx.choose(3);
        let mut want: Vec<bool> = (0..len).map(|i| mix(i) & 1 == 1).collect();
        let start = Bits::from_bools(&want, off, extra, fill);
        let mut b: Bitmap = match bitmap_from(&start) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        let add: Vec<bool> = (0..m).map(|i| mix(i + 77) & 2 == 2 || (fill == 0 && i + 1 == m)).collect();
        cx.note(|| format!("{start:?}, append {m} bits by {how}"));
        cx.state(hash_of(&(&start, m, how)));
        cx.steps(2);
        grow(&mut b, how, &add)?;
        want.extend(&add);
        same(&b, &want, &start).ctx(|| format!("{start:?}, append {add:?} by {how}"))?;
        // stale bits of a truncation must not come back
        let cut = want.len() - want.len() / 3;
        no_panic("truncate", || b.truncate(cut))?;
        want.truncate(cut);
        let add: Vec<bool> = (0..11).map(|i| (i % 3 == 0) == (fill == 0)).collect();
        grow(&mut b, (how + 1) % 3, &add)?;
        want.extend(&add);
        same(&b, &want, &start).ctx(|| format!("{start:?}, append {m} by {how}, truncate {cut}, append {add:?}"))
    }
}

/// Long windows and long appends.
fn long(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let lens: &[usize] = tier.pick(&[0, 3, 63, 64, 1021, 1024, 4099], &[0, 3, 7, 8, 63, 64, 65, 255, 1021, 1023, 1024, 1025, 4099, 65_537]);
    let adds: &[usize] = tier.pick(&[1, 64, 257, 1023, 1025, 8193], &[1, 2, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4097, 8193, 65_537]);
    move |cx| {
        let off = *cx.pick(&[0, 1, 7, 8, 63, 1029]);
        let (len, m) = (*cx.pick(lens), *cx.pick(adds));
        let extra = *cx.pick(&[0, 1, 200]);
        let fill = *cx.pick(&[0xFF_u8, 0x00]);
        let how = cx.choose(3);
        let mut want: Vec<bool> = (0..len).map(|i| mix(i) & 1 == 1).collect();
        let start = Bits::from_bools(&want, off, extra, fill);
        let mut b: Bitmap = match bitmap_from(&start) {
            Ok(b) => b,
            Err(e) => fail!("{e}"),
        };
        let what = || format!("{len} bits at {off}, {extra} surplus bytes of {fill}, append {m} by {how}");
        cx.note(what);
        cx.state(hash_of(&what()));
        cx.steps(3);
        let add: Vec<bool> = (0..m).map(|i| mix(i + 77) & 2 == 2).collect();
        grow(&mut b, how, &add).ctx(what)?;
        want.extend(&add);
        same(&b, &want, &start).ctx(what)?;
        let cut = want.len() - m.min(700) / 2;
        no_panic("truncate", || b.truncate(cut))?;
        want.truncate(cut);
        grow(&mut b, (how + 1) % 3, &add).ctx(what)?;
        want.extend(&add);
        same(&b, &want, &start).ctx(|| format!("{}, truncate {cut}, append again", what()))
    }
}

fn main() {
    mc::engine::main("C05", |tier, c| {
        c.bound("all windows of buffers of up to 2 bytes with stale bits 0 and 1; one append of all bit strings up to 7 (thorough 10) bits; two appends of up to 3 (5) bits, all truncations between them; thorough: three appends of up to 2 bits");
        c.bound("all ends modulo 8 up to 25 (72) bits x 6 (13) offsets x 4 surplus sizes x appended lengths up to 34 (139), then a truncation and another append");
        c.job("one", small(2, tier.pick(7, 10), 1));
        c.job("one/3bytes", small(3, tier.pick(4, 8), 1));
        c.job("two", small(tier.pick(1, 2), tier.pick(3, 4), 2));
        c.job("two/long", small(1, tier.pick(4, 5), 2));
        if tier.thorough() {
            c.job("three", small(1, 2, 3));
        }
        c.bound("7 (14) lengths to 4099 (65537) x 6 offsets x 6 (14) appended lengths to 8193 (65537) x 3 surplus sizes, then a truncation and another append");
        c.job("long", long(tier));
        c.job("aligned", aligned(tier));
        c.bound("bitmaps that end within 10 bits of 2^31 and 2^32 x 3 offsets x 3 surplus sizes x 4 appended lengths x 4 ways to grow, after a truncation or not");
        c.job("vast/growth", mc::vast::growth());
    });
}
