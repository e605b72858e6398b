//! C04: packed bits read back exactly, for every byte content, length and bit offset.
use mc::engine::*;
use mc::items::*;
use mc::{ensure, fail};
use narrow::bitmap::Bitmap;
use narrow::buffer::*;
use narrow::collection::Collection;
use narrow::length::Length;

fn check<S: Home>(b: &Bits) -> R {
    let want = match b.to_bools() {
        Ok(w) => w,
        Err(e) => panic!("engine: {e}"),
    };
    let m: Bitmap<S> = match bitmap_from(b) {
        Ok(m) => m,
        // fixed arrays only
        Err(e) if e.contains("does not fit") => return Ok(()),
        Err(e) => fail!("{b:?}: {e}"),
    };
    no_panic("reading", || {
        ensure!(m.len() == b.len, "{b:?}: length {}", m.len());
        ensure!(m.bit_offset() == b.off, "{b:?}: bit_offset {}", m.bit_offset());
        for (i, w) in want.iter().enumerate() {
            ensure!(m.view(i) == Some(*w), "{b:?}: view({i}) is {:?}", m.view(i));
            ensure!(m.owned(i) == Some(*w), "{b:?}: owned({i}) is {:?}", m.owned(i));
        }
        ensure!(m.view(b.len).is_none(), "{b:?}: view({}) is present", b.len);
        let v: Vec<bool> = m.iter_views().collect();
        ensure!(v == want, "{b:?}: iter_views gives {v:?}");
        let v: Vec<bool> = (&m).into_iter().collect();
        ensure!(v == want, "{b:?}: borrowed into_iter gives {v:?}");
        // starting in the middle
        for k in [1, 7, 8] {
            let v: Vec<bool> = m.iter_views().skip(k).step_by(3).collect();
            let w: Vec<bool> = want.iter().copied().skip(k).step_by(3).collect();
            ensure!(v == w, "{b:?}: iteration from {k} by 3 gives {v:?}");
        }
        let v: Vec<bool> = m.into_iter_owned().collect();
        ensure!(v == want, "{b:?}: into_iter_owned gives {v:?}");
        Ok(())
    })?
}

/// Every content of a buffer of `N` bytes, every window in it.
fn full(n: usize) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        let off = cx.choose(8 * n + 1);
        let len = cx.choose(8 * n + 1 - off);
        let bytes: Vec<u8> = (0..n).map(|_| cx.choose(256) as u8).collect();
        let b = Bits { bytes, len, off };
        cx.note(|| format!("{b:?}"));
        cx.state(hash_of(&b));
        cx.steps(len as u64 * 4);
        check::<VecBuffer>(&b)
    }
}

/// Every window in larger buffers, structured contents, dirt complementary to the window.
fn windows<S: Home>(n: usize, max_len: usize) -> impl Fn(&mut Ctx) -> R {
    move |cx| {
        let off = cx.choose(8 * n + 1);
        let len = cx.choose((8 * n - off).min(max_len) + 1);
        let fill = *cx.pick(&[0_u8, 0xFF]);
        let kind = cx.choose(6);
        let bits: Vec<bool> = (0..len)
            .map(|i| match kind {
                0 => fill == 0,
                1 => i % 2 == 0,
                2 => i == 0 || i + 1 == len,
                3 => i == len / 2,
                4 => i != len / 2,
                _ => mix(i + off) & 1 == 1,
            })
            .collect();
        let extra = n - (off + len).div_ceil(8);
        let b = Bits::from_bools(&bits, off, extra, fill);
        cx.note(|| format!("{b:?}"));
        cx.state(hash_of(&b));
        cx.steps(len as u64 * 4);
        let r = check::<S>(&b);
        leak::free();
        r
    }
}

/// Long windows: both ends at every place of a byte, contents around bytes, words and chunks.
fn long<S: Home>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let lens: &[usize] = if tier.thorough() {
        &[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 65_535, 65_536, 65_537]
    } else {
        &[255, 256, 257, 1023, 1024, 1025, 4097, 65_537]
    };
    move |cx| {
        let len = *cx.pick(lens);
        let off = *cx.pick(&[0, 1, 3, 7, 8, 9, 61, 64, 65, 1023, 1025, 65_533]);
        let fill = *cx.pick(&[0_u8, 0xFF]);
        let odd = match cx.choose(8) {
            0 => None,
            1 => Some(0),
            2 => Some(len - 1),
            3 => Some(len / 2),
            4 => Some(63),
            5 => Some(64),
            6 => Some(1022.min(len - 2)),
            _ => Some(1024.min(len - 1)),
        };
        let bits: Vec<bool> = (0..len).map(|i| match odd {
            None => mix(i + off) & 1 == 1,
            Some(o) => (i == o) == (fill == 0),
        }).collect();
        let b = Bits::from_bools(&bits, off, off % 3, fill);
        cx.note(|| format!("{len} bits at {off}, fill {fill}, odd {odd:?}"));
        cx.state(hash_of(&b));
        cx.steps(len as u64 * 4);
        let r = check::<S>(&b);
        leak::free();
        r.ctx(|| format!("{len} bits at {off}, fill {fill}, odd {odd:?}"))
    }
}

fn main() {
    mc::engine::main("C04", |tier, c| {
        c.bound("all contents of buffers of 0 and 1 bytes, all windows (thorough: also of 2 bytes)");
        c.bound("buffers of 2, 3, 9, 17 bytes: all windows (quick: of up to 35 bits in the largest), 6 contents, dirt 0 and 1 outside the window, 6 storages");
        c.bound("8 (thorough 17) lengths from 255 to 65537 at 12 bit offsets up to 65533, one deviating bit around bytes, words and chunks, 3 storages");
        c.job("long/vec", long::<VecBuffer>(tier));
        c.job("long/arc", long::<ArcBuffer>(tier));
        c.job("long/slice", long::<SliceBuffer<'static>>(tier));
        c.bound("windows of up to 2^33 bits at offsets to 2^32, reads around 2^31, 2^32 and 2^33 and at both ends, with and without a bitmap of validity");
        c.job("vast/bits", mc::vast::bitmaps());
        c.job("full/0", full(0));
        c.job("full/1", full(1));
        if tier.thorough() {
            c.job("full/2", full(2));
        }
        macro_rules! w {
            ($n:literal, $s:ty) => {
                c.job(concat!($n, "/2"), windows::<$s>(2, 16));
                c.job(concat!($n, "/3"), windows::<$s>(3, 24));
                c.job(concat!($n, "/9"), windows::<$s>(9, 72));
                c.job(concat!($n, "/17"), windows::<$s>(17, tier.pick(35, 136)));
            };
        }
        w!("vec", VecBuffer);
        w!("box", BoxBuffer);
        w!("rc", RcBuffer);
        w!("arc", ArcBuffer);
        w!("slice", SliceBuffer<'static>);
        w!("array", ArrayBuffer<17>);
    });
}
