//! C07: raw parts are accepted exactly when consistent, and come back unchanged.
use mc::engine::*;
use mc::hist::{dirts, start_rows};
use mc::items::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, BitmapError};
use narrow::buffer::*;
use narrow::collection::Collection;
use narrow::collection::flatten::{Flatten, FlattenError};
use narrow::length::Length;
use narrow::offset::{Offset, Offsets, OffsetsError};
use narrow::validity::{Validity, ValidityError};
use std::borrow::Borrow;

fn tells(e: &dyn std::fmt::Display, numbers: &[usize]) -> R {
    let s = e.to_string();
    for n in numbers {
        ensure!(s.contains(&n.to_string()), "message {s:?} does not mention {n}");
    }
    Ok(())
}

/// Small buffers and every window; `big`: large buffers and windows that end around theirs, or
/// around that plus a power of two.
fn bitmap<S: Home>(tier: Tier, big: bool) -> impl Fn(&mut Ctx) -> R
where
    S::For<u8>: std::fmt::Debug,
{
    let sizes = [5_usize, 8, 9, 31, 32, 33, 255, 256, 257, 1023, 1024, 8191, 8192, 8193, 65_535, 65_536, 65_537];
    let mut odd: Vec<usize> = (0..tier.pick(36, 60)).collect();
    odd.extend((0..24).map(|k| usize::MAX - k));
    for s in [31, 32, 60, 61, 62, 63] {
        odd.extend([(1_usize << s) - 1, 1 << s, (1 << s) + 1]);
    }
    move |cx| {
        let (n, bits, off) = if big {
            let n = *cx.pick(&sizes);
            let bits = [0, 1, 7, 8, 63, 64, 65, 255, 256, 8 * n - 1, 8 * n, 8 * n + 1, 4 * n, (8 * n).saturating_sub(64)][cx.choose(14)];
            let plus = [0, 8, 64, 256, 2048, 65_536, 1 << 31, 1 << 32, 1 << 35, 1 << 61, 1 << 63][cx.choose(11)];
            let end = (8 * n + 3).wrapping_sub(cx.choose(7)).wrapping_add(plus);
            (n, bits, end.wrapping_sub(bits))
        } else {
            (cx.choose(5), *cx.pick(&odd), *cx.pick(&odd))
        };
        cx.note(|| format!("{n} bytes, {bits} bits at {off}"));
        cx.state(hash_of(&(n, bits, off)));
        cx.steps(1);
        let bytes: Vec<u8> = (0..n).map(|k| mix(k) as u8).collect();
        let Some(buf) = S::home(bytes.clone(), 0xC3_u8) else { return Ok(()) };
        let held = buf.borrow().len();
        let all = buf.borrow().to_vec();
        let fits = bits as u128 + off as u128 <= 8 * held as u128;
        let r = match no_panic("try_from_parts", || Bitmap::<S>::try_from_parts(buf, bits, off))? {
            Ok(b) => {
                ensure!(fits, "{bits} bits at {off} accepted in {held} bytes");
                ensure!(b.len() == bits && b.bit_offset() == off, "wrong length or offset");
                let got: Vec<bool> = b.iter_views().collect();
                let want: Vec<bool> = (0..bits).map(|i| all[(off + i) / 8] >> ((off + i) % 8) & 1 == 1).collect();
                ensure!(got == want, "reads {got:?}, expected {want:?}");
                let (buf, b2, o2) = b.into_parts();
                ensure!(buf.borrow() == &all[..] && b2 == bits && o2 == off, "parts changed: {buf:?}, {b2}, {o2}");
                Ok(())
            }
            Err(e) => {
                ensure!(!fits, "{bits} bits at {off} refused in {held} bytes: {e}");
                let BitmapError::OutOfBounds { offset, bits: b, bytes } = e;
                ensure!(offset == off && b == bits && bytes == held, "error has wrong numbers: {e:?}");
                tells(&e, &[off, bits, held])
            }
        };
        leak::free();
        r
    }
}

fn validity(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(20, 40);
    move |cx| {
        let (n, m) = if cx.flag() {
            let n = [0, 1, 5, 255, 256, 1023, 1024, 65_530][cx.choose(8)];
            let d = [0, 1, 8, 256, 1024, 65_536][cx.choose(6)];
            if cx.flag() { (n, n + d) } else { (n + d, n) }
        } else {
            (cx.choose(max), cx.choose(max))
        };
        let kind = cx.choose(4);
        let off = cx.choose(3) * 5;
        cx.note(|| format!("{n} values, {m} validity bits, kind {kind}"));
        cx.state(hash_of(&(n, m, kind, off)));
        cx.steps(1);
        let bits: Vec<bool> = (0..m).map(|k| mix(k) & 1 == 1).collect();
        let raw = Bits::from_bools(&bits, off, 1, 0xFF);
        let b: Bitmap = bitmap_from(&raw).or_else(violation)?;
        fn go<C: Collection>(c: C, b: Bitmap, n: usize, bits: &[bool], raw: &Bits, same: impl FnOnce(C) -> bool) -> R {
            match no_panic("try_from_parts", || Validity::<C>::try_from_parts(c, b))? {
                Ok(v) => {
                    ensure!(n == bits.len(), "{n} values accepted with {} validity bits", bits.len());
                    let got: Vec<bool> = v.iter_views().map(|x| x.is_some()).collect();
                    ensure!(v.len() == n && got == bits, "reads {got:?}, expected {bits:?}");
                    let (c, b) = v.into_parts();
                    ensure!(same(c), "values changed");
                    let b = b.as_ref().map(bits_of);
                    ensure!(b.as_ref() == Some(raw), "bitmap changed: {b:?}");
                    Ok(())
                }
                Err(e) => {
                    ensure!(n != bits.len(), "{n} values refused with as many validity bits: {e}");
                    let ValidityError::LengthMismatch { collection, bitmap } = e;
                    ensure!(collection == n && bitmap == bits.len(), "error has wrong numbers: {e:?}");
                    tells(&e, &[n, bits.len()])
                }
            }
        }
        match kind {
            0 => {
                let v: Vec<u16> = (0..n).map(|k| k as u16).collect();
                go(v.clone(), b, n, &bits, &raw, |c| c == v)
            }
            1 => {
                let r2 = Bits::from_bools(&vec![true; n], 3, 1, 0);
                let c: Bitmap = bitmap_from(&r2).or_else(violation)?;
                go(c, b, n, &bits, &raw, |c| bits_of(&c) == r2)
            }
            2 => {
                let v: Vec<u8> = (0..3 * n).map(|k| k as u8).collect();
                let f = match Flatten::<Vec<u8>, 3>::try_from_parts(v.clone()) {
                    Ok(f) => f,
                    Err(e) => fail!("{e}"),
                };
                go(f, b, n, &bits, &raw, |c| c.into_parts() == v)
            }
            _ => {
                let o: Vec<i32> = (0..=n as i32).collect();
                let v: Vec<u8> = vec![7; n];
                let f = match Offsets::<Vec<u8>>::try_from_parts(v.clone(), o.clone()) {
                    Ok(f) => f,
                    Err(e) => fail!("{e}"),
                };
                go(f, b, n, &bits, &raw, |c| c.into_parts() == (v, o))
            }
        }
    }
}

/// Offset buffers over an alphabet with every kind of defect.
fn offsets<O: Offset + TryFrom<i64> + Into<i64>, S: Home>(tier: Tier, long: bool) -> impl Fn(&mut Ctx) -> R {
    let (min, max) = if size_of::<O>() == 4 {
        (i64::from(i32::MIN), i64::from(i32::MAX))
    } else {
        (i64::MIN, i64::MAX)
    };
    let mut alpha = vec![0, 1, 2, 3, -1, min, max];
    // the same as another value in a narrower type
    alpha.extend(if size_of::<O>() == 4 { [256, 65_537, -65_536] } else { [1 << 32, (1 << 32) + 1, -(1 << 32)] });
    if tier.thorough() {
        alpha.extend([4, max - 1, min + 1, -3]);
    }
    let longest = 4;
    move |cx| {
        let (raw, dl): (Vec<i64>, usize) = if long {
            // long buffers with a single defect at every position
            let n = if cx.flag() { cx.choose(tier.pick(70, 140)) + 1 } else { [255, 256, 257, 1023, 1024, 1025, 2049, 4097][cx.choose(8)] };
            let mut raw: Vec<i64> = (0..n as i64).map(|k| k - k / 3).collect();
            let dl = (raw[n - 1] as usize + 1).saturating_sub(cx.choose(3));
            let at = if n <= 140 { cx.choose(n) } else { [0, 1, 7, 8, 63, 64, 65, 254, n / 2, n - 2, n - 1][cx.choose(11)] };
            match cx.choose(5) {
                0 => {}
                1 => raw[at] -= 2,
                2 => raw[at] = -1,
                3 => raw[at] += 2,
                _ => raw[at] = max,
            }
            (raw, dl)
        } else {
            let n = cx.choose(longest + 2);
            ((0..n).map(|_| *cx.pick(&alpha)).collect(), cx.choose(5))
        };
        cx.note(|| format!("{raw:?} over {dl} values"));
        cx.state(hash_of(&(&raw, dl)));
        cx.steps(1);
        let data: Vec<u16> = (0..dl as u16).map(|k| k.wrapping_add(40)).collect();
        let offs: Vec<O> = raw
            .iter()
            .map(|&x| O::try_from(x).unwrap_or_else(|_| panic!("engine: offset")))
            .collect();
        let Some(buf) = S::home(offs, O::default()) else { return Ok(()) };
        let raw: Vec<i64> = buf.borrow().iter().map(|&x| x.into()).collect();
        let monotonic = |i: usize| i == 0 || raw[i] >= raw[i - 1];
        let consistent = !raw.is_empty()
            && raw[0] == 0
            && (0..raw.len()).all(|i| raw[i] >= 0 && monotonic(i))
            && raw[raw.len() - 1] <= dl as i64;
        let r = match no_panic("try_from_parts", || Offsets::<Vec<u16>, O, S>::try_from_parts(data.clone(), buf))? {
            Ok(l) => {
                ensure!(consistent, "accepted");
                ensure!(l.len() == raw.len() - 1, "length {}", l.len());
                for i in 0..l.len() {
                    let want = &data[raw[i] as usize..raw[i + 1] as usize];
                    let got = no_panic("owned", || l.owned(i))?;
                    ensure!(got.as_deref() == Some(want), "row {i} is {got:?}, expected {want:?}");
                }
                let (d, o) = l.into_parts();
                let o: Vec<i64> = o.borrow().iter().map(|&x| x.into()).collect();
                ensure!(d == data && o == raw, "parts changed: {d:?} {o:?}");
                Ok(())
            }
            Err(e) => {
                ensure!(!consistent, "refused: {e}");
                match e {
                    OffsetsError::Empty => ensure!(raw.is_empty(), "called empty"),
                    OffsetsError::NonZeroFirst { first } => {
                        ensure!(raw.first().is_some_and(|&f| f != 0 && f == first as i64 && f > 0), "wrong error {e:?}");
                        tells(&e, &[first])?;
                    }
                    OffsetsError::Negative { index } => {
                        ensure!(raw.get(index).is_some_and(|&x| x < 0), "wrong error {e:?}");
                        tells(&e, &[index])?;
                    }
                    OffsetsError::NonMonotonic { index } => {
                        ensure!(index > 0 && index < raw.len() && raw[index] < raw[index - 1], "wrong error {e:?}");
                        tells(&e, &[index])?;
                    }
                    OffsetsError::OutOfBounds { last, data } => {
                        ensure!(raw.last() == Some(&(last as i64)) && data == dl && last > data, "wrong error {e:?}");
                        tells(&e, &[last, data])?;
                    }
                }
                Ok(())
            }
        };
        leak::free();
        r.ctx(|| format!("{raw:?} over {dl} values"))
    }
}

fn flatten<const N: usize>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let max = tier.pick(40, 130);
    move |cx| {
        let n = if cx.flag() {
            let k = [1, 2, 3, 128, 256, 1024][cx.choose(6)];
            (k * N.max(1) + 2).saturating_sub(cx.choose(5))
        } else {
            cx.choose(max)
        };
        let kind = cx.choose(3);
        cx.note(|| format!("{n} values in rows of {N}, kind {kind}"));
        cx.state(hash_of(&(n, N, kind)));
        cx.steps(1);
        fn go<C: Collection<Owned: Clone + PartialEq + std::fmt::Debug>, const N: usize>(c: C, all: &[C::Owned], same: impl FnOnce(C) -> bool) -> R {
            let n = all.len();
            match no_panic("try_from_parts", || Flatten::<C, N>::try_from_parts(c))? {
                Ok(f) => {
                    ensure!(N > 0 && n % N == 0, "{n} values accepted in rows of {N}");
                    ensure!(f.len() == n / N, "length {}", f.len());
                    for i in 0..n / N {
                        let got = no_panic("owned", || f.owned(i))?;
                        let want = &all[i * N..(i + 1) * N];
                        ensure!(got.as_ref().map(|g| &g[..]) == Some(want), "row {i} is {got:?}");
                    }
                    ensure!(same(f.into_parts()), "child changed");
                    Ok(())
                }
                Err(e) => {
                    ensure!(N == 0 || n % N != 0, "{n} values refused in rows of {N}: {e}");
                    match e {
                        FlattenError::ZeroChunkSize => ensure!(N == 0, "wrong error {e:?}"),
                        FlattenError::NotMultiple { len, n: w } => {
                            ensure!(N != 0 && len == n && w == N, "wrong error {e:?}");
                            tells(&e, &[n, N])?;
                        }
                    }
                    Ok(())
                }
            }
        }
        match kind {
            0 => {
                let v: Vec<u16> = (0..n).map(|k| k as u16).collect();
                go::<_, N>(v.clone(), &v, |c| c == v)
            }
            1 => {
                let v: Vec<bool> = (0..n).map(|k| mix(k) & 1 == 1).collect();
                let raw = Bits::from_bools(&v, 5, 1, 0xFF);
                let b: Bitmap = bitmap_from(&raw).or_else(violation)?;
                go::<_, N>(b, &v, |c| bits_of(&c) == raw)
            }
            _ => {
                let v: Vec<Option<u8>> = (0..n).map(|k| (mix(k) & 1 == 1).then_some(k as u8)).collect();
                let c: Validity<Vec<u8>> = v.iter().copied().collect();
                go::<_, N>(c, &v, |c| c.into_iter_owned().eq(v.iter().copied()))
            }
        }
    }
}

/// Whole columns: dirty but consistent parts are accepted at every level, read as described, and
/// come apart into the same parts.
fn whole<T: Item, S: Home + 'static>(tier: Tier) -> impl Fn(&mut Ctx) -> R {
    let mut states: Vec<(Vec<Val>, Phys)> = vec![];
    for rows in start_rows::<T>(tier).into_iter().chain(long_lists(&T::ty(), tier)) {
        for d in dirts() {
            let p = Phys::encode(&T::ty(), &rows, &d);
            if !states.iter().any(|s| s.1 == p) {
                states.push((rows.clone(), p));
            }
        }
    }
    move |cx| {
        let (rows, p) = cx.pick(&states);
        cx.note(|| format!("{p:?}"));
        cx.state(hash_of(p));
        cx.steps(2);
        let a: Array<T, S> = match from_phys(p) {
            Ok(a) => a,
            Err(e) => fail!("consistent parts refused: {e}"),
        };
        mc::reads::check_reads(&a, rows).ctx(|| format!("{p:?}"))?;
        let now = phys(&a);
        ensure!(now == *p, "parts {p:?} became {now:?}");
        let a = match no_panic("rewrap", || <T as Item>::rewrap::<S>(a.into_buffer()))? {
            Ok(m) => Array::<T, S>::from_buffer(m),
            Err(e) => fail!("{p:?}: {e}"),
        };
        let now = phys(&a);
        ensure!(now == *p, "parts {p:?} became {now:?} on rewrapping");
        mc::reads::check_all(a, rows).ctx(|| format!("{p:?}"))?;
        leak::free();
        Ok(())
    }
}

fn main() {
    mc::engine::main("C07", |tier, c| {
        c.bound("bitmaps: 0..4 bytes x all (bits, offset) pairs over 0..35 and values around every wrap-around, 4 storages; 17 sizes from 5 to 65537 bytes x 14 lengths x ends around the end of the bytes, and around that plus 10 powers of two");
        c.bound("validity: all length pairs up to 19 (39), and 8 lengths up to 65530 that differ by 0, 1 or a power of two, x 4 kinds of values; fixed-size lists: widths 0,1,2,3,5,8,127,256,257 x all child lengths up to 39 (129) and around 1 to 1024 rows x 3 kinds of child");
        c.bound("offsets: all buffers of up to 5 entries over 10 (14) values (negative, extreme, equal, decreasing, overlong, alike in a narrower type) x data of 0..4 values, both widths, 3 storages; buffers of up to 70 (140) entries with one defect of 4 kinds at every position, of up to 4097 at 11 positions");
        c.bound("columns of every shape, rows that are long lists included, from 8 kinds of dirty parts");
        c.job("bitmap/vec", bitmap::<VecBuffer>(tier, false));
        c.job("bitmap/box", bitmap::<BoxBuffer>(tier, false));
        c.job("bitmap/slice", bitmap::<SliceBuffer<'static>>(tier, false));
        c.job("bitmap/array", bitmap::<ArrayBuffer<3>>(tier, false));
        c.job("bitmap/big/vec", bitmap::<VecBuffer>(tier, true));
        c.job("bitmap/big/arc", bitmap::<ArcBuffer>(tier, true));
        c.job("validity", validity(tier));
        c.job("offsets/i32", offsets::<i32, VecBuffer>(tier, false));
        c.job("offsets/i64", offsets::<i64, VecBuffer>(tier, false));
        c.job("offsets/box", offsets::<i32, BoxBuffer>(tier, false));
        c.job("offsets/array", offsets::<i64, ArrayBuffer<4>>(tier, false));
        c.job("offsets/long/i32", offsets::<i32, VecBuffer>(tier, true));
        c.job("offsets/long/i64", offsets::<i64, SliceBuffer<'static>>(tier, true));
        c.job("flatten/0", flatten::<0>(tier));
        c.job("flatten/1", flatten::<1>(tier));
        c.job("flatten/2", flatten::<2>(tier));
        c.job("flatten/3", flatten::<3>(tier));
        c.job("flatten/5", flatten::<5>(tier));
        c.job("flatten/8", flatten::<8>(tier));
        c.job("flatten/127", flatten::<127>(tier));
        c.job("flatten/256", flatten::<256>(tier));
        c.job("flatten/257", flatten::<257>(tier));
        macro_rules! j {
            ($t:ty) => {
                c.job(concat!("whole/", stringify!($t)), whole::<$t, VecBuffer>(tier));
                c.job(concat!("whole-rc/", stringify!($t)), whole::<$t, RcBuffer>(tier));
            };
        }
        mc::shapes_core!(j);
        mc::shapes_deep!(j);
    });
}
