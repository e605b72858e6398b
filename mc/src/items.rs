//! Row values, an independent description of the Arrow columnar layout (`Ty`, `Phys`), and the
//! binding of both to the library's types (`Item`).

use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, BufferRef, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection, CollectionAlloc, CollectionRealloc};
use narrow::fixed_size::{FixedSize, FixedSizeArray};
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::layout::{ArrayItem, Layout, NullableLayout};
use narrow::length::Length;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use crate::engine::{Context, R};
use crate::{ensure, fail};
use std::borrow::Borrow;
use std::fmt::Debug;

/// A row, independent of any library type. Numbers are raw little-endian contents.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Null,
    Bool(bool),
    Num(u128),
    List(Vec<Val>),
}
impl Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Null => write!(f, "null"),
            Val::Bool(b) => write!(f, "{}", u8::from(*b)),
            Val::Num(n) => write!(f, "0x{n:x}"),
            Val::List(v) => f.debug_list().entries(v).finish(),
        }
    }
}

/// The Arrow type of a column.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Bool,
    /// C data interface format (if the type has one) and size in bytes.
    Prim(Option<&'static str>, usize),
    Fixed(usize, Box<Ty>),
    /// Offset width in bytes.
    List(usize, Box<Ty>),
    Nullable(Box<Ty>),
}
impl Ty {
    pub fn nullable(&self) -> bool {
        matches!(self, Ty::Nullable(_))
    }
    pub fn base(&self) -> &Ty {
        match self {
            Ty::Nullable(t) => t,
            t => t,
        }
    }
    pub fn child(&self) -> Option<&Ty> {
        match self.base() {
            Ty::Fixed(_, c) | Ty::List(_, c) => Some(c),
            _ => None,
        }
    }
    pub fn exportable(&self) -> bool {
        match self {
            Ty::Bool => true,
            Ty::Prim(f, _) => f.is_some(),
            Ty::Fixed(_, c) | Ty::List(_, c) | Ty::Nullable(c) => c.exportable(),
        }
    }
    pub fn format(&self) -> String {
        match self.base() {
            Ty::Bool => "b".into(),
            Ty::Prim(f, _) => f.expect("exportable").to_string(),
            Ty::Fixed(n, _) => format!("+w:{n}"),
            Ty::List(4, _) => "+l".into(),
            Ty::List(_, _) => "+L".into(),
            Ty::Nullable(_) => unreachable!(),
        }
    }
    pub fn default_val(&self) -> Val {
        match self {
            Ty::Bool => Val::Bool(false),
            Ty::Prim(..) => Val::Num(0),
            Ty::Fixed(n, c) => Val::List(vec![c.default_val(); *n]),
            Ty::List(..) => Val::List(vec![]),
            Ty::Nullable(_) => Val::Null,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
    pub off: usize,
}
impl Bits {
    /// Reference reading: least significant bit first.
    pub fn get(&self, i: usize) -> Option<bool> {
        let p = self.off + i;
        self.bytes.get(p / 8).map(|b| (b >> (p % 8)) & 1 == 1)
    }
    pub fn to_bools(&self) -> Result<Vec<bool>, String> {
        (0..self.len)
            .map(|i| {
                self.get(i).ok_or_else(|| {
                    format!(
                        "bitmap of {} bytes has no bit {i} at offset {}",
                        self.bytes.len(),
                        self.off
                    )
                })
            })
            .collect()
    }
    /// Reference writing, with dirt around the window.
    pub fn from_bools(bits: &[bool], off: usize, extra: usize, fill: u8) -> Self {
        let n = (off + bits.len()).div_ceil(8) + extra;
        let mut bytes = vec![fill; n];
        for (i, &b) in bits.iter().enumerate() {
            let p = off + i;
            bytes[p / 8] = (bytes[p / 8] & !(1 << (p % 8))) | (u8::from(b) << (p % 8));
        }
        Bits {
            bytes,
            len: bits.len(),
            off,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Bool(Bits),
    Prim(Vec<u128>),
    Fixed(usize, Box<Phys>),
    List(Vec<i64>, Box<Phys>),
}

/// The physical contents of an array, read through its raw parts.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Phys {
    /// None: not nullable. Some(None): nullable without a bitmap (all valid).
    pub validity: Option<Option<Bits>>,
    pub body: Body,
}

impl Body {
    pub fn len(&self) -> Result<usize, String> {
        Ok(match self {
            Body::Bool(b) => b.len,
            Body::Prim(v) => v.len(),
            Body::Fixed(n, c) => {
                let l = c.len()?;
                if l % n != 0 {
                    return Err(format!("fixed-size child has {l} rows, not a multiple of {n}"));
                }
                l / n
            }
            Body::List(o, _) => {
                if o.is_empty() {
                    return Err("empty offsets buffer".into());
                }
                o.len() - 1
            }
        })
    }
}

impl Phys {
    pub fn len(&self) -> Result<usize, String> {
        match &self.validity {
            Some(Some(b)) => Ok(b.len),
            _ => self.body.len(),
        }
    }
    /// Reference decoder of the Arrow columnar layout. Checks the layout rules on the way.
    /// `strict`: value storage has exactly as many rows as the array (true unless a panic left an
    /// uncommitted suffix behind).
    pub fn decode(&self, ty: &Ty, strict: bool) -> Result<Vec<Val>, String> {
        if self.validity.is_some() != ty.nullable() {
            return Err("nullability of the layout differs from the type".into());
        }
        let n = self.len()?;
        let body_len = self.body.len()?;
        if body_len < n || (strict && body_len != n) {
            return Err(format!("validity has {n} rows but the values have {body_len}"));
        }
        let valid = match &self.validity {
            Some(Some(b)) => Some(b.to_bools()?),
            _ => None,
        };
        let is_valid = |i: usize| valid.as_ref().is_none_or(|v| v[i]);
        let mut out = Vec::with_capacity(n);
        match (&self.body, ty.base()) {
            (Body::Bool(b), Ty::Bool) => {
                let v = b.to_bools()?;
                for i in 0..n {
                    out.push(if is_valid(i) { Val::Bool(v[i]) } else { Val::Null });
                }
            }
            (Body::Prim(v), Ty::Prim(..)) => {
                for i in 0..n {
                    out.push(if is_valid(i) { Val::Num(v[i]) } else { Val::Null });
                }
            }
            (Body::Fixed(w, c), Ty::Fixed(w2, ct)) => {
                if w != w2 {
                    return Err("width differs".into());
                }
                let v = c.decode(ct, strict)?;
                for i in 0..n {
                    out.push(if is_valid(i) {
                        Val::List(v[i * w..(i + 1) * w].to_vec())
                    } else {
                        Val::Null
                    });
                }
            }
            (Body::List(o, c), Ty::List(_, ct)) => {
                let v = c.decode(ct, strict)?;
                if o[0] != 0 {
                    return Err(format!("first offset is {}", o[0]));
                }
                for w in o.windows(2) {
                    if w[0] < 0 || w[1] < w[0] {
                        return Err(format!("offsets {o:?} decrease or are negative"));
                    }
                }
                if *o.last().unwrap() as usize > v.len() {
                    return Err(format!("offsets {o:?} exceed the data ({})", v.len()));
                }
                for i in 0..n {
                    out.push(if is_valid(i) {
                        Val::List(v[o[i] as usize..o[i + 1] as usize].to_vec())
                    } else {
                        Val::Null
                    });
                }
            }
            _ => return Err("layout kind differs from the type".into()),
        }
        Ok(out)
    }

    /// Reference encoder, with dirt.
    pub fn encode(ty: &Ty, rows: &[Val], d: &Dirt) -> Phys {
        let (base, validity, slots): (&Ty, _, Vec<Val>) = match ty {
            Ty::Nullable(b) => {
                let bits: Vec<bool> = rows.iter().map(|r| *r != Val::Null).collect();
                let v = if d.implicit && bits.iter().all(|&b| b) {
                    None
                } else {
                    Some(Bits::from_bools(&bits, d.off_valid, d.extra, d.fill))
                };
                let slots = rows
                    .iter()
                    .enumerate()
                    .map(|(i, r)| match r {
                        Val::Null if d.junk => sample_val(b, 2 * i + 1),
                        Val::Null => b.default_val(),
                        r => r.clone(),
                    })
                    .collect();
                (&**b, Some(v), slots)
            }
            b => (b, None, rows.to_vec()),
        };
        let body = match base {
            Ty::Bool => Body::Bool(Bits::from_bools(
                &slots.iter().map(|v| *v == Val::Bool(true)).collect::<Vec<_>>(),
                d.off_bool,
                d.extra,
                d.fill,
            )),
            Ty::Prim(..) => Body::Prim(
                slots
                    .iter()
                    .map(|v| match v {
                        Val::Num(n) => *n,
                        _ => panic!("engine: value kind"),
                    })
                    .collect(),
            ),
            Ty::Fixed(n, c) => {
                let items: Vec<Val> = slots
                    .iter()
                    .flat_map(|v| match v {
                        Val::List(l) => l.clone(),
                        _ => panic!("engine: value kind"),
                    })
                    .collect();
                Body::Fixed(*n, Box::new(Phys::encode(c, &items, d)))
            }
            Ty::List(_, c) => {
                let mut offs = vec![0_i64];
                let mut items: Vec<Val> = vec![];
                for v in &slots {
                    match v {
                        Val::List(l) => items.extend(l.iter().cloned()),
                        _ => panic!("engine: value kind"),
                    }
                    offs.push(items.len() as i64);
                }
                for k in 0..d.surplus {
                    items.push(sample_val(c, 7 + k));
                }
                Body::List(offs, Box::new(Phys::encode(c, &items, d)))
            }
            Ty::Nullable(_) => unreachable!(),
        };
        Phys { validity, body }
    }
}

pub fn mix(k: usize) -> u64 {
    let mut x = (k as u64).wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// Deterministic, varied row number `k` of a type.
pub fn sample_val(ty: &Ty, k: usize) -> Val {
    let h = mix(k);
    match ty {
        Ty::Bool => Val::Bool(h & 1 == 1),
        Ty::Prim(_, size) => {
            let wide = (u128::from(h) << 64) | u128::from(mix(k ^ 0x55));
            Val::Num(if *size == 16 { wide } else { wide & ((1_u128 << (8 * size)) - 1) })
        }
        Ty::Fixed(n, c) => Val::List((0..*n).map(|i| sample_val(c, k * 3 + i + 1)).collect()),
        Ty::List(_, c) => Val::List(
            (0..[1, 0, 2, 3, 1][(h % 5) as usize])
                .map(|i| sample_val(c, k * 5 + i + 2))
                .collect(),
        ),
        Ty::Nullable(c) => {
            if h % 3 == 0 {
                Val::Null
            } else {
                sample_val(c, k)
            }
        }
    }
}

/// A few values of a type, simplest first, chosen so that neighbours can be told apart.
pub fn alphabet(ty: &Ty, rich: bool) -> Vec<Val> {
    match ty {
        Ty::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ty::Prim(_, size) => {
            let m = if *size == 16 { u128::MAX } else { (1 << (8 * size)) - 1 };
            let mut v = vec![Val::Num(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & m), Val::Num(m)];
            if rich {
                v.push(Val::Num(0));
                // sign bit only: the minimum of signed types, minus zero
                v.push(Val::Num((m >> 1) + 1));
                // signalling NaN patterns with payload for the float widths
                match size {
                    4 => v.push(Val::Num(0x7fa0_1234)),
                    8 => v.push(Val::Num(0xfff4_0000_dead_beef)),
                    _ => {}
                }
            }
            v
        }
        Ty::Fixed(n, c) => {
            let a = alphabet(c, rich);
            let mut v = vec![
                Val::List((0..*n).map(|i| a[i % a.len()].clone()).collect()),
                Val::List((0..*n).map(|i| a[(i + 1) % a.len()].clone()).collect()),
            ];
            if rich {
                v.push(Val::List((0..*n).map(|i| a[(i / 2 + 1) % a.len()].clone()).collect()));
            }
            v.dedup();
            v
        }
        Ty::List(_, c) => {
            let a = alphabet(c, rich);
            let mut v = vec![
                Val::List(vec![a[0].clone()]),
                Val::List(vec![]),
                Val::List((0..2).map(|i| a[(i + 1) % a.len()].clone()).collect()),
            ];
            if rich {
                v.push(Val::List((0..3).map(|i| a[i % a.len()].clone()).collect()));
            }
            v
        }
        Ty::Nullable(c) => {
            let mut v = alphabet(c, rich);
            v.insert(1, Val::Null);
            if !rich {
                v.truncate(3);
            }
            v
        }
    }
}

/// How raw parts deviate from what construction would make, without changing the rows.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Dirt {
    pub off_valid: usize,
    pub off_bool: usize,
    pub extra: usize,
    pub fill: u8,
    /// List data beyond the last offset.
    pub surplus: usize,
    /// No bitmap where everything is valid.
    pub implicit: bool,
    /// Null rows occupy slots with contents of their own (null lists have elements).
    pub junk: bool,
}

/// Storages that can take over contents.
pub trait Home: Buffer {
    /// `pad` fills fixed arrays up.
    fn home<T: FixedSize>(v: Vec<T>, pad: T) -> Option<Self::For<T>>;
}
impl Home for VecBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<Vec<T>> {
        Some(v)
    }
}
impl Home for narrow::buffer::BoxBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<Box<[T]>> {
        Some(v.into())
    }
}
impl Home for narrow::buffer::RcBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<std::rc::Rc<[T]>> {
        Some(v.into())
    }
}
impl Home for narrow::buffer::ArcBuffer {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<std::sync::Arc<[T]>> {
        Some(v.into())
    }
}
impl Home for narrow::buffer::SliceBuffer<'static> {
    fn home<T: FixedSize>(v: Vec<T>, _: T) -> Option<&'static [T]> {
        Some(leak::slice(v))
    }
}
impl<const N: usize> Home for narrow::buffer::ArrayBuffer<N> {
    fn home<T: FixedSize>(mut v: Vec<T>, pad: T) -> Option<[T; N]> {
        if v.len() > N {
            return None;
        }
        v.resize(N, pad);
        v.try_into().ok()
    }
}

/// Slices that live until the end of the execution (`leak::free`).
pub mod leak {
    use std::any::Any;
    use std::cell::RefCell;
    thread_local! { static KEEP: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(vec![]) }; }
    pub fn slice<T: 'static>(v: Vec<T>) -> &'static [T] {
        let p = v.as_ptr();
        let n = v.len();
        crate::alloc::exempt(|| KEEP.with(|k| k.borrow_mut().push(Box::new(v))));
        // SAFETY: the vector is kept, unchanged, until `free`, which scenarios call when no array
        // over the slice exists any more.
        unsafe { std::slice::from_raw_parts(p, n) }
    }
    pub fn one<T: 'static>(v: T) -> &'static T {
        &slice(vec![v])[0]
    }
    pub fn free() {
        KEEP.with(|k| k.borrow_mut().clear());
    }
}

/// Sees the buffers of an array.
pub trait Visit<S: Buffer> {
    fn buffer<T: FixedSize>(&mut self, b: &S::For<T>, role: Role);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Validity,
    Values,
    Offsets,
}
fn visit_validity<C: Collection, S: Buffer, V: Visit<S>>(m: &Validity<C, S>, v: &mut V) {
    if let Some(b) = m.bitmap_ref() {
        v.buffer::<u8>(b.buffer_ref(), Role::Validity);
    }
}
/// Where every buffer is, and how many bytes it has.
#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct Places(pub Vec<(Role, usize, usize)>);
impl<S: Buffer> Visit<S> for Places {
    fn buffer<T: FixedSize>(&mut self, b: &S::For<T>, role: Role) {
        let s: &[T] = b.borrow();
        self.0.push((role, s.as_ptr() as usize, std::mem::size_of_val(s)));
    }
}
/// The buffers of an array.
pub fn places<T: Item, S: Buffer>(a: &Array<T, S>) -> Vec<(Role, usize, usize)> {
    let mut p = Places::default();
    T::visit::<S, _>(a.buffer_ref(), &mut p);
    p.0
}

/// Item types without their nullability.
pub trait Base: Layout + NullableLayout + Clone + Debug + 'static {
    fn base_ty() -> Ty;
    fn base_val(&self) -> Val;
    fn base_from(v: &Val) -> Self;
    fn body<S: Buffer>(m: &<Self as Layout>::Memory<NonNullable, S>) -> Body;
    fn phys_null<S: Buffer>(m: &<Self as Layout>::Memory<Nullable, S>) -> (Option<Bits>, Body);
    fn from_body<S: Home>(b: &Body) -> Result<<Self as Layout>::Memory<NonNullable, S>, String>;
    fn from_null<S: Home>(
        v: &Option<Bits>,
        b: &Body,
    ) -> Result<<Self as Layout>::Memory<Nullable, S>, String>;
    /// Takes everything apart into raw parts and puts it together again.
    fn rewrap<S: Buffer>(
        m: <Self as Layout>::Memory<NonNullable, S>,
    ) -> Result<<Self as Layout>::Memory<NonNullable, S>, String>;
    fn rewrap_null<S: Buffer>(
        m: <Self as Layout>::Memory<Nullable, S>,
    ) -> Result<<Self as Layout>::Memory<Nullable, S>, String>;
    /// Shows every buffer to the visitor, outermost level first, validity before the rest.
    fn visit<S: Buffer, V: Visit<S>>(m: &<Self as Layout>::Memory<NonNullable, S>, v: &mut V);
    fn visit_null<S: Buffer, V: Visit<S>>(m: &<Self as Layout>::Memory<Nullable, S>, v: &mut V);
    /// Compares the null queries of every nullable level with the rows read at that level.
    fn nulls<S: Buffer>(m: &<Self as Layout>::Memory<NonNullable, S>) -> R;
    fn nulls_null<S: Buffer>(m: &<Self as Layout>::Memory<Nullable, S>) -> R;
    /// Compares a borrowed view of a row with the model through every access path of the view.
    fn deep<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<NonNullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<NonNullable, S>: 'a;
    fn deep_null<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<Nullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<Nullable, S>: 'a;
}

/// Row types of arrays.
pub trait Item: ArrayItem + Clone + Debug + 'static {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    fn phys<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> Phys;
    fn from_phys<S: Home>(p: &Phys) -> Result<<Self as ArrayItem>::Memory<S>, String>;
    fn deep_view<'a, S: Buffer + 'static>(
        v: <<Self as ArrayItem>::Memory<S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as ArrayItem>::Memory<S>: 'a;
    fn rewrap<S: Buffer>(
        m: <Self as ArrayItem>::Memory<S>,
    ) -> Result<<Self as ArrayItem>::Memory<S>, String>;
    fn check_nulls<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> R;
    fn visit<S: Buffer, V: Visit<S>>(m: &<Self as ArrayItem>::Memory<S>, v: &mut V);

    fn nth(k: usize) -> Self {
        Self::from_val(&sample_val(&Self::ty(), k))
    }
    fn alphabet(rich: bool) -> Vec<Self> {
        alphabet(&Self::ty(), rich).iter().map(Self::from_val).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.val() == o.val()
    }
}

impl<T: Base> Item for T {
    fn ty() -> Ty {
        T::base_ty()
    }
    fn val(&self) -> Val {
        self.base_val()
    }
    fn from_val(v: &Val) -> Self {
        T::base_from(v)
    }
    fn phys<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> Phys {
        Phys {
            validity: None,
            body: T::body::<S>(m),
        }
    }
    fn from_phys<S: Home>(p: &Phys) -> Result<<Self as ArrayItem>::Memory<S>, String> {
        T::from_body::<S>(&p.body)
    }
    fn deep_view<'a, S: Buffer + 'static>(
        v: <<Self as ArrayItem>::Memory<S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as ArrayItem>::Memory<S>: 'a,
    {
        T::deep::<S>(v, m)
    }
    fn rewrap<S: Buffer>(
        m: <Self as ArrayItem>::Memory<S>,
    ) -> Result<<Self as ArrayItem>::Memory<S>, String> {
        <T as Base>::rewrap::<S>(m)
    }
    fn check_nulls<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> R {
        T::nulls::<S>(m)
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &<Self as ArrayItem>::Memory<S>, v: &mut V) {
        <T as Base>::visit::<S, V>(m, v);
    }
}
impl<T: Base> Item for Option<T> {
    fn ty() -> Ty {
        Ty::Nullable(Box::new(T::base_ty()))
    }
    fn val(&self) -> Val {
        self.as_ref().map_or(Val::Null, T::base_val)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Null => None,
            v => Some(T::base_from(v)),
        }
    }
    fn phys<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> Phys {
        let (v, body) = T::phys_null::<S>(m);
        Phys {
            validity: Some(v),
            body,
        }
    }
    fn from_phys<S: Home>(p: &Phys) -> Result<<Self as ArrayItem>::Memory<S>, String> {
        T::from_null::<S>(p.validity.as_ref().expect("engine: validity"), &p.body)
    }
    fn deep_view<'a, S: Buffer + 'static>(
        v: <<Self as ArrayItem>::Memory<S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as ArrayItem>::Memory<S>: 'a,
    {
        T::deep_null::<S>(v, m)
    }
    fn rewrap<S: Buffer>(
        m: <Self as ArrayItem>::Memory<S>,
    ) -> Result<<Self as ArrayItem>::Memory<S>, String> {
        T::rewrap_null::<S>(m)
    }
    fn check_nulls<S: Buffer>(m: &<Self as ArrayItem>::Memory<S>) -> R {
        T::nulls_null::<S>(m)
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &<Self as ArrayItem>::Memory<S>, v: &mut V) {
        T::visit_null::<S, V>(m, v);
    }
}

/// Every null query of one level, at every index and beyond, against the rows of that level.
pub fn check_nulls_of<C: Collection, S: Buffer>(v: &Validity<C, S>) -> R {
    let rows: Vec<bool> = v.iter_views().map(|x| x.is_some()).collect();
    let n = rows.len();
    let valid = rows.iter().filter(|&&b| b).count();
    ensure!(v.len() == n, "length is {}, but {n} rows are read", v.len());
    ensure!(v.null_count() == n - valid, "null_count is {}, rows have {} nulls of {n}", v.null_count(), n - valid);
    ensure!(v.valid_count() == valid, "valid_count is {}, rows have {valid} of {n} valid", v.valid_count());
    ensure!(v.any_null() == (valid < n), "any_null is {}, rows have {} nulls of {n}", v.any_null(), n - valid);
    ensure!(v.all_null() == (valid == 0), "all_null is {}, rows have {} nulls of {n}", v.all_null(), n - valid);
    ensure!(v.any_valid() == (valid > 0), "any_valid is {}, rows have {valid} of {n} valid", v.any_valid());
    ensure!(v.all_valid() == (valid == n), "all_valid is {}, rows have {valid} of {n} valid", v.all_valid());
    for (i, &b) in rows.iter().enumerate() {
        ensure!(v.is_null(i) == Some(!b), "is_null({i}) is {:?}, row valid: {b}", v.is_null(i));
        ensure!(v.is_valid(i) == Some(b), "is_valid({i}) is {:?}, row valid: {b}", v.is_valid(i));
    }
    for i in [n, n + 1, n + 8, usize::MAX] {
        ensure!(v.is_null(i).is_none() && v.is_valid(i).is_none(), "null query at {i} of {n} rows is answered");
    }
    Ok(())
}
fn rewrap_bits<S: Buffer>(b: Bitmap<S>) -> Result<Bitmap<S>, String> {
    let (buf, bits, off) = b.into_parts();
    Bitmap::try_from_parts(buf, bits, off).map_err(|e| format!("own bitmap parts rejected: {e}"))
}
fn rewrap_validity<C: Collection, S: Buffer>(
    v: Validity<C, S>,
    f: impl FnOnce(C) -> Result<C, String>,
) -> Result<Validity<C, S>, String> {
    let (c, b) = v.into_parts();
    let c = f(c)?;
    match b {
        None => Ok(Validity::from_collection(c)),
        Some(b) => Validity::try_from_parts(c, rewrap_bits(b)?)
            .map_err(|e| format!("own validity parts rejected: {e}")),
    }
}
fn rewrap_flat<T: Item, S: Buffer, const N: usize>(
    f: Flatten<<T as ArrayItem>::Memory<S>, N>,
) -> Result<Flatten<<T as ArrayItem>::Memory<S>, N>, String> {
    Flatten::try_from_parts(<T as Item>::rewrap::<S>(f.into_parts())?)
        .map_err(|e| format!("own fixed-size list parts rejected: {e}"))
}
pub fn rewrap_offsets<T: Item, O: Offset, S: Buffer>(
    o: Offsets<<T as ArrayItem>::Memory<S>, O, S>,
) -> Result<Offsets<<T as ArrayItem>::Memory<S>, O, S>, String> {
    let (data, offs) = o.into_parts();
    Offsets::try_from_parts(<T as Item>::rewrap::<S>(data)?, offs)
        .map_err(|e| format!("own list parts rejected: {e}"))
}

/// Indices that could be mistaken for valid ones after scaling or offsetting.
pub fn wild_indices(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n + 3).collect();
    v.extend((0..=20).map(|k| usize::MAX - k));
    for w in [2_usize, 3, 5, 8, 10, 16] {
        // the smallest index whose product with w exceeds the word, and neighbours
        let q = usize::MAX / w;
        v.extend([q - 1, q, q + 1, q + 2, (usize::MAX - n) / w]);
    }
    for s in [3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 60, 61, 62, 63] {
        v.extend([1 << s, (1 << s) + 1, (1 << s) - 1, (1 << s) + n.wrapping_sub(1) % 65_536]);
    }
    v.retain(|&i| i < n + 3 || i > n + 64 || i >= n);
    v.sort_unstable();
    v.dedup();
    v
}

fn leaf<T: Item>(got: T, m: &Val) -> R {
    let g = got.val();
    ensure!(g == *m, "view holds {g:?}, expected {m:?}");
    Ok(())
}

/// A view of a list row.
fn deep_list<'a, T: Item, O: Offset, S: Buffer + 'static>(
    v: narrow::offset::OffsetView<'a, <T as ArrayItem>::Memory<S>, O, S, Vec<T>>,
    m: &Val,
) -> R
where
    <T as ArrayItem>::Memory<S>: 'a,
{
    let Val::List(m) = m else { fail!("list view present, expected {m:?}") };
    let n = m.len();
    ensure!(v.len() == n, "list view has length {}, expected {n}", v.len());
    ensure!(v.is_empty() == (n == 0), "list view is_empty is wrong");
    for i in wild_indices(n) {
        match v.view(i) {
            Some(x) => {
                ensure!(i < n, "list view of {n} elements has an element {i}");
                T::deep_view::<S>(x, &m[i]).ctx(|| format!("element {i}"))?;
            }
            None => ensure!(i >= n, "list view of {n} elements lacks element {i}"),
        }
    }
    for i in (0..n + 2).chain([usize::MAX, usize::MAX - n, usize::MAX / 2]) {
        match v.owned(i) {
            Some(x) => {
                ensure!(i < n, "list view of {n} elements owns element {i}");
                leaf::<T>(x, &m[i]).ctx(|| format!("owned element {i}"))?;
            }
            None => ensure!(i >= n, "list view of {n} elements does not own element {i}"),
        }
    }
    let copy = v;
    #[allow(clippy::clone_on_copy)]
    let cloned = v.clone();
    ensure!(cloned.len() == n, "clone of a list view of {n} elements has {}", cloned.len());
    let again: Vec<T> = narrow::collection::owned::IntoOwned::into_owned(cloned);
    leaf::<Vec<T>>(again, &Val::List(m.clone())).ctx(|| "a clone".into())?;
    let mut it = copy.iter_views();
    for (i, e) in m.iter().enumerate() {
        match it.next() {
            Some(x) => T::deep_view::<S>(x, e).ctx(|| format!("iterated element {i}"))?,
            None => fail!("iteration of the list view ended at {i} of {n}"),
        }
    }
    ensure!(it.next().is_none(), "iteration of the list view does not end");
    drop(it);
    let owned: Vec<Val> = v.into_iter_owned().map(|x: T| x.val()).collect();
    ensure!(owned == *m, "consuming iteration of the list view gives {owned:?}, expected {m:?}");
    let whole: Vec<T> = narrow::collection::owned::IntoOwned::into_owned(v);
    leaf::<Vec<T>>(whole, &Val::List(m.clone()))
}

/// A view of a fixed-size row.
fn deep_fixed<'a, T: Item, S: Buffer + 'static, const N: usize>(
    v: narrow::collection::flatten::FlattenView<'a, <T as ArrayItem>::Memory<S>, N>,
    m: &Val,
) -> R
where
    <T as ArrayItem>::Memory<S>: 'a,
{
    let Val::List(l) = m else { fail!("fixed-size view present, expected {m:?}") };
    let copy = v;
    #[allow(clippy::clone_on_copy)]
    let cloned = copy.clone();
    let r: &[_; N] = &copy;
    for (i, e) in l.iter().enumerate() {
        T::deep_view::<S>(r[i], e).ctx(|| format!("slot {i}"))?;
        T::deep_view::<S>(cloned[i], e).ctx(|| format!("slot {i} of the clone"))?;
    }
    let whole: [T; N] = narrow::collection::owned::IntoOwned::into_owned(v);
    leaf::<[T; N]>(whole, m)
}

pub fn bits_of<S: Buffer>(b: &Bitmap<S>) -> Bits {
    let bytes: &[u8] = b.buffer_ref().borrow();
    Bits {
        bytes: bytes.to_vec(),
        len: b.len(),
        off: b.bit_offset(),
    }
}
fn validity_of<T: Collection, S: Buffer>(v: &Validity<T, S>) -> Option<Bits> {
    v.bitmap_ref().map(bits_of)
}
pub fn bitmap_from<S: Home>(b: &Bits) -> Result<Bitmap<S>, String> {
    let buf = S::home(b.bytes.clone(), 0xA5).ok_or("does not fit")?;
    Bitmap::try_from_parts(buf, b.len, b.off).map_err(|e| format!("bitmap parts rejected: {e}"))
}
fn wrap<T: Collection, S: Home>(v: &Option<Bits>, c: T) -> Result<Validity<T, S>, String> {
    match v {
        None => Ok(Validity::from_collection(c)),
        Some(b) => Validity::try_from_parts(c, bitmap_from::<S>(b)?)
            .map_err(|e| format!("validity parts rejected: {e}")),
    }
}

impl Base for bool {
    fn base_ty() -> Ty {
        Ty::Bool
    }
    fn base_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn base_from(v: &Val) -> Self {
        *v == Val::Bool(true)
    }
    fn body<S: Buffer>(m: &Boolean<NonNullable, S>) -> Body {
        Body::Bool(bits_of(m.buffer_ref()))
    }
    fn phys_null<S: Buffer>(m: &Boolean<Nullable, S>) -> (Option<Bits>, Body) {
        let v = m.buffer_ref();
        (validity_of(v), Body::Bool(bits_of(v.child_ref())))
    }
    fn from_body<S: Home>(b: &Body) -> Result<Boolean<NonNullable, S>, String> {
        let Body::Bool(b) = b else { panic!("engine: kind") };
        Ok(Boolean::from_buffer(bitmap_from::<S>(b)?))
    }
    fn from_null<S: Home>(v: &Option<Bits>, b: &Body) -> Result<Boolean<Nullable, S>, String> {
        let Body::Bool(b) = b else { panic!("engine: kind") };
        Ok(Boolean::from_buffer(wrap::<_, S>(v, bitmap_from::<S>(b)?)?))
    }
    fn rewrap<S: Buffer>(m: Boolean<NonNullable, S>) -> Result<Boolean<NonNullable, S>, String> {
        Ok(Boolean::from_buffer(rewrap_bits(m.into_buffer())?))
    }
    fn rewrap_null<S: Buffer>(m: Boolean<Nullable, S>) -> Result<Boolean<Nullable, S>, String> {
        Ok(Boolean::from_buffer(rewrap_validity(m.into_buffer(), rewrap_bits)?))
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &Boolean<NonNullable, S>, v: &mut V) {
        v.buffer::<u8>(m.buffer_ref().buffer_ref(), Role::Values);
    }
    fn visit_null<S: Buffer, V: Visit<S>>(m: &Boolean<Nullable, S>, v: &mut V) {
        visit_validity(m.buffer_ref(), v);
        v.buffer::<u8>(m.buffer_ref().child_ref().buffer_ref(), Role::Values);
    }
    fn nulls<S: Buffer>(_: &Boolean<NonNullable, S>) -> R {
        Ok(())
    }
    fn nulls_null<S: Buffer>(m: &Boolean<Nullable, S>) -> R {
        check_nulls_of(m.buffer_ref())
    }
    fn deep<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<NonNullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<NonNullable, S>: 'a,
    {
        leaf::<bool>(v, m)
    }
    fn deep_null<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<Nullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<Nullable, S>: 'a,
    {
        match v {
            None => {
                ensure!(*m == Val::Null, "view is null, expected {m:?}");
                Ok(())
            }
            Some(v) => {
                ensure!(*m != Val::Null, "view is not null, expected null");
                leaf::<bool>(v, m)
            }
        }
    }
}

pub trait Raw: FixedSize + Debug {
    const FMT: Option<&'static str>;
    fn raw(self) -> u128;
    fn unraw(n: u128) -> Self;
}
macro_rules! raw {
    ($($t:ty, $u:ty, $f:expr;)*) => {$(
        impl Raw for $t {
            const FMT: Option<&'static str> = $f;
            fn raw(self) -> u128 { u128::from(<$u>::from_le_bytes(self.to_le_bytes())) }
            #[allow(clippy::cast_possible_truncation)]
            fn unraw(n: u128) -> Self { <$t>::from_le_bytes((n as $u).to_le_bytes()) }
        }
        prim!($t);
    )*};
}
macro_rules! prim {
    ($t:ty) => {
        impl Base for $t {
            fn base_ty() -> Ty {
                Ty::Prim(<$t as Raw>::FMT, std::mem::size_of::<$t>())
            }
            fn base_val(&self) -> Val {
                Val::Num(self.raw())
            }
            fn base_from(v: &Val) -> Self {
                match v {
                    Val::Num(n) => <$t as Raw>::unraw(*n),
                    _ => panic!("engine: value kind"),
                }
            }
            fn body<S: Buffer>(m: &FixedSizePrimitive<$t, NonNullable, S>) -> Body {
                let s: &[$t] = m.buffer_ref().borrow();
                Body::Prim(s.iter().map(|x| x.raw()).collect())
            }
            fn phys_null<S: Buffer>(
                m: &FixedSizePrimitive<$t, Nullable, S>,
            ) -> (Option<Bits>, Body) {
                let v = m.buffer_ref();
                let s: &[$t] = v.child_ref().borrow();
                (validity_of(v), Body::Prim(s.iter().map(|x| x.raw()).collect()))
            }
            fn from_body<S: Home>(
                b: &Body,
            ) -> Result<FixedSizePrimitive<$t, NonNullable, S>, String> {
                let Body::Prim(v) = b else { panic!("engine: kind") };
                let v: Vec<$t> = v.iter().map(|n| <$t as Raw>::unraw(*n)).collect();
                Ok(FixedSizePrimitive::from_buffer(
                    S::home(v, <$t as Raw>::unraw(0)).ok_or("does not fit")?,
                ))
            }
            fn from_null<S: Home>(
                val: &Option<Bits>,
                b: &Body,
            ) -> Result<FixedSizePrimitive<$t, Nullable, S>, String> {
                let Body::Prim(v) = b else { panic!("engine: kind") };
                let v: Vec<$t> = v.iter().map(|n| <$t as Raw>::unraw(*n)).collect();
                let c = S::home(v, <$t as Raw>::unraw(0)).ok_or("does not fit")?;
                Ok(FixedSizePrimitive::from_buffer(wrap::<_, S>(val, c)?))
            }
    fn rewrap<S: Buffer>(
        m: FixedSizePrimitive<$t, NonNullable, S>,
    ) -> Result<FixedSizePrimitive<$t, NonNullable, S>, String> {
        Ok(FixedSizePrimitive::from_buffer(m.into_buffer()))
    }
    fn rewrap_null<S: Buffer>(
        m: FixedSizePrimitive<$t, Nullable, S>,
    ) -> Result<FixedSizePrimitive<$t, Nullable, S>, String> {
        Ok(FixedSizePrimitive::from_buffer(rewrap_validity(m.into_buffer(), Ok)?))
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &FixedSizePrimitive<$t, NonNullable, S>, v: &mut V) {
        v.buffer::<$t>(m.buffer_ref(), Role::Values);
    }
    fn visit_null<S: Buffer, V: Visit<S>>(m: &FixedSizePrimitive<$t, Nullable, S>, v: &mut V) {
        visit_validity(m.buffer_ref(), v);
        v.buffer::<$t>(m.buffer_ref().child_ref(), Role::Values);
    }
    fn nulls<S: Buffer>(_: &FixedSizePrimitive<$t, NonNullable, S>) -> R {
        Ok(())
    }
    fn nulls_null<S: Buffer>(m: &FixedSizePrimitive<$t, Nullable, S>) -> R {
        check_nulls_of(m.buffer_ref())
    }
    fn deep<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<NonNullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<NonNullable, S>: 'a,
    {
        leaf::<$t>(narrow::collection::owned::IntoOwned::<$t>::into_owned(v), m)
    }
    fn deep_null<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<Nullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<Nullable, S>: 'a,
    {
        match v {
            None => {
                ensure!(*m == Val::Null, "view is null, expected {m:?}");
                Ok(())
            }
            Some(v) => {
                ensure!(*m != Val::Null, "view is not null, expected null");
                leaf::<$t>(narrow::collection::owned::IntoOwned::<$t>::into_owned(v), m)
            }
        }
    }
        }
    };
}
raw! {
    u8, u8, Some("C"); i8, u8, Some("c"); u16, u16, Some("S"); i16, u16, Some("s");
    u32, u32, Some("I"); i32, u32, Some("i"); u64, u64, Some("L"); i64, u64, Some("l");
    f32, u32, Some("f"); f64, u64, Some("g"); u128, u128, None; i128, u128, None;
}
impl Raw for usize {
    const FMT: Option<&'static str> = None;
    fn raw(self) -> u128 {
        self as u128
    }
    fn unraw(n: u128) -> Self {
        n as usize
    }
}
impl Raw for isize {
    const FMT: Option<&'static str> = None;
    fn raw(self) -> u128 {
        self as usize as u128
    }
    fn unraw(n: u128) -> Self {
        n as usize as isize
    }
}
impl Raw for FixedSizeArray<u8, 3> {
    const FMT: Option<&'static str> = None;
    fn raw(self) -> u128 {
        u128::from(self[0]) | u128::from(self[1]) << 8 | u128::from(self[2]) << 16
    }
    fn unraw(n: u128) -> Self {
        [n as u8, (n >> 8) as u8, (n >> 16) as u8].into()
    }
}
impl Raw for FixedSizeArray<u16, 2> {
    const FMT: Option<&'static str> = None;
    fn raw(self) -> u128 {
        u128::from(self[0]) | u128::from(self[1]) << 16
    }
    fn unraw(n: u128) -> Self {
        [n as u16, (n >> 16) as u16].into()
    }
}
prim!(usize);
prim!(isize);
prim!(FixedSizeArray<u8, 3>);
prim!(FixedSizeArray<u16, 2>);

impl<T: Item, const N: usize> Base for [T; N] {
    fn base_ty() -> Ty {
        Ty::Fixed(N, Box::new(T::ty()))
    }
    fn base_val(&self) -> Val {
        Val::List(self.iter().map(T::val).collect())
    }
    fn base_from(v: &Val) -> Self {
        match v {
            Val::List(l) => std::array::from_fn(|i| T::from_val(&l[i])),
            _ => panic!("engine: value kind"),
        }
    }
    fn body<S: Buffer>(m: &FixedSizeList<T, N, NonNullable, S>) -> Body {
        Body::Fixed(N, Box::new(T::phys::<S>(m.buffer_ref().child_ref())))
    }
    fn phys_null<S: Buffer>(m: &FixedSizeList<T, N, Nullable, S>) -> (Option<Bits>, Body) {
        let v = m.buffer_ref();
        (
            validity_of(v),
            Body::Fixed(N, Box::new(T::phys::<S>(v.child_ref().child_ref()))),
        )
    }
    fn from_body<S: Home>(b: &Body) -> Result<FixedSizeList<T, N, NonNullable, S>, String> {
        let Body::Fixed(_, c) = b else { panic!("engine: kind") };
        let f = Flatten::try_from_parts(T::from_phys::<S>(c)?)
            .map_err(|e| format!("fixed-size list parts rejected: {e}"))?;
        Ok(FixedSizeList::from_buffer(f))
    }
    fn from_null<S: Home>(
        v: &Option<Bits>,
        b: &Body,
    ) -> Result<FixedSizeList<T, N, Nullable, S>, String> {
        let Body::Fixed(_, c) = b else { panic!("engine: kind") };
        let f = Flatten::try_from_parts(T::from_phys::<S>(c)?)
            .map_err(|e| format!("fixed-size list parts rejected: {e}"))?;
        Ok(FixedSizeList::from_buffer(wrap::<_, S>(v, f)?))
    }
    fn rewrap<S: Buffer>(
        m: FixedSizeList<T, N, NonNullable, S>,
    ) -> Result<FixedSizeList<T, N, NonNullable, S>, String> {
        Ok(FixedSizeList::from_buffer(rewrap_flat::<T, S, N>(m.into_buffer())?))
    }
    fn rewrap_null<S: Buffer>(
        m: FixedSizeList<T, N, Nullable, S>,
    ) -> Result<FixedSizeList<T, N, Nullable, S>, String> {
        Ok(FixedSizeList::from_buffer(rewrap_validity(m.into_buffer(), rewrap_flat::<T, S, N>)?))
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &FixedSizeList<T, N, NonNullable, S>, v: &mut V) {
        <T as Item>::visit::<S, V>(m.buffer_ref().child_ref(), v);
    }
    fn visit_null<S: Buffer, V: Visit<S>>(m: &FixedSizeList<T, N, Nullable, S>, v: &mut V) {
        visit_validity(m.buffer_ref(), v);
        <T as Item>::visit::<S, V>(m.buffer_ref().child_ref().child_ref(), v);
    }
    fn nulls<S: Buffer>(m: &FixedSizeList<T, N, NonNullable, S>) -> R {
        T::check_nulls::<S>(m.buffer_ref().child_ref())
    }
    fn nulls_null<S: Buffer>(m: &FixedSizeList<T, N, Nullable, S>) -> R {
        check_nulls_of(m.buffer_ref())?;
        T::check_nulls::<S>(m.buffer_ref().child_ref().child_ref())
    }
    fn deep<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<NonNullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<NonNullable, S>: 'a,
    {
        deep_fixed::<T, S, N>(v, m)
    }
    fn deep_null<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<Nullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<Nullable, S>: 'a,
    {
        match v {
            None => {
                ensure!(*m == Val::Null, "view is null, expected {m:?}");
                Ok(())
            }
            Some(v) => {
                ensure!(*m != Val::Null, "view is not null, expected null");
                deep_fixed::<T, S, N>(v, m)
            }
        }
    }
}

/// Raw contents of list storage of either offset width.
pub fn offsets_body<T: Item, O: Offset, S: Buffer>(
    o: &Offsets<<T as ArrayItem>::Memory<S>, O, S>,
) -> Body {
    let s: &[O] = o.buffer_ref().borrow();
    Body::List(
        s.iter().map(|x| offset_i64(*x)).collect(),
        Box::new(T::phys::<S>(o.child_ref())),
    )
}
pub fn visit_offsets<T: Item, O: Offset, S: Buffer, V: Visit<S>>(
    o: &Offsets<<T as ArrayItem>::Memory<S>, O, S>,
    v: &mut V,
) {
    v.buffer::<O>(o.buffer_ref(), Role::Offsets);
    <T as Item>::visit::<S, V>(o.child_ref(), v);
}
pub fn offset_i64<O: Offset>(o: O) -> i64 {
    // Offsets convert to usize only; negative ones cannot, and are reported as -1.
    match TryInto::<usize>::try_into(o) {
        Ok(u) => u as i64,
        Err(_) => -1,
    }
}
pub fn offsets_from<T: Item, O: Offset, S: Home>(
    b: &Body,
) -> Result<Offsets<<T as ArrayItem>::Memory<S>, O, S>, String> {
    let Body::List(o, c) = b else { panic!("engine: kind") };
    let offs: Vec<O> = o
        .iter()
        .map(|&x| O::try_from(x as usize).unwrap_or_default())
        .collect();
    let last = *offs.last().expect("engine: offsets");
    Offsets::try_from_parts(T::from_phys::<S>(c)?, S::home(offs, last).ok_or("does not fit")?)
        .map_err(|e| format!("list parts rejected: {e}"))
}

impl<T: Item> Base for Vec<T> {
    fn base_ty() -> Ty {
        Ty::List(4, Box::new(T::ty()))
    }
    fn base_val(&self) -> Val {
        Val::List(self.iter().map(T::val).collect())
    }
    fn base_from(v: &Val) -> Self {
        match v {
            Val::List(l) => l.iter().map(T::from_val).collect(),
            _ => panic!("engine: value kind"),
        }
    }
    fn body<S: Buffer>(m: &VariableSizeList<T, NonNullable, i32, S>) -> Body {
        offsets_body::<T, i32, S>(m.buffer_ref())
    }
    fn phys_null<S: Buffer>(m: &VariableSizeList<T, Nullable, i32, S>) -> (Option<Bits>, Body) {
        let v = m.buffer_ref();
        (validity_of(v), offsets_body::<T, i32, S>(v.child_ref()))
    }
    fn from_body<S: Home>(b: &Body) -> Result<VariableSizeList<T, NonNullable, i32, S>, String> {
        Ok(VariableSizeList::from_buffer(offsets_from::<T, i32, S>(b)?))
    }
    fn from_null<S: Home>(
        v: &Option<Bits>,
        b: &Body,
    ) -> Result<VariableSizeList<T, Nullable, i32, S>, String> {
        Ok(VariableSizeList::from_buffer(wrap::<_, S>(
            v,
            offsets_from::<T, i32, S>(b)?,
        )?))
    }
    fn rewrap<S: Buffer>(
        m: VariableSizeList<T, NonNullable, i32, S>,
    ) -> Result<VariableSizeList<T, NonNullable, i32, S>, String> {
        Ok(VariableSizeList::from_buffer(rewrap_offsets::<T, i32, S>(m.into_buffer())?))
    }
    fn rewrap_null<S: Buffer>(
        m: VariableSizeList<T, Nullable, i32, S>,
    ) -> Result<VariableSizeList<T, Nullable, i32, S>, String> {
        Ok(VariableSizeList::from_buffer(rewrap_validity(
            m.into_buffer(),
            rewrap_offsets::<T, i32, S>,
        )?))
    }
    fn visit<S: Buffer, V: Visit<S>>(m: &VariableSizeList<T, NonNullable, i32, S>, v: &mut V) {
        visit_offsets::<T, i32, S, V>(m.buffer_ref(), v);
    }
    fn visit_null<S: Buffer, V: Visit<S>>(m: &VariableSizeList<T, Nullable, i32, S>, v: &mut V) {
        visit_validity(m.buffer_ref(), v);
        visit_offsets::<T, i32, S, V>(m.buffer_ref().child_ref(), v);
    }
    fn nulls<S: Buffer>(m: &VariableSizeList<T, NonNullable, i32, S>) -> R {
        T::check_nulls::<S>(m.buffer_ref().child_ref())
    }
    fn nulls_null<S: Buffer>(m: &VariableSizeList<T, Nullable, i32, S>) -> R {
        check_nulls_of(m.buffer_ref())?;
        T::check_nulls::<S>(m.buffer_ref().child_ref().child_ref())
    }
    fn deep<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<NonNullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<NonNullable, S>: 'a,
    {
        deep_list::<T, i32, S>(v, m)
    }
    fn deep_null<'a, S: Buffer + 'static>(
        v: <<Self as Layout>::Memory<Nullable, S> as Collection>::View<'a>,
        m: &Val,
    ) -> R
    where
        <Self as Layout>::Memory<Nullable, S>: 'a,
    {
        match v {
            None => {
                ensure!(*m == Val::Null, "view is null, expected {m:?}");
                Ok(())
            }
            Some(v) => {
                ensure!(*m != Val::Null, "view is not null, expected null");
                deep_list::<T, i32, S>(v, m)
            }
        }
    }
}

/// Physical contents of an array.
pub fn phys<T: Item, S: Buffer>(a: &Array<T, S>) -> Phys {
    T::phys::<S>(a.buffer_ref())
}
/// An array over given physical contents.
pub fn from_phys<T: Item, S: Home>(p: &Phys) -> Result<Array<T, S>, String> {
    T::from_phys::<S>(p).map(Array::from_buffer)
}

/// What growable arrays provide (all layouts over growable storage).
pub trait Grow<T>:
    Collection<Owned = T> + CollectionAlloc<Alloc = ()> + CollectionRealloc + Debug + Extend<T>
{
}
impl<T, C> Grow<T> for C where
    C: Collection<Owned = T> + CollectionAlloc<Alloc = ()> + CollectionRealloc + Debug + Extend<T>
{
}

pub type Arr<T> = Array<T, VecBuffer>;

pub fn vals<T: Item>(xs: &[T]) -> Vec<Val> {
    xs.iter().map(T::val).collect()
}
pub fn items<T: Item>(vs: &[Val]) -> Vec<T> {
    vs.iter().map(T::from_val).collect()
}

/// Row lists whose lengths sit on byte, word and chunk boundaries.
pub const BOUNDARY: &[usize] = &[
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129,
];
pub const CHUNK: &[usize] = &[1023, 1024, 1025, 2047, 2048, 2049];

/// Applies a macro to every shape of a list: `$m!(type)` for each.
#[macro_export]
macro_rules! shapes_flat {
    ($m:ident) => {
        $m!(bool); $m!(u8); $m!(i8); $m!(u16); $m!(i16); $m!(u32); $m!(i32); $m!(u64); $m!(i64);
        $m!(u128); $m!(i128); $m!(usize); $m!(isize); $m!(f32); $m!(f64);
        $m!(narrow::fixed_size::FixedSizeArray<u8, 3>);
        $m!(Option<bool>); $m!(Option<u8>); $m!(Option<i8>); $m!(Option<u16>); $m!(Option<i16>);
        $m!(Option<u32>); $m!(Option<i32>); $m!(Option<u64>); $m!(Option<i64>); $m!(Option<u128>);
        $m!(Option<i128>); $m!(Option<usize>); $m!(Option<isize>); $m!(Option<f32>); $m!(Option<f64>);
        $m!(Option<narrow::fixed_size::FixedSizeArray<u16, 2>>);
    };
}
/// Compositions of the collections that arrays are made of, plain vectors among them.
#[macro_export]
macro_rules! compositions {
    ($m:ident) => {
        $m!(Option<bool>, narrow::validity::Validity<Vec<bool>>);
        $m!(Option<bool>, narrow::validity::Validity<narrow::bitmap::Bitmap>);
        $m!(Option<Vec<u8>>, narrow::validity::Validity<Vec<Vec<u8>>>);
        $m!(Option<[u8; 2]>, narrow::validity::Validity<Vec<[u8; 2]>>);
        $m!(Option<[bool; 3]>, narrow::validity::Validity<narrow::collection::flatten::Flatten<Vec<bool>, 3>>);
        $m!(Option<Vec<bool>>, narrow::validity::Validity<narrow::offset::Offsets<narrow::bitmap::Bitmap>>);
        $m!(Vec<bool>, narrow::offset::Offsets<Vec<bool>, i64>);
        $m!(Vec<bool>, narrow::offset::Offsets<narrow::bitmap::Bitmap>);
        $m!(Vec<Option<u8>>, narrow::offset::Offsets<Vec<Option<u8>>>);
        $m!(Vec<Option<bool>>, narrow::offset::Offsets<Vec<Option<bool>>>);
        $m!(Vec<Vec<u8>>, narrow::offset::Offsets<Vec<Vec<u8>>>);
        $m!(Vec<Vec<u8>>, narrow::offset::Offsets<narrow::offset::Offsets<Vec<u8>, i64>>);
        $m!(Vec<[bool; 3]>, narrow::offset::Offsets<Vec<[bool; 3]>>);
        $m!(Vec<[bool; 3]>, narrow::offset::Offsets<narrow::collection::flatten::Flatten<narrow::bitmap::Bitmap, 3>>);
        $m!([bool; 3], narrow::collection::flatten::Flatten<Vec<bool>, 3>);
        $m!([bool; 3], narrow::collection::flatten::Flatten<narrow::bitmap::Bitmap, 3>);
        $m!([Option<bool>; 3], narrow::collection::flatten::Flatten<Vec<Option<bool>>, 3>);
        $m!([Vec<u8>; 2], narrow::collection::flatten::Flatten<Vec<Vec<u8>>, 2>);
        $m!([Vec<u8>; 2], narrow::collection::flatten::Flatten<narrow::offset::Offsets<Vec<u8>>, 2>);
        $m!([[bool; 2]; 3], narrow::collection::flatten::Flatten<narrow::collection::flatten::Flatten<Vec<bool>, 2>, 3>);
        $m!(Option<u16>, Vec<Option<u16>>);
        $m!(Vec<u16>, Vec<Vec<u16>>);
        $m!([u16; 2], Vec<[u16; 2]>);
        $m!(bool, narrow::bitmap::Bitmap);
        $m!(u32, Vec<u32>);
    };
}
/// A representative of every combination of outer layout, nullability and inner storage.
#[macro_export]
macro_rules! shapes_core {
    ($m:ident) => {
        $m!(bool); $m!(u32); $m!(Option<bool>); $m!(Option<u16>);
        $m!([bool; 3]); $m!([u16; 2]); $m!([Option<bool>; 3]); $m!([Option<u8>; 2]);
        $m!(Option<[bool; 3]>); $m!(Option<[u8; 2]>); $m!(Option<[Option<bool>; 3]>);
        $m!(Vec<bool>); $m!(Vec<u16>); $m!(Vec<Option<bool>>); $m!(Vec<Option<u8>>);
        $m!(Option<Vec<bool>>); $m!(Option<Vec<u8>>); $m!(Option<Vec<Option<bool>>>);
    };
}
#[macro_export]
macro_rules! shapes_deep {
    ($m:ident) => {
        $m!([bool; 1]); $m!([u8; 5]); $m!([bool; 8]); $m!([bool; 10]); $m!([Option<u32>; 16]);
        $m!([[u8; 2]; 2]); $m!([Vec<u8>; 2]); $m!([Option<[bool; 3]>; 2]); $m!([Option<Vec<bool>>; 3]);
        $m!(Vec<Vec<u8>>); $m!(Vec<[bool; 3]>); $m!(Vec<[u8; 2]>); $m!(Vec<Option<[bool; 2]>>);
        $m!(Vec<Option<Vec<u8>>>); $m!(Vec<Option<[Option<bool>; 3]>>); $m!(Vec<[Option<u8>; 2]>);
        $m!(Option<Vec<Vec<bool>>>); $m!(Option<Vec<[bool; 3]>>); $m!(Option<[Vec<u8>; 2]>);
        $m!(Option<[[bool; 3]; 2]>); $m!(Option<[Option<[Option<bool>; 2]>; 3]>);
        $m!(Option<Vec<Option<Vec<Option<u8>>>>>); $m!(Vec<Vec<Vec<bool>>>);
        $m!(Option<Vec<Option<[Option<bool>; 3]>>>); $m!([Vec<Option<bool>>; 2]);
    };
}
/// Fixed-size rows that span bytes, words, and chunks of bits.
#[macro_export]
macro_rules! shapes_wide {
    ($m:ident) => {
        $m!([bool; 70]); $m!([u8; 300]); $m!([Option<bool>; 1030]); $m!([Option<u8>; 65]); $m!([Vec<u8>; 40]);
        $m!(Vec<[bool; 70]>); $m!([[Option<bool>; 9]; 40]); $m!(Option<[bool; 32]>); $m!(Option<[Option<u8>; 31]>);
    };
}
/// Every exportable shape.
#[macro_export]
macro_rules! shapes_ffi {
    ($m:ident) => {
        $m!(bool); $m!(u8); $m!(i8); $m!(u16); $m!(i16); $m!(u32); $m!(i32); $m!(u64); $m!(i64);
        $m!(f32); $m!(f64); $m!(Option<bool>); $m!(Option<u8>); $m!(Option<i8>); $m!(Option<u16>);
        $m!(Option<i16>); $m!(Option<u32>); $m!(Option<i32>); $m!(Option<u64>); $m!(Option<i64>);
        $m!(Option<f32>); $m!(Option<f64>);
        $m!([bool; 3]); $m!([u16; 2]); $m!([Option<bool>; 3]); $m!(Option<[bool; 3]>);
        $m!(Option<[u8; 2]>); $m!(Option<[Option<bool>; 3]>); $m!(Vec<bool>); $m!(Vec<u16>);
        $m!(Vec<Option<bool>>); $m!(Option<Vec<bool>>); $m!(Option<Vec<u8>>);
        $m!(Option<Vec<Option<bool>>>); $m!([u8; 1]); $m!([u32; 10]); $m!([bool; 12]); $m!([u8; 100]);
        $m!([[u8; 2]; 2]); $m!([Vec<u8>; 2]); $m!([Option<Vec<bool>>; 3]); $m!(Vec<Vec<u8>>);
        $m!(Vec<[bool; 3]>); $m!(Vec<Option<[bool; 2]>>); $m!(Vec<Option<Vec<u8>>>);
        $m!(Option<Vec<[bool; 3]>>); $m!(Option<[Vec<u8>; 2]>);
        $m!(Option<[Option<[Option<bool>; 2]>; 3]>); $m!(Option<Vec<Option<Vec<Option<u8>>>>>);
        $m!(Vec<Vec<Vec<bool>>>); $m!(Option<[[u32; 10]; 12]>);
    };
}

/// Lists with many elements: bytes, words, and chunks of bits end inside a row.
#[macro_export]
macro_rules! shapes_lists {
    ($m:ident) => {
        $m!(Vec<bool>); $m!(Vec<u16>); $m!(Vec<Option<bool>>); $m!(Vec<Option<u8>>);
        $m!(Option<Vec<bool>>); $m!(Option<Vec<Option<u16>>>); $m!(Vec<Vec<u8>>); $m!(Vec<[bool; 3]>);
        $m!(Vec<Option<[u8; 2]>>); $m!(Vec<Option<Vec<Option<bool>>>>); $m!([Vec<bool>; 2]);
        $m!(Option<[Option<Vec<u8>>; 2]>);
    };
}
pub const LONG: &[usize] = &[0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2049];
/// Nested levels of lists of any length.
pub fn list_levels(ty: &Ty) -> usize {
    match ty.base() {
        Ty::List(_, c) => 1 + list_levels(c),
        Ty::Fixed(_, c) => list_levels(c),
        _ => 0,
    }
}
/// Row number `k`, with `n` elements in its list at a level.
pub fn sized_val(ty: &Ty, level: usize, n: usize, k: usize) -> Val {
    match ty {
        Ty::Nullable(c) => sized_val(c, level, n, k),
        Ty::Fixed(w, c) if list_levels(c) > 0 => Val::List(
            (0..*w)
                .map(|i| if i == k % w { sized_val(c, level, n, k) } else { sized_val(c, level, [1, 0, 9][(k + i) % 3], k + i) })
                .collect(),
        ),
        Ty::List(_, c) if level == 0 => Val::List((0..n).map(|i| sample_val(c, k * 5 + i + 2)).collect()),
        Ty::List(_, c) => Val::List(vec![sample_val(c, k + 1), sized_val(c, level - 1, n, k), sample_val(c, k + 2)]),
        ty => sample_val(ty, k),
    }
}

/// Lists of rows some of which are long, for exhaustive products with other choices.
pub fn long_lists(ty: &Ty, tier: crate::engine::Tier) -> Vec<Vec<Val>> {
    let mut v = vec![];
    for level in 0..list_levels(ty) {
        for &n in tier.pick(&[65, 1025][..], LONG) {
            v.push((0..4).map(|k| if k % 2 == 1 { sized_val(ty, level, n + k / 2, k) } else { sample_val(ty, k) }).collect());
        }
    }
    v
}

/// Whether rows hold so many elements that only a few rows are worth their time.
pub fn is_wide(ty: &Ty) -> bool {
    match ty {
        Ty::Fixed(n, c) => *n > 120 || is_wide(c),
        _ => ty.child().is_some_and(is_wide),
    }
}

/// Items in every fixed-size row, all levels of fixed size taken together.
pub fn width(ty: &Ty) -> usize {
    match ty.base() {
        Ty::Fixed(n, c) => n * width(c),
        Ty::List(_, c) => width(c),
        _ => 1,
    }
}

/// The row lists for wide rows.
pub fn wide_rows(ty: &Ty) -> Vec<Vec<Val>> {
    let one = |k| sample_val(ty, k);
    vec![vec![], vec![one(1)], vec![one(2), one(7)], vec![one(5), one(3)]]
}

/// Reads every index, existing or not, of a column and (recursively) of the views of its rows.
pub fn check_every_index<T: Item, S: Buffer + 'static>(a: &Array<T, S>, model: &[Val]) -> R {
    let n = model.len();
    ensure!(a.len() == n, "length is {}, expected {n}", a.len());
    for i in wild_indices(n) {
        match crate::engine::no_panic(&format!("view({i}) of {n} rows"), || a.view(i))? {
            Some(v) => {
                ensure!(i < n, "view({i}) of {n} rows is answered");
                crate::engine::no_panic(&format!("reading the view of row {i} of {n}"), || {
                    T::deep_view::<S>(v, &model[i])
                })?
                .ctx(|| format!("row {i} of {n}"))?;
            }
            None => ensure!(i >= n, "view({i}) of {n} rows is missing"),
        }
        match crate::engine::no_panic(&format!("owned({i}) of {n} rows"), || a.owned(i))? {
            Some(v) => {
                ensure!(i < n, "owned({i}) of {n} rows is answered");
                ensure!(v.val() == model[i], "owned({i}) is {:?}, expected {:?}", v.val(), model[i]);
            }
            None => ensure!(i >= n, "owned({i}) of {n} rows is missing"),
        }
    }
    Ok(())
}
