//! C16: a foreign array and schema are imported exactly when they describe the requested type.
//!
//! `Node` is a foreign structure by value. It is judged by value (`wrong`, `rows`) and then laid out
//! in memory and given to the library.
use mc::alloc::*;
use mc::engine::*;
use mc::ffi::*;
use mc::items::*;
use mc::reads::*;
use mc::{ensure, fail};
use narrow::array::Array;
use narrow::buffer::{BufferRef, SliceBuffer};
use narrow::offset::OffsetsError;
use narrow_ffi::{ArrowArray, ArrowSchema, Import, ImportError};
use std::cell::Cell;
use std::ffi::{CString, c_void};
use std::ptr::{null, null_mut};

type Slice = SliceBuffer<'static>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Table {
    There,
    Null,
    NullEntry,
}

#[derive(Clone, Debug)]
struct Node {
    ty: Ty,
    // the array
    a_released: bool,
    length: i64,
    null_count: i64,
    offset: i64,
    n_buffers: i64,
    a_children: i64,
    a_table: Table,
    a_dictionary: bool,
    table: bool,
    /// Bits; None: null pointer.
    validity: Option<Vec<bool>>,
    data: Data,
    data_null: bool,
    /// Bytes by which the data buffer is off its alignment.
    shift: usize,
    // the schema
    s_released: bool,
    format: Option<Vec<u8>>,
    flags: i64,
    s_children: i64,
    s_table: Table,
    s_dictionary: bool,
    child: Option<Box<Node>>,
    /// Rows the buffers have.
    room: usize,
}
#[derive(Clone, Debug)]
enum Data {
    None,
    Bools(Vec<bool>),
    Nums(usize, Vec<u128>),
    Offsets(usize, Vec<i64>),
}

impl Node {
    /// A valid structure of these rows, whose buffers have room for `slack` further rows.
    fn new(ty: &Ty, rows: &[Val], slack: usize) -> Node {
        let n = rows.len();
        let base = ty.base();
        let filler = base.default_val();
        let slots: Vec<Val> = rows.iter().map(|r| if *r == Val::Null { filler.clone() } else { r.clone() }).collect();
        let nulls = rows.iter().filter(|r| ty.nullable() && **r == Val::Null).count();
        let validity = ty.nullable().then(|| {
            let mut v: Vec<bool> = rows.iter().map(|r| *r != Val::Null).collect();
            v.extend((0..slack).map(|_| true));
            v
        });
        let mut child = None;
        let data = match base {
            Ty::Bool => Data::Bools((0..n + slack).map(|i| slots.get(i).map_or(i % 3 == 0, |v| *v == Val::Bool(true))).collect()),
            Ty::Prim(_, s) => Data::Nums(
                *s,
                (0..n + slack)
                    .map(|i| match slots.get(i).cloned().unwrap_or_else(|| sample_val(base, i)) {
                        Val::Num(x) => x,
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            Ty::Fixed(w, c) => {
                let items: Vec<Val> = slots.iter().flat_map(items_of).collect();
                child = Some(Box::new(Node::new(c, &items, slack * w)));
                Data::None
            }
            Ty::List(w, c) => {
                let mut o = vec![0];
                for s in &slots {
                    o.push(o.last().unwrap() + items_of(s).len() as i64);
                }
                let last = *o.last().unwrap();
                o.extend((0..slack).map(|_| last));
                let items: Vec<Val> = slots.iter().flat_map(items_of).collect();
                child = Some(Box::new(Node::new(c, &items, slack)));
                Data::Offsets(*w, o)
            }
            Ty::Nullable(_) => unreachable!(),
        };
        let kids = i64::from(child.is_some());
        Node {
            a_released: false,
            length: n as i64,
            null_count: nulls as i64,
            offset: 0,
            n_buffers: buffers_of(ty),
            a_children: kids,
            a_table: Table::There,
            a_dictionary: false,
            table: true,
            validity,
            data,
            data_null: false,
            shift: 0,
            s_released: false,
            format: Some(ty.format().into_bytes()),
            flags: if ty.nullable() { 2 } else { 0 },
            s_children: kids,
            s_table: Table::There,
            s_dictionary: false,
            child,
            room: n + slack,
            ty: ty.clone(),
        }
    }
    fn at(&mut self, level: usize) -> &mut Node {
        match level {
            0 => self,
            _ => self.child.as_mut().unwrap().at(level - 1),
        }
    }
    fn fixed(&self) -> Option<usize> {
        match self.ty.base() {
            Ty::Fixed(w, _) => Some(*w),
            _ => None,
        }
    }
    fn align(&self) -> usize {
        match self.data {
            Data::Nums(s, _) | Data::Offsets(s, _) => s,
            _ => 1,
        }
    }
    /// The producer's part of the contract: buffers are as large as the length says.
    fn safe(&self) -> bool {
        let fits = self.length <= self.room as i64 || (self.fixed().is_some() && self.validity.is_none());
        fits && self.child.as_ref().is_none_or(|c| c.safe())
    }
    fn nulls(&self) -> usize {
        match &self.validity {
            Some(v) if self.ty.nullable() => v.iter().take(self.length.max(0) as usize).filter(|b| !**b).count(),
            _ => 0,
        }
    }

    /// Every error that would tell the truth. Empty: the structure is valid.
    fn wrong(&self, out: &mut Vec<ImportError>) {
        self.wrong_array(out);
        self.wrong_schema(out);
        let kids = i64::from(self.ty.child().is_some());
        if self.a_children != kids || self.s_children != kids {
            out.push(ImportError::UnexpectedChildCount { array: self.a_children, schema: self.s_children });
        }
        if let Some(c) = &self.child {
            let mut all = vec![];
            c.wrong(&mut all);
            out.extend(all);
        }
    }
    fn wrong_schema(&self, out: &mut Vec<ImportError>) {
        use ImportError::*;
        if self.s_released {
            out.push(ReleasedSchema);
        }
        match &self.format {
            None => out.push(MissingFormat),
            Some(f) if *f != self.ty.format().as_bytes() => out.push(UnexpectedFormat),
            _ => {}
        }
        if (self.flags & 2 != 0) != self.ty.nullable() {
            out.push(UnexpectedFlags { flags: self.flags });
        }
        if self.s_dictionary {
            out.push(UnexpectedDictionary);
        }
        if self.child.is_some() && self.s_table != Table::There {
            out.push(MissingSchemaChildren);
        }
    }
    fn wrong_array(&self, out: &mut Vec<ImportError>) {
        use ImportError::*;
        if self.a_released {
            out.push(ReleasedArray);
        }
        if self.length < 0 {
            out.push(InvalidLength { length: self.length });
        }
        if self.offset != 0 {
            out.push(NonZeroOffset { offset: self.offset });
        }
        let nullable = self.ty.nullable();
        if self.null_count < -1 || self.null_count > self.length || (!nullable && self.null_count > 0) {
            out.push(UnexpectedNullCount { null_count: self.null_count });
        }
        if self.n_buffers != buffers_of(&self.ty) {
            out.push(UnexpectedBufferCount { count: self.n_buffers });
        }
        if self.a_dictionary {
            out.push(UnexpectedDictionary);
        }
        if self.child.is_some() && self.a_table != Table::There {
            out.push(MissingArrayChildren);
        }
        if let (Some(w), Some(c)) = (self.fixed(), &self.child) {
            if self.length >= 0 && c.length >= 0 && i128::from(self.length) * w as i128 != i128::from(c.length) {
                out.push(FixedSizeListLengthMismatch {
                    length: self.length as usize,
                    child_length: c.length as usize,
                    size: w,
                });
            }
        }
        if !self.table {
            out.push(MissingBufferPointers);
            return;
        }
        if self.length < 0 {
            return;
        }
        let n = self.length as usize;
        if nullable {
            if self.validity.is_none() && self.null_count != 0 && n > 0 {
                out.push(MissingValidityBuffer);
            }
            let actual = self.nulls();
            if self.null_count >= 0 && self.null_count as usize != actual {
                out.push(NullCountMismatch { declared: self.null_count, actual });
            }
        }
        let misaligned = self.shift % self.align() != 0;
        match &self.data {
            Data::None => {}
            Data::Bools(_) | Data::Nums(..) => {
                if n > 0 && self.data_null {
                    out.push(MissingValuesBuffer);
                } else if n > 0 && misaligned {
                    out.push(MisalignedValuesBuffer { alignment: self.align() });
                }
            }
            Data::Offsets(_, o) => {
                if self.data_null {
                    out.push(MissingOffsetsBuffer);
                } else if misaligned {
                    out.push(MisalignedOffsetsBuffer { alignment: self.align() });
                } else {
                    let o = &o[..(n + 1).min(o.len())];
                    let mut bad = |error| out.push(InvalidOffsets { error });
                    if o[0] > 0 {
                        bad(OffsetsError::NonZeroFirst { first: o[0] as usize });
                    }
                    for (index, &x) in o.iter().enumerate() {
                        if x < 0 {
                            bad(OffsetsError::Negative { index });
                        }
                        if index > 0 && x < o[index - 1] {
                            bad(OffsetsError::NonMonotonic { index });
                        }
                    }
                    let last = *o.last().unwrap();
                    let data = self.child.as_ref().unwrap().length;
                    if data >= 0 && last > data {
                        bad(OffsetsError::OutOfBounds { last: last as usize, data: data as usize });
                    }
                }
            }
        }
    }

    /// The rows of a valid structure.
    fn rows(&self) -> Vec<Val> {
        let n = self.length as usize;
        let kids = self.child.as_ref().map(|c| c.rows());
        (0..n)
            .map(|i| {
                if self.ty.nullable() && self.validity.as_ref().is_some_and(|v| !v[i]) {
                    return Val::Null;
                }
                match &self.data {
                    Data::None => {
                        let w = self.fixed().unwrap();
                        Val::List(kids.as_ref().unwrap()[i * w..(i + 1) * w].to_vec())
                    }
                    Data::Bools(v) => Val::Bool(v[i]),
                    Data::Nums(_, v) => Val::Num(v[i]),
                    Data::Offsets(_, o) => Val::List(kids.as_ref().unwrap()[o[i] as usize..o[i + 1] as usize].to_vec()),
                }
            })
            .collect()
    }
}
fn items_of(v: &Val) -> Vec<Val> {
    match v {
        Val::List(l) => l.clone(),
        _ => unreachable!(),
    }
}

thread_local! { static RELEASES: Cell<u32> = const { Cell::new(0) }; }
unsafe extern "C" fn release_array(_: *mut CArray) {
    RELEASES.with(|r| r.set(r.get() + 1));
}
unsafe extern "C" fn release_schema(_: *mut CSchema) {
    RELEASES.with(|r| r.set(r.get() + 1));
}

/// A node in memory.
struct Placed {
    array: Box<CArray>,
    schema: Box<CSchema>,
    keep: Vec<Vec<u128>>,
    _format: Option<CString>,
    _buffers: Box<[*const c_void; 4]>,
    _arrays: Box<[*mut CArray; 3]>,
    _schemas: Box<[*mut CSchema; 3]>,
    child: Option<Box<Placed>>,
    other: Option<Box<(CArray, CSchema)>>,
}
fn bits(v: &[bool]) -> Vec<u8> {
    Bits::from_bools(v, 0, 2, 0xFF).bytes
}
fn put(keep: &mut Vec<Vec<u128>>, bytes: &[u8], shift: usize) -> *const c_void {
    let mut v = vec![0_u128; (bytes.len() + shift).div_ceil(16) + 2];
    let p = unsafe { v.as_mut_ptr().cast::<u8>().add(16 + shift) };
    unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len()) };
    keep.push(v);
    p.cast()
}
impl Placed {
    fn new(n: &Node) -> Box<Placed> {
        let mut keep = vec![];
        let validity = n.validity.as_ref().map_or(null(), |v| put(&mut keep, &bits(v), 0));
        let bytes: Vec<u8> = match &n.data {
            Data::None => vec![],
            Data::Bools(v) => bits(v),
            Data::Nums(s, v) => v.iter().flat_map(|x| x.to_le_bytes()[..*s].to_vec()).collect(),
            Data::Offsets(s, v) => v.iter().flat_map(|x| x.to_le_bytes()[..*s].to_vec()).collect(),
        };
        let data = if n.data_null { null() } else { put(&mut keep, &bytes, n.shift) };
        let mut buffers = Box::new([validity, data, data, data]);
        let mut child = n.child.as_ref().map(|c| Placed::new(c));
        let dummy = || {
            let array = CArray {
                length: 0,
                null_count: 0,
                offset: 0,
                n_buffers: 0,
                n_children: 0,
                buffers: null_mut(),
                children: null_mut(),
                dictionary: null_mut(),
                release: Some(release_array),
                private_data: null_mut(),
            };
            let schema = CSchema {
                format: c"n".as_ptr(),
                name: null(),
                metadata: null(),
                flags: 0,
                n_children: 0,
                children: null_mut(),
                dictionary: null_mut(),
                release: Some(release_schema),
                private_data: null_mut(),
            };
            Box::new((array, schema))
        };
        let mut other = Some(dummy());
        let (oa, os): (*mut CArray, *mut CSchema) = {
            let o = other.as_mut().unwrap();
            (&mut o.0, &mut o.1)
        };
        let (ca, cs): (*mut CArray, *mut CSchema) = match &mut child {
            Some(c) => (&mut *c.array, &mut *c.schema),
            None => (oa, os),
        };
        let pick = |t: Table, p| if t == Table::NullEntry { null_mut() } else { p };
        let mut arrays = Box::new([pick(n.a_table, ca), oa, oa]);
        let mut schemas = Box::new([
            if n.s_table == Table::NullEntry { null_mut() } else { cs },
            os,
            os,
        ]);
        let format = n.format.as_ref().map(|f| CString::new(f.clone()).expect("no zero byte"));
        let array = Box::new(CArray {
            length: n.length,
            null_count: n.null_count,
            offset: n.offset,
            n_buffers: n.n_buffers,
            n_children: n.a_children,
            buffers: if n.table { buffers.as_mut_ptr() } else { null_mut() },
            children: match n.a_table {
                Table::Null => null_mut(),
                _ if n.child.is_none() && n.a_children == 0 => null_mut(),
                _ => arrays.as_mut_ptr(),
            },
            dictionary: if n.a_dictionary { oa } else { null_mut() },
            release: if n.a_released { None } else { Some(release_array) },
            private_data: null_mut(),
        });
        let schema = Box::new(CSchema {
            format: format.as_ref().map_or(null(), |f| f.as_ptr()),
            name: null(),
            metadata: null(),
            flags: n.flags,
            n_children: n.s_children,
            children: match n.s_table {
                Table::Null => null_mut(),
                _ if n.child.is_none() && n.s_children == 0 => null_mut(),
                _ => schemas.as_mut_ptr(),
            },
            dictionary: if n.s_dictionary { os } else { null_mut() },
            release: if n.s_released { None } else { Some(release_schema) },
            private_data: null_mut(),
        });
        Box::new(Placed {
            array,
            schema,
            keep,
            _format: format,
            _buffers: buffers,
            _arrays: arrays,
            _schemas: schemas,
            child,
            other,
        })
    }
    /// Everything the importer could have changed.
    fn everything(&self) -> (Vec<CArray>, Vec<CSchema>, Vec<Vec<u128>>) {
        let o = self.other.as_ref().unwrap();
        let mut r = (vec![*self.array, o.0], vec![*self.schema, o.1], self.keep.clone());
        if let Some(c) = &self.child {
            let (a, s, k) = c.everything();
            r.0.extend(a);
            r.1.extend(s);
            r.2.extend(k);
        }
        r
    }
}

/// Nothing imported reaches beyond the memory that the description promises.
fn extents(n: &Node, p: &Phys) -> R {
    let len = n.length as usize;
    let bits = |what: &str, b: &Bits| {
        let (got, room) = (b.bytes.len(), len.div_ceil(8));
        ensure!(got <= room, "{what}: {got} bytes imported for {len} rows, which have only {room}");
        Ok(())
    };
    if let Some(Some(b)) = &p.validity {
        bits("validity", b)?;
    }
    match &p.body {
        Body::Bool(b) => bits("values", b),
        Body::Prim(v) => {
            ensure!(v.len() <= len, "{} values imported for {len} rows", v.len());
            Ok(())
        }
        Body::Fixed(_, c) => extents(n.child.as_ref().unwrap(), c),
        Body::List(o, c) => {
            ensure!(o.len() <= len + 1, "{} offsets imported for {len} rows", o.len());
            extents(n.child.as_ref().unwrap(), c)
        }
    }
}

/// The message of an error mentions every number the error carries.
fn tells(e: &ImportError) -> R {
    let message = e.to_string();
    ensure!(!message.is_empty(), "no message");
    let number = |c: char| !(c.is_ascii_digit() || c == '-');
    for n in format!("{e:?}").split(number).filter(|n| !n.is_empty()) {
        ensure!(message.split(number).any(|m| m == n), "the message {message:?} of {e:?} does not mention {n}");
    }
    Ok(())
}

/// Imports the structure and judges the answer.
fn judge<T: Item>(cx: &mut Ctx, node: &Node, thorough: bool) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let mut wrong = vec![];
    node.wrong(&mut wrong);
    let placed = Placed::new(node);
    let before = thorough.then(|| placed.everything());
    RELEASES.with(|r| r.set(0));
    // Sound: nothing imported outlives `placed`.
    let a: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(&placed.array)) };
    let s: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(&placed.schema)) };
    if thorough {
        window_open();
    }
    let got: R<Result<Array<T, Slice>, ImportError>> = no_panic("import", || unsafe { Import::import(a, s) });
    let verdict = (|| match got? {
        Ok(x) => {
            if let Some(e) = wrong.first() {
                fail!("imported although it is not valid: {e:?}");
            }
            let rows = exempt(|| node.rows());
            exempt(|| extents(node, &phys(&x)))?;
            if thorough {
                check_reads(&x, &rows)?;
                no_panic("null queries", || T::check_nulls::<Slice>(x.buffer_ref()))??;
                check_into(x, &rows)
            } else {
                check_reads(&x, &rows)
            }
        }
        Err(e) => {
            ensure!(!wrong.is_empty(), "a valid structure is refused: {e:?}");
            ensure!(wrong.contains(&e), "refused with {e:?}, which is not so; what is wrong: {wrong:?}");
            if !thorough {
                tells(&e)?;
            }
            Ok(())
        }
    })();
    if thorough {
        let w = window_close();
        verdict?;
        ensure!(w.overflow || w.clean(), "memory: {w:?}");
    } else {
        verdict?;
    }
    ensure!(RELEASES.with(Cell::get) == 0, "importing called a release callback");
    if let Some(b) = before {
        ensure!(b == placed.everything(), "importing changed the structures or their memory");
    }
    cx.outcome(hash_debug(&wrong.first()));
    Ok(())
}

type Dev = (String, Box<dyn Fn(&mut Node) + Send + Sync>);

/// The deviations of one level. `few`: with fewer formats and flags.
fn deviations(n: &Node, level: usize, parent: Option<(usize, i64)>, few: bool) -> Vec<Dev> {
    let mut v: Vec<Dev> = vec![];
    macro_rules! dev {
        ($what:expr, |$n:ident| $body:expr) => {
            v.push((format!("level {level}: {}", $what), Box::new(move |root: &mut Node| {
                let $n = root.at(level);
                $body;
            })));
        };
    }
    let len = n.length;
    dev!("array released", |n| n.a_released = true);
    dev!("schema released", |n| n.s_released = true);
    let mut lengths = vec![-1, i64::MIN, len - 1, len + 1, 0, len + 2];
    if let Some((w, plen)) = parent {
        let w = w as i64;
        // what would fit a parent with one row more or less
        lengths.extend([len + w, len - w, plen]);
        lengths.extend([2, 1, 4]);
        if !few {
            lengths.extend([len + (1 << 8), len + (1 << 16), len + (1 << 31), len + (1 << 32), len + (1 << 63 >> 1)]);
        }
    }
    if let Some(w) = n.fixed() {
        // lengths whose product with the width overflows, to something small where possible
        lengths.extend([i64::MAX, i64::MAX - 1, 1 << 62, 1 << 61, (1 << 62) + len, len + (1 << 8), len + (1 << 16), len + (1 << 31), len + (1 << 32)]);
        let wrap = (1_u128 << 64).div_ceil(w.max(1) as u128);
        if wrap <= i64::MAX as u128 {
            lengths.extend([wrap as i64, (wrap as i64).saturating_add(len), wrap as i64 - 1]);
        }
    }
    lengths.sort_unstable();
    lengths.dedup();
    lengths.retain(|&l| l != len);
    for l in lengths {
        dev!(format!("length {l}"), |n| n.length = l);
    }
    for o in [1, -1, i64::MAX, i64::MIN, 1 << 8, 1 << 16, 1 << 31, 1 << 32, -(1 << 32)].into_iter().take(if few { 4 } else { 9 }) {
        dev!(format!("offset {o}"), |n| n.offset = o);
    }
    let mut counts = vec![-1, -2, i64::MIN, i64::MAX, n.null_count - 1, n.null_count + 1, 0, len, len + 1];
    if !few {
        counts.extend([8, 16, 31, 32, 62].map(|s| n.null_count + (1 << s)));
        counts.extend([8, 16, 31, 32, 62].map(|s| n.null_count - (1 << s)));
    }
    counts.sort_unstable();
    counts.dedup();
    counts.retain(|&c| c != n.null_count);
    for c in counts {
        dev!(format!("null count {c}"), |n| n.null_count = c);
    }
    let own = n.n_buffers;
    for c in [0, 1, 2, 3, -1, i64::MAX, i64::MIN, own + (1 << 8), own + (1 << 16), own + (1 << 32), own - (1 << 32)].into_iter().take(if few { 7 } else { 11 }) {
        if c != n.n_buffers && !(few && c < 0) {
            dev!(format!("{c} buffers"), |n| n.n_buffers = c);
        }
    }
    let own = n.a_children;
    for c in [0, 1, 2, -1, i64::MAX, own + (1 << 8), own + (1 << 16), own + (1 << 32), own - (1 << 32)].into_iter().take(if few { 5 } else { 9 }) {
        if c != n.a_children {
            dev!(format!("{c} array children"), |n| n.a_children = c);
            dev!(format!("{c} schema children"), |n| n.s_children = c);
            if !few {
                dev!(format!("{c} children"), |n| (n.a_children = c, n.s_children = c));
            }
        }
    }
    dev!("array dictionary", |n| n.a_dictionary = true);
    dev!("schema dictionary", |n| n.s_dictionary = true);
    dev!("no buffer table", |n| n.table = false);
    if n.child.is_some() {
        for t in [Table::Null, Table::NullEntry] {
            dev!(format!("array children {t:?}"), |n| n.a_table = t);
            dev!(format!("schema children {t:?}"), |n| n.s_table = t);
        }
    }
    let room = n.room;
    match &n.validity {
        Some(bits) => {
            dev!("no validity", |n| n.validity = None);
            dev!("no validity, no nulls", |n| (n.validity = None, n.null_count = 0));
            for i in 0..(bits.len()).min(len as usize + 1) {
                dev!(format!("validity bit {i} flipped"), |n| {
                    if let Some(v) = &mut n.validity {
                        v[i] = !v[i];
                    }
                });
                dev!(format!("validity bit {i} flipped, null count unknown"), |n| {
                    if let Some(v) = &mut n.validity {
                        v[i] = !v[i];
                    }
                    n.null_count = -1;
                });
            }
            dev!("all null", |n| {
                n.validity = Some(vec![false; room]);
                n.null_count = n.length;
            });
        }
        None => {
            dev!("a validity buffer of ones", |n| n.validity = Some(vec![true; room]));
        }
    }
    if !matches!(n.data, Data::None) {
        dev!("no data", |n| n.data_null = true);
        for s in [1, 2, 3, 4, 8, 12] {
            dev!(format!("data off by {s} bytes"), |n| n.shift = s);
        }
    }
    if let Data::Offsets(_, o) = &n.data {
        let kids = n.child.as_ref().unwrap().length;
        for i in 0..=(len as usize).min(4) + 1 {
            let prev = if i == 0 { 0 } else { o[i - 1] };
            let mut xs = vec![-1, 0, 1, prev, prev - 1, prev + 1, kids, kids + 1, i64::from(i32::MIN), i64::from(i32::MAX)];
            xs.sort_unstable();
            xs.dedup();
            xs.retain(|&x| x != o[i]);
            for x in xs {
                dev!(format!("offset {i} is {x}"), |n| {
                    if let Data::Offsets(_, o) = &mut n.data {
                        o[i] = x;
                    }
                });
            }
        }
        dev!("all offsets shifted by one", |n| {
            if let Data::Offsets(_, o) = &mut n.data {
                for x in o {
                    *x = (*x + 1).min(i64::from(i32::MAX));
                }
            }
        });
    }
    dev!("no format", |n| n.format = None);
    let own = n.ty.format();
    for f in formats(&n.ty, few) {
        if f != own.as_bytes() {
            dev!(format!("format {:?}", String::from_utf8_lossy(&f)), |n| n.format = Some(f.clone()));
        }
    }
    let mut flags: Vec<i64> = vec![0, 2, 1, 3, 4, 6];
    if !few {
        flags.extend([5, 7, 8, 10, -1, -3, i64::MIN, i64::MIN | 2, i64::MAX, i64::MAX - 2, 1 << 32, (1 << 32) | 2, 2 << 32, 2 << 8]);
    }
    for f in flags {
        if f != n.flags {
            dev!(format!("flags {f}"), |n| n.flags = f);
        }
    }
    v
}
fn formats(ty: &Ty, few: bool) -> Vec<Vec<u8>> {
    let own = ty.format();
    let mut v: Vec<String> = vec![String::new()];
    if few {
        v.extend(["i", "b", "+l", "+w:3", "+w:2"].map(String::from));
    } else {
        let known = [
            "n", "b", "c", "C", "s", "S", "i", "I", "l", "L", "e", "f", "g", "z", "Z", "u", "U", "vz", "vu", "d:19,10",
            "w:42", "tdD", "tdm", "tts", "ttn", "tss:", "tDs", "tiM", "+l", "+L", "+vl", "+vL", "+w:1", "+w:2", "+w:3",
            "+w:10", "+w:12", "+w:100", "+s", "+m", "+ud:0", "+r", "+w", "+w:", "+w:0", "+", "+W:2", "w:2", "-w:2", "+w2",
            "+l:2", "+w:18446744073709551615", "+w:18446744073709551616", "+w:99999999999999999999999999",
        ];
        v.extend(known.map(String::from));
        for t in [" ", "x", "\n", "0", ":", own.as_str()] {
            v.push(format!("{own}{t}"));
            v.push(format!("{t}{own}"));
        }
        for cut in 1..own.len() {
            v.push(own[..cut].into());
        }
        v.push(own.to_uppercase());
        v.push(own.to_lowercase());
        if let Ty::Fixed(n, _) = ty.base() {
            let n = *n as u128;
            for x in [n + 1, n.saturating_sub(1), n * 10, n + 256, n + (1 << 32), n + (1 << 64), n + (1 << 63), n + 10, n + (10_u128 * (1 << 64))] {
                v.push(format!("+w:{x}"));
            }
            for s in ["-", "+", " ", "x", "0x", ":"] {
                v.push(format!("+w:{s}{n}"));
                v.push(format!("+w:{n}{s}"));
            }
            for d in 0..=9 {
                v.push(format!("+w:{n}{d}"));
                v.push(format!("+w:{d}"));
            }
            // characters around the digits
            for c in 1..=127_u8 {
                v.push(format!("+w:{}", char::from(c)));
            }
        }
    }
    let mut v: Vec<Vec<u8>> = v.into_iter().map(String::into_bytes).collect();
    v.sort();
    v.dedup();
    // Leading zeros: the same number, differently written; either answer is fine.
    v.retain(|f| !(f.starts_with(b"+w:0") && f.len() > 4));
    v
}
fn all_deviations(root: &Node, few: bool) -> Vec<Dev> {
    let mut v = vec![];
    let mut n = root;
    let mut parent = None;
    let mut level = 0;
    loop {
        v.extend(deviations(n, level, parent, few));
        let w = n.fixed().unwrap_or(1);
        parent = Some((w, n.length));
        match &n.child {
            Some(c) => n = c,
            None => return v,
        }
        level += 1;
    }
}

fn row_sets(ty: &Ty) -> Vec<Vec<Val>> {
    let a = alphabet(ty, true);
    let some = |k: usize| (0..k).map(|i| a[(i * 2 + 1) % a.len()].clone()).collect::<Vec<_>>();
    let mut v = vec![vec![], vec![a[a.len() - 1].clone()], some(3), (0..3).map(|k| sample_val(ty, k + 2)).collect()];
    if ty.nullable() {
        v.push(vec![Val::Null; 2]);
    }
    if ty.child().is_none() {
        v.push((0..9).map(|k| sample_val(ty, k + 5)).collect());
    }
    v
}

/// Single deviations, looked at closely.
fn singles<T: Item>() -> impl Fn(&mut Ctx) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let ty = T::ty();
    let starts: Vec<(Node, Vec<Dev>)> = row_sets(&ty)
        .iter()
        .map(|rows| {
            let n = Node::new(&ty, rows, 10);
            let d = all_deviations(&n, false);
            (n, d)
        })
        .collect();
    move |cx| {
        let (root, devs) = cx.pick(&starts);
        let mut n = root.clone();
        let i = cx.choose(devs.len() + 1);
        if i > 0 {
            devs[i - 1].1(&mut n);
        }
        let what = |i: usize| if i == 0 { "as is".to_string() } else { devs[i - 1].0.clone() };
        cx.note(|| format!("{:?}: {}", root.rows(), what(i)));
        cx.state(hash_debug(&n));
        cx.step();
        if !n.safe() {
            return Ok(());
        }
        judge::<T>(cx, &n, true).ctx(|| format!("{:?}: {}", root.rows(), what(i)))
    }
}
/// Every combination of `k` deviations.
fn combined<T: Item>(k: usize, at_most: usize) -> impl Fn(&mut Ctx) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let ty = T::ty();
    let starts: Vec<(Node, Vec<Dev>)> = row_sets(&ty)
        .iter()
        .take(at_most)
        .map(|rows| {
            let n = Node::new(&ty, rows, 10);
            let d = all_deviations(&n, true);
            (n, d)
        })
        .collect();
    move |cx| {
        let (root, devs) = cx.pick(&starts);
        let mut n = root.clone();
        let mut last = 0;
        let mut chosen = vec![];
        for j in 0..k {
            // strictly increasing, and leaving room for the rest
            let from = if j == 0 { 0 } else { last + 1 };
            let to = devs.len() - (k - 1 - j);
            last = from + cx.choose(to - from);
            devs[last].1(&mut n);
            chosen.push(last);
        }
        let what = || chosen.iter().map(|&i| devs[i].0.as_str()).collect::<Vec<_>>().join(" + ");
        cx.note(|| format!("{:?}: {}", root.rows(), what()));
        cx.state(hash_of(&(root.length, &chosen)));
        cx.step();
        if !n.safe() {
            return Ok(());
        }
        judge::<T>(cx, &n, false).ctx(|| format!("{:?}: {}", root.rows(), what()))
    }
}
/// Every short format at every level.
fn spelled<T: Item>(tier: Tier) -> impl Fn(&mut Ctx) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let ty = T::ty();
    let root = Node::new(&ty, &row_sets(&ty)[2], 10);
    let mut levels = 1;
    let mut t = &ty;
    while let Some(c) = t.child() {
        levels += 1;
        t = c;
    }
    move |cx| {
        let level = cx.choose(levels);
        let mut n = root.clone();
        let fixed = n.at(level).fixed().is_some();
        let mut f = vec![];
        if fixed && cx.flag() {
            f.extend(b"+w:");
            let alphabet = b"0123456789+- :x/";
            for _ in 0..cx.choose(tier.pick(4, 5)) {
                f.push(*cx.pick(alphabet));
            }
            if f.starts_with(b"+w:0") {
                return Ok(());
            }
        } else {
            match cx.choose(3) {
                0 => {}
                1 => f.push(1 + cx.choose(255) as u8),
                _ => {
                    f.push(32 + cx.choose(95) as u8);
                    f.push(32 + cx.choose(95) as u8);
                }
            }
        }
        cx.note(|| format!("level {level}: format {:?}", String::from_utf8_lossy(&f)));
        n.at(level).format = Some(f.clone());
        cx.state(hash_of(&(level, &f)));
        cx.step();
        judge::<T>(cx, &n, false).ctx(|| format!("level {level}: format {:?}", String::from_utf8_lossy(&f)))
    }
}

/// Every width up to `limit`, and the same plus powers of two, against one requested width.
fn widths<T: Item>(limit: u128) -> impl Fn(&mut Ctx) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let ty = T::ty();
    let Ty::Fixed(own, _) = *ty.base() else { unreachable!() };
    let roots: [std::sync::OnceLock<Node>; 3] = Default::default();
    move |cx| {
        let rows = cx.choose(3);
        // Without rows any width fits the child; with rows only the right one does.
        let mut x = if rows == 0 && cx.flag() {
            cx.choose(limit as usize + 1)
        } else {
            let low = if rows == 0 || own > 3000 { own.saturating_sub(20) } else { 0 };
            low + cx.choose(own + 20 - low)
        } as u128;
        if rows == 0 && x + 16 >= own as u128 && x <= own as u128 + 16 {
            let lift = [0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 10_u128 << 64, 1 << 96];
            x += *cx.pick::<u128>(&lift);
        }
        let mut n = roots[rows]
            .get_or_init(|| Node::new(&ty, &(0..rows).map(|k| sample_val(&ty, k + 3)).collect::<Vec<_>>(), 2))
            .clone();
        n.format = Some(format!("+w:{x}").into_bytes());
        cx.note(|| format!("{rows} rows, format +w:{x}"));
        cx.state(hash_of(&(rows, x)));
        cx.step();
        judge::<T>(cx, &n, false).ctx(|| format!("{rows} rows, format +w:{x} against a width of {own}"))
    }
}

/// Lists of no width cannot be represented: they are refused, whatever else is the matter.
fn zero_width<T: Item>() -> impl Fn(&mut Ctx) -> R
where
    Array<T, Slice>: Import<'static>,
{
    let ty = T::ty();
    let starts: Vec<(Node, Vec<Dev>)> = (0..3)
        .map(|rows| {
            let n = Node::new(&ty, &(0..rows).map(|k| sample_val(&ty, k + 3)).collect::<Vec<_>>(), 10);
            let d = all_deviations(&n, false);
            (n, d)
        })
        .collect();
    move |cx| {
        let (root, devs) = cx.pick(&starts);
        let mut n = root.clone();
        let i = cx.choose(devs.len() + 1);
        if i > 0 {
            devs[i - 1].1(&mut n);
        }
        let what = |i: usize| if i == 0 { "as is".to_string() } else { devs[i - 1].0.clone() };
        cx.note(|| format!("{} rows: {}", root.length, what(i)));
        cx.state(hash_debug(&n));
        cx.step();
        if !n.safe() {
            return Ok(());
        }
        let mut wrong = vec![];
        n.wrong(&mut wrong);
        wrong.push(ImportError::UnsupportedFixedSizeListSize { size: 0 });
        let placed = Placed::new(&n);
        // Sound: what is imported does not outlive `placed`.
        let a: &'static ArrowArray = unsafe { &*std::ptr::from_ref(narrow_array(&placed.array)) };
        let s: &'static ArrowSchema = unsafe { &*std::ptr::from_ref(narrow_schema(&placed.schema)) };
        let got: R<Result<Array<T, Slice>, ImportError>> = no_panic("import", || unsafe { Import::import(a, s) });
        match got.ctx(|| what(i))? {
            Ok(_) => fail!("{}: a list of no width is imported", what(i)),
            Err(e) => {
                cx.outcome(hash_debug(&e));
                ensure!(wrong.contains(&e), "{}: refused with {e:?}, which is not so; what is wrong: {wrong:?}", what(i));
            }
        }
        Ok(())
    }
}

fn main() {
    mc::engine::main("C16", |tier, c| {
        c.bound("every exportable item type up to three levels deep; 4 to 6 row sets of 0 to 9 rows; every single deviation of every field at every level (at most ~250 per level) and every pair of deviations from a reduced list (thorough: every triple)");
        c.bound("format strings: a list of Arrow formats and near misses, every string of one byte and every printable string of two, and for fixed-size lists every suffix of up to three (thorough: four) characters over digits, signs and separators");
        c.assume("buffers are as large as the declared length says (the safety contract of import); lengths without buffers behind them are given only to fixed-size lists without a validity buffer");
        c.assume("a fixed-size list width with leading zeros may be accepted or refused");
        macro_rules! v {
            ($t:ty) => {
                c.job(concat!("single/", stringify!($t)), singles::<$t>());
                c.job(concat!("pair/", stringify!($t)), combined::<$t>(2, tier.pick(4, 6)));
                c.job(concat!("format/", stringify!($t)), spelled::<$t>(tier));
            };
        }
        mc::shapes_ffi!(v);
        macro_rules! z {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("zero/", stringify!($t)), zero_width::<$t>());
            )*};
        }
        c.bound("lists of width zero at every level, alone and with every single deviation: refused");
        z!([u8; 0], Option<[bool; 0]>, [Option<u16>; 0], Vec<[u8; 0]>, [[u8; 0]; 2], [[u8; 2]; 0], Option<Vec<Option<[bool; 0]>>>);
        macro_rules! w {
            ($($t:ty),* $(,)?) => {$(
                c.job(concat!("width/", stringify!($t)), widths::<$t>(tier.pick(2500, 140_000)));
            )*};
        }
        c.bound("widths: requested widths 1, 2, 3, 10, 127, 128, 255, 256, 300, 999, 1000 and 2000 (thorough also 65535, 65536 and 70000) against every declared width up to 2500 (thorough: 140000; 4000 for the widest) and those near the requested one, also plus powers of two");
        w!([u8; 1], [bool; 2], [u16; 3], Option<[u8; 10]>, [u8; 127], [bool; 128], [u8; 255], [u8; 256], Option<[bool; 300]>, [u8; 999], [u8; 1000], [u16; 2000]);
        if tier.thorough() {
            macro_rules! x {
                ($($t:ty),* $(,)?) => {$(
                    c.job(concat!("width/", stringify!($t)), widths::<$t>(4000));
                )*};
            }
            x!([u8; 65535], [u8; 65536], [bool; 70000]);
        }
        v!([bool; 4]);
        v!([u8; 4]);
        v!(Option<[u16; 4]>);
        v!([[u8; 4]; 3]);
        if tier.thorough() {
            macro_rules! t {
                ($($t:ty),* $(,)?) => {$(
                    c.job(concat!("triple/", stringify!($t)), combined::<$t>(3, 4));
                )*};
            }
            t!(bool, Option<bool>, u32, Option<u16>, [bool; 3], Option<[u8; 2]>, [Option<u8>; 2], Vec<u16>, Option<Vec<bool>>, Vec<Option<u8>>);
        }
    });
}
