//! An independent reader (and writer) of the Arrow C data interface.
//!
//! `CArray` and `CSchema` are the structures as the specification defines them; nothing here uses
//! the library except to reinterpret its structures.

use crate::engine::{R, no_panic};
use crate::fail;
use crate::items::*;
use narrow_ffi::{ArrowArray, ArrowSchema};
use std::ffi::{CStr, c_char, c_void};

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut CSchema,
    pub dictionary: *mut CSchema,
    pub release: Option<unsafe extern "C" fn(*mut CSchema)>,
    pub private_data: *mut c_void,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut CArray,
    pub dictionary: *mut CArray,
    pub release: Option<unsafe extern "C" fn(*mut CArray)>,
    pub private_data: *mut c_void,
}
const _: () = assert!(std::mem::size_of::<CArray>() == std::mem::size_of::<ArrowArray>());
const _: () = assert!(std::mem::size_of::<CSchema>() == std::mem::size_of::<ArrowSchema>());
const _: () = assert!(std::mem::align_of::<CArray>() == std::mem::align_of::<ArrowArray>());
const _: () = assert!(std::mem::align_of::<CSchema>() == std::mem::align_of::<ArrowSchema>());

pub fn c_array(a: &ArrowArray) -> &CArray {
    unsafe { &*std::ptr::from_ref(a).cast() }
}
pub fn c_schema(s: &ArrowSchema) -> &CSchema {
    unsafe { &*std::ptr::from_ref(s).cast() }
}
/// Takes the structures over, as a consumer would: the library's types no longer release them.
pub fn take_array(a: ArrowArray) -> CArray {
    let c = *c_array(&a);
    std::mem::forget(a);
    c
}
pub fn take_schema(s: ArrowSchema) -> CSchema {
    let c = *c_schema(&s);
    std::mem::forget(s);
    c
}
pub fn narrow_array(a: &CArray) -> &ArrowArray {
    unsafe { &*std::ptr::from_ref(a).cast() }
}
pub fn narrow_schema(s: &CSchema) -> &ArrowSchema {
    unsafe { &*std::ptr::from_ref(s).cast() }
}
impl CArray {
    /// Releases it through its callback.
    pub fn release(&mut self) {
        if let Some(f) = self.release {
            unsafe { f(self) };
        }
    }
    pub fn child(&self, i: usize) -> *mut CArray {
        unsafe { *self.children.add(i) }
    }
    pub fn buffer(&self, i: usize) -> *const u8 {
        unsafe { (*self.buffers.add(i)).cast() }
    }
    /// Moves the structure out of its place, as the specification describes.
    pub fn moved(&mut self) -> CArray {
        let c = *self;
        self.release = None;
        c
    }
}
impl CSchema {
    pub fn release(&mut self) {
        if let Some(f) = self.release {
            unsafe { f(self) };
        }
    }
    pub fn child(&self, i: usize) -> *mut CSchema {
        unsafe { *self.children.add(i) }
    }
    pub fn moved(&mut self) -> CSchema {
        let c = *self;
        self.release = None;
        c
    }
}

fn need(c: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if c { Ok(()) } else { Err(f()) }
}

/// Checks a schema against the type, at every level. `own`: its children are still in place.
pub fn check_schema(ty: &Ty, s: &CSchema) -> Result<(), String> {
    need(s.release.is_some(), || "schema is marked released".into())?;
    need(!s.format.is_null(), || "no format".into())?;
    let f = unsafe { CStr::from_ptr(s.format) }.to_string_lossy().into_owned();
    need(f == ty.format(), || format!("format is {f:?}, expected {:?}", ty.format()))?;
    if !s.name.is_null() {
        let _ = unsafe { CStr::from_ptr(s.name) }.to_bytes().len();
    }
    let flags = if ty.nullable() { 2 } else { 0 };
    need(s.flags == flags, || format!("flags are {}, expected {flags}", s.flags))?;
    need(s.dictionary.is_null(), || "schema has a dictionary".into())?;
    let n = i64::from(ty.child().is_some());
    need(s.n_children == n, || format!("schema has {} children, expected {n}", s.n_children))?;
    if let Some(c) = ty.child() {
        need(!s.children.is_null(), || "no schema children".into())?;
        let p = s.child(0);
        need(!p.is_null(), || "schema child is null".into())?;
        check_schema(c, unsafe { &*p }).map_err(|e| format!("child: {e}"))?;
    }
    Ok(())
}

pub fn buffers_of(ty: &Ty) -> i64 {
    match ty.base() {
        Ty::Fixed(..) => 1,
        _ => 2,
    }
}

unsafe fn bit(p: *const u8, i: usize) -> bool {
    unsafe { (*p.add(i / 8) >> (i % 8)) & 1 == 1 }
}

/// Reads the rows of an array structure of the given type.
pub fn read_rows(ty: &Ty, a: &CArray) -> Result<Vec<Val>, String> {
    need(a.release.is_some(), || "array is marked released".into())?;
    need(a.length >= 0, || format!("length is {}", a.length))?;
    need(a.offset >= 0, || format!("offset is {}", a.offset))?;
    need(a.n_buffers == buffers_of(ty), || format!("{} buffers, expected {}", a.n_buffers, buffers_of(ty)))?;
    let kids = i64::from(ty.child().is_some());
    need(a.n_children == kids, || format!("{} children, expected {kids}", a.n_children))?;
    need(a.dictionary.is_null(), || "array has a dictionary".into())?;
    need(!a.buffers.is_null(), || "no buffer pointers".into())?;
    if kids > 0 {
        need(!a.children.is_null(), || "no child pointers".into())?;
        need(!a.child(0).is_null(), || "child pointer is null".into())?;
    }
    let n = a.length as usize;
    let off = a.offset as usize;
    let validity = a.buffer(0);
    let valid = |i: usize| validity.is_null() || unsafe { bit(validity, off + i) };
    if !ty.nullable() {
        need(validity.is_null(), || "a non-nullable array has a validity buffer".into())?;
    }
    let values = || -> Result<*const u8, String> {
        let p = a.buffer(1);
        need(!p.is_null(), || "required buffer 1 is null".into())?;
        Ok(p)
    };
    let mut out = vec![];
    match ty.base() {
        Ty::Bool => {
            for i in 0..n {
                let p = values()?;
                out.push(Val::Bool(unsafe { bit(p, off + i) }));
            }
        }
        Ty::Prim(_, size) => {
            for i in 0..n {
                let p = values()?;
                let mut x = 0_u128;
                for b in 0..*size {
                    x |= u128::from(unsafe { *p.add((off + i) * size + b) }) << (8 * b);
                }
                out.push(Val::Num(x));
            }
        }
        Ty::Fixed(w, c) => {
            let child = unsafe { &*a.child(0) };
            let rows = read_rows(c, child).map_err(|e| format!("child: {e}"))?;
            need(rows.len() == (off + n) * w, || format!("child has {} rows, expected {}", rows.len(), (off + n) * w))?;
            for i in 0..n {
                out.push(Val::List(rows[(off + i) * w..(off + i + 1) * w].to_vec()));
            }
        }
        Ty::List(w, c) => {
            let child = unsafe { &*a.child(0) };
            let rows = read_rows(c, child).map_err(|e| format!("child: {e}"))?;
            let p = values()?;
            let at = |i: usize| -> i64 {
                unsafe {
                    if *w == 4 {
                        i64::from(p.cast::<i32>().add(off + i).read_unaligned())
                    } else {
                        p.cast::<i64>().add(off + i).read_unaligned()
                    }
                }
            };
            need(at(0) == 0, || format!("first offset is {}", at(0)))?;
            for i in 0..n {
                let (s, e) = (at(i), at(i + 1));
                need(0 <= s && s <= e && e as usize <= rows.len(), || {
                    format!("row {i} spans {s}..{e} of {} child rows", rows.len())
                })?;
                out.push(Val::List(rows[s as usize..e as usize].to_vec()));
            }
        }
        Ty::Nullable(_) => unreachable!(),
    }
    let mut nulls = 0;
    for (i, v) in out.iter_mut().enumerate() {
        if ty.nullable() && !valid(i) {
            *v = Val::Null;
            nulls += 1;
        }
    }
    need(a.null_count == nulls, || format!("null count is {}, but {nulls} rows are null", a.null_count))?;
    Ok(out)
}

/// Every buffer pointer of a structure with its size in bytes, depth first.
pub fn pointers(ty: &Ty, a: &CArray, out: &mut Vec<(*const u8, usize)>) {
    let n = a.length as usize;
    if ty.nullable() && !a.buffer(0).is_null() {
        out.push((a.buffer(0), n.div_ceil(8)));
    }
    match ty.base() {
        Ty::Bool => out.push((a.buffer(1), n.div_ceil(8))),
        Ty::Prim(_, s) => out.push((a.buffer(1), n * s)),
        Ty::List(w, _) => out.push((a.buffer(1), (n + 1) * w)),
        _ => {}
    }
    if let Some(c) = ty.child() {
        pointers(c, unsafe { &*a.child(0) }, out);
    }
}

/// Every array structure, depth first, root first.
pub fn all_arrays(a: &CArray) -> Vec<CArray> {
    let mut v = vec![*a];
    for i in 0..a.n_children.max(0) as usize {
        v.extend(all_arrays(unsafe { &*a.child(i) }));
    }
    v
}
pub fn all_schemas(a: &CSchema) -> Vec<CSchema> {
    let mut v = vec![*a];
    for i in 0..a.n_children.max(0) as usize {
        v.extend(all_schemas(unsafe { &*a.child(i) }));
    }
    v
}

/// Exported structures must hold exactly the rows.
pub fn check_exported(ty: &Ty, a: &CArray, s: &CSchema, model: &[Val]) -> R {
    no_panic("reading exported structures", || {
        if let Err(e) = check_schema(ty, s) {
            fail!("exported schema: {e}");
        }
        match read_rows(ty, a) {
            Err(e) => fail!("exported array: {e}"),
            Ok(r) if r != model => fail!("exported array holds {r:?}, expected {model:?}"),
            Ok(_) => Ok(()),
        }
    })?
}
