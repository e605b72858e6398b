#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

L = "src/layout/"
p("C01", "Building an array from rows and reading it back returns exactly those rows",
  "For every supported item type (booleans, every fixed-size value type, fixed-size lists of width 1 or more, variable-size lists, optional versions of all of these, and any nesting of them) and every list of rows, an array built from those rows through any constructor has exactly that length and returns exactly those rows, in order and bit for bit (floating-point payloads included), through every read path: indexed view, owned element, borrowed iteration and consuming iteration. A null row reads as null and its neighbours are unaffected.",
  ["inputs", "programs"], "all item types up to nesting depth 3, all row lists over a small value alphabet up to a length bound, boundary lengths around 8, 64 and 1024 rows, all constructors, all read paths",
  "The unit tests build a few arrays of at most a handful of rows per layout; they cannot cover every combination of nesting, null pattern, length relative to byte and chunk boundaries, and constructor.",
  ["src/array.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/bitmap/unpacked.rs", L+"boolean.rs", L+"fixed_size_primitive.rs", L+"fixed_size_list.rs", L+"variable_size_list.rs"],
  [("row decomposition into value, offset and bitmap storage", "FromIterator / Extend / CollectionAllocIn impls of Bitmap, Validity, Offsets and Flatten"), ("row recomposition", "Collection::{view, owned, iter_views, into_iter_owned}")],
  observe=["Array::{from_iter, from_iter_in, try_from_iter_in, extend, try_extend}", "Collection::{view, owned, iter_views, into_iter_owned}"])

p("C02", "Any history of growing, shrinking and reserving behaves like a plain list",
  "After any sequence of extensions (fallible or not), truncations, capacity reservations, clones and unwrapping and rewrapping of its parts, starting from any array however it was made, an array reads exactly like a plain list that underwent the same sequence. Rows that were truncated away never come back, rows that were kept never change, and reserving capacity is unobservable.",
  ["histories"], "all operation sequences up to a depth over a small alphabet of operations, from start states built by every constructor, from raw parts with non-zero bit offsets, surplus bytes, surplus list data or no validity bitmap",
  "Unit tests exercise one or two operations from the empty array; the interplay of truncation with leftover bits, implicit validity, byte alignment and list offsets depends on the whole history.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"],
  [("append into the partially filled last byte and over stale bytes", "Extend and CollectionRealloc for Bitmap"), ("lazy materialisation of the validity bitmap, chunked commit", "Extend and CollectionRealloc for Validity"), ("offset append and truncation", "Extend and CollectionRealloc for Offsets")],
  state=[("bits/offset/buffer", "logical window over packed bytes", "src/bitmap/mod.rs"), ("collection/bitmap", "values and optional validity", "src/validity.rs"), ("data/offsets", "list data and row boundaries", "src/offset.rs")],
  observe=["CollectionRealloc::{extend, try_extend, truncate, reserve, try_reserve}", "Clone", "into_parts / try_from_parts"])

p("C03", "Reading outside an array is always answered with nothing, never a wrong row",
  "For every array, list row view or fixed-size row view and every index whatsoever, an indexed read returns a value exactly when the index is below the length, and otherwise returns nothing: it never panics, never wraps around and never returns another row's data, even for the largest representable index.",
  ["inputs"], "all shapes and lengths up to a bound, all indices in [0, len+2] and all indices whose scaling or offsetting wraps around the word size",
  "Tests probe one index past the end at most; wrap-around indices and views starting at non-zero positions are never tried.",
  ["src/collection/flatten.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/bitmap/validity.rs"],
  [("bounds check before scaling the index", "Collection::view of Flatten, Offsets, OffsetView, Bitmap, Validity"), ("bounds check of validity queries", "ValidityBitmap::{is_null, is_valid}")],
  observe=["Collection::{view, owned}", "ValidityBitmap::{is_null, is_valid}"])

p("C04", "Packed bits read back exactly, for every byte content, length and bit offset",
  "For all backing bytes, every bit length and every bit offset that fit in them, a bitmap reads bit i as bit (offset+i) in least-significant-bit-first order, through indexed access and through borrowed and consuming iteration alike. Bits outside the window never influence any result.",
  ["inputs"], "all contents of small byte buffers and structured contents of larger ones, all (length, offset) windows inside them, all storages",
  "Tests check a few hand-picked bitmaps; there are hundreds of (offset, length) alignments relative to byte boundaries.",
  ["src/bitmap/mod.rs", "src/bitmap/unpacked.rs"],
  [("bit and byte index computation", "Bitmap::{bit_index, byte_index}"), ("unpacking iterator with skip and take", "src/bitmap/unpacked.rs")],
  observe=["Bitmap::try_from_parts", "Collection::{view, iter_views, into_iter_owned} for Bitmap"])

p("C05", "Growing a bitmap preserves what it held and never exposes stale bits",
  "Appending any bits to a bitmap in any state (any bit offset, any length, surplus bytes or stale bits behind its end) yields exactly the old bits followed by the new bits. Bits that lie before the window in the backing bytes are left untouched, and stale bits behind the end never become visible.",
  ["histories", "inputs"], "all raw start windows over small dirty buffers, all appended bit strings up to a bound and boundary lengths, single and repeated appends mixed with truncations, through both the fallible and infallible interface",
  "Tests append to a freshly built bitmap; stale bytes after truncation, surplus bytes and offsets interact only in states that tests never build.",
  ["src/bitmap/mod.rs", "src/bitmap/packed.rs"],
  [("fill trailing bits, overwrite stale bytes, then append packed bytes", "Extend for Bitmap, CollectionRealloc::try_extend for Bitmap"), ("bit packing", "src/bitmap/packed.rs")],
  observe=["Extend/try_extend/truncate for Bitmap", "Bitmap::into_parts"])

p("C06", "Null queries and null counts always agree with the rows",
  "For every nullable array, however built and whatever operations it went through, the null count, valid count, per-row null and valid queries and the any/all null/valid queries are exactly the values computed from the rows it returns. This includes arrays with no bitmap, arrays sharing bytes at a non-zero bit offset, and arrays with stale bits outside their window.",
  ["inputs", "histories"], "all validity bit strings up to a bound, all windows over dirty bytes, boundary lengths with a single null at every position, all short operation histories, explicit and implicit validity",
  "Tests compare counts for a few fixed bitmaps; masks for the first and last byte depend on offset and length modulo 8.",
  ["src/bitmap/validity.rs", "src/bitmap/mod.rs", "src/validity.rs"],
  [("masked population count", "Bitmap::count_ones"), ("derived queries", "src/bitmap/validity.rs")],
  observe=["ValidityBitmap::{null_count, valid_count, is_null, is_valid, any_null, all_null, any_valid, all_valid}"])

p("C07", "Raw parts are accepted exactly when consistent, and come back unchanged",
  "Assembling a bitmap, validity wrapper, list or fixed-size list from raw parts succeeds exactly when the parts satisfy the documented conditions (window inside the bytes without wrap-around; equal lengths; offsets non-empty, starting at zero, non-negative, non-decreasing and within the data; data length a multiple of a non-zero width), and otherwise fails with an error that names a condition that really is violated, with the true numbers. What was accepted reads as the parts describe and disassembles into the identical parts.",
  ["inputs"], "all small windows and extreme (length, offset) values, all offset buffers up to length 5 over an alphabet with negative, equal, decreasing, overlong and extreme values for both offset widths, all child lengths for several widths, all length pairs",
  "Tests try one example per error variant; acceptance conditions are conjunctions over whole buffers and arithmetic that can wrap.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"],
  [("validation", "Bitmap::try_from_parts, Validity::try_from_parts, Offsets::try_from_parts, Flatten::try_from_parts"), ("inverse", "into_parts")],
  observe=["try_from_parts", "into_parts", "BitmapError", "ValidityError", "OffsetsError", "FlattenError"])

p("C08", "The memory of every array is laid out as the Arrow columnar format prescribes",
  "For every array, at every point of any history of operations, its raw parts follow the Arrow columnar layout: validity and boolean values as least-significant-bit-first bitmaps with 1 for valid, fixed-size values contiguous, list offsets starting at zero, non-decreasing, one more than the rows and within the data, fixed-size list children exactly width times the rows, and null rows still occupying their slot. Decoding the raw parts with an independent reader of that format yields exactly the rows.",
  ["inputs", "histories"], "all shapes up to nesting depth 3, all row lists over a small alphabet up to a bound, boundary lengths, short operation histories",
  "Round-trip tests cannot see a layout error that the reader undoes; only a few fixed byte patterns are asserted.",
  ["src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/bitmap/packed.rs", L+"boolean.rs", L+"fixed_size_list.rs", L+"variable_size_list.rs"],
  [("bit packing", "src/bitmap/packed.rs"), ("offset accumulation", "Extend for Offsets"), ("default values under nulls", "Extend and FromIterator for Validity")],
  observe=["BufferRef::buffer_ref", "ChildRef::child_ref", "into_buffer / into_parts"])

p("C09", "A failed fallible operation changes nothing, and memory exhaustion never aborts",
  "Whenever memory runs out at any point inside a fallible operation (constructing with capacity, constructing from rows, reserving, extending), the operation reports an allocation error instead of panicking or aborting, the array still reads exactly as before, nothing is leaked, and later operations work as if the failed one had never been attempted. Requests that can never be satisfied are reported the same way, and no error is reported when memory was available.",
  ["fault_sequences", "histories"], "every allocation performed by every fallible operation fails (once, or from then on), for every shape and many start states, with the global allocator and with a custom allocator-carrying storage, followed by further operations",
  "Tests never make the allocator fail in the middle of an operation on real storage; the rollback paths of nested layouts are unreachable for them.",
  ["src/collection/vec.rs", "src/collection/box.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"],
  [("reserve before push, truncate on error", "CollectionRealloc::try_extend for Vec, Bitmap, Validity, Offsets, Flatten"), ("checked capacity arithmetic", "try_with_capacity_in, try_reserve")],
  observe=["try_with_capacity_in", "try_from_iter_in", "try_reserve", "try_extend"])

p("C10", "A panic in the middle of an extension leaves a usable array with its old rows",
  "If the source of rows (or the storage) panics at any point during an extension and the panic is caught, the array still reads as its old rows followed by a possibly empty prefix of the rows supplied so far, through every read path, decomposition and export. All later operations behave as on a plain list with those rows.",
  ["fault_sequences", "histories"], "every panic position in extensions of up to a bounded number of rows plus the chunk boundaries, for every shape and many start states, followed by every short sequence of further operations",
  "Only a few tests panic in an iterator, at one position and for flat layouts; nested layouts commit their children in different units (bytes, chunks, rows).",
  ["src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/collection/flatten.rs"],
  [("uncommitted suffix is discarded", "Extend and try_extend of Validity and Offsets"), ("length is taken from the committed part", "Length for Validity and Offsets"), ("row granularity of fixed-size lists", "Extend for Flatten")],
  observe=["Extend::extend", "CollectionRealloc::try_extend", "Collection reads", "into_parts", "Export::export"])

p("C11", "List offsets never wrap: too much data is refused and the list stays intact",
  "When the total number of list elements would exceed what the offset type can express, a fallible extension reports an error and leaves the list exactly as it was, and an infallible one panics without ever recording a wrong, negative or wrapped row boundary. Totals up to and including the maximum are accepted, and the list remains usable afterwards.",
  ["inputs", "histories"], "all sequences of up to 4 rows whose lengths are taken around 0, half, the maximum of the 32- and 64-bit offset type, beyond it and the largest word, batched in every way, fallibly and infallibly",
  "Reaching the limit with real data needs gigabytes; tests do not approach it.",
  ["src/offset.rs"],
  [("checked conversion and addition of the running position", "Extend for Offsets, CollectionRealloc::try_extend for Offsets")],
  state=[("position", "running end offset", "src/offset.rs")],
  observe=["Offsets::{extend, try_extend, into_parts, view}"])

p("C12", "Iterators announce exactly what they will yield, at every step",
  "At every step of every consuming iteration, and of every borrowed iteration that announces an exact size, the announced remaining count is exactly the number of rows still to come, interleaving skips included. Once finished, iteration stays finished, and iterating never yields more or fewer rows than the length.",
  ["inputs", "histories"], "all shapes, lengths up to a bound and boundary lengths, windows with bit offsets, all storages, all interleavings of next/nth up to a depth",
  "Tests check the announced size at the start of a few iterations only; buffered partial bytes and chunked children matter only midway.",
  ["src/bitmap/unpacked.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/slice.rs"],
  [("size hints", "size_hint/len of BitUnpacked, ValidityIter, OffsetIntoIter, ArrayChunks, SliceIntoIter")],
  observe=["Iterator::{next, nth, size_hint}", "ExactSizeIterator::len"])

p("C13", "Only the rows an iterator supplies matter, not how it reports or ends",
  "The result of building or extending an array depends only on the rows the source yields before it first reports its end: truthful but loose size hints of any kind (including enormous or absent upper bounds), and sources that would yield more if asked again after their end, make no difference, and never cause an abort or an allocation error.",
  ["inputs", "programs"], "all size-hint behaviours (exact, zero, absent, huge upper bounds, changing over time) crossed with resumption patterns after the end, row counts around byte and chunk boundaries, every constructor and extension, every layout",
  "Tests use well-behaved collection iterators whose hints are exact and which stay exhausted.",
  ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/vec.rs"],
  [("capacity from size hints", "from_iter / from_iter_in / try_from_iter_in of Validity and Offsets"), ("iterator fusing", "Extend, FromIterator and from_iter_in for Bitmap")],
  observe=["from_iter, from_iter_in, try_from_iter_in, extend, try_extend"])

F = "narrow-ffi/src/"
p("C14", "Exported descriptors describe the array exactly, per the Arrow C data interface",
  "Exporting any supported array yields schema and array structures that an independent reader of the Arrow C data interface decodes to exactly the array's rows: format strings, nullability flags, lengths, null counts, offsets, buffer and child counts and order are as the specification prescribes at every nesting level, including for arrays without a validity bitmap. Buffers are exported without copying, and an array whose bitmaps start at a non-zero bit offset is refused with that offset, without leaking.",
  ["inputs", "histories"], "all exportable shapes up to nesting depth 3, all row lists over a small alphabet up to a bound, boundary lengths, explicit and implicit validity, short histories, all storages, non-zero offsets at every nesting level",
  "The tests decode a handful of exports and assert selected fields.",
  [F+"lib.rs", F+"export/mod.rs", F+"export/boolean.rs", F+"export/fixed_size_primitive.rs", F+"export/fixed_size_list.rs", F+"export/variable_size_list.rs"],
  [("descriptor construction", "ArrowArrayLayout impls"), ("schema construction", "ArrowSchema::{flat, fixed_size_list, variable_size_list}")],
  observe=["Export::export", "ArrowArray / ArrowSchema memory"])

p("C15", "Export followed by import returns the same rows without copying",
  "Importing what was exported, at the same item type, always succeeds and yields an array with exactly the original rows, nulls and null queries, backed by the exported memory itself. Importing never changes or releases the exported structures, which can be imported any number of times.",
  ["inputs", "histories"], "all exportable shapes up to nesting depth 3, all row lists over a small alphabet up to a bound, boundary lengths, explicit and implicit validity, arrays with any short history behind them, repeated imports, re-building from the imported view",
  "Tests round-trip single examples of up to depth two.",
  [F+"import/mod.rs", F+"import/boolean.rs", F+"import/fixed_size_primitive.rs", F+"import/fixed_size_list.rs", F+"import/variable_size_list.rs", F+"export/mod.rs"],
  [("layout import", "ImportLayout impls"), ("validity wrapping", "ImportNullability::wrap")],
  observe=["Export::export", "Import::import", "Collection reads"])

p("C16", "Foreign descriptors are imported exactly when they match the requested type",
  "Importing a foreign array/schema pair succeeds exactly when its metadata is a valid description of the requested item type (not released, format, nullability, length, zero offset, null count, buffer and child counts, no dictionary, required pointers, alignment, offsets and child lengths), and then reads as an independent reader of the C data interface does, touching no memory beyond what the description promises. Otherwise it fails with an error that names a condition that really is violated; it never panics.",
  ["inputs"], "for every shape: the valid descriptors and all single and paired deviations of every metadata field at every nesting level over an alphabet of boundary values",
  "Tests mutate one field at a time for selected shapes, at the top level.",
  [F+"import/mod.rs", F+"import/boolean.rs", F+"import/fixed_size_primitive.rs", F+"import/fixed_size_list.rs", F+"import/variable_size_list.rs"],
  [("metadata validation", "ImportLayout::import_layout"), ("child validation", "ImportLayout::import_child"), ("format parsing", "matches_format")],
  observe=["Import::import", "ImportError"])

p("C17", "Exported memory lives exactly as long as the release protocol says",
  "For every order of releasing, dropping and moving the exported structures allowed by the Arrow C data interface, including moving children out of their parents, every structure not yet released stays readable with its original contents, releasing marks the structure released exactly once, and after the last release all memory has been freed exactly once.",
  ["histories"], "all sequences of move, move-child-out, read, import, release and drop over array and schema trees up to nesting depth 3, with freed memory poisoned and quarantined",
  "Tests release a parent once; use-after-free and leaks are invisible to them and orders are never enumerated.",
  [F+"lib.rs", F+"export/mod.rs", F+"export/fixed_size_list.rs", F+"export/variable_size_list.rs"],
  [("release callbacks", "release_array, release_schema, release_flat_schema"), ("ownership of buffers and children", "ArrayData"), ("Drop", "Drop for ArrowArray and ArrowSchema")],
  state=[("release", "released marker", F+"lib.rs"), ("private_data", "owned storage", F+"export/mod.rs")],
  observe=["ArrowArray / ArrowSchema release callbacks and Drop", "is_released", "global allocator"])

p("C18", "All storage of an array comes from the allocator it was given",
  "When an array is built with an allocator handle, every one of its constituent buffers (values, offsets, validity, at every nesting level, including a validity bitmap created later) uses that handle, the array reports that handle, and no other handle or default allocator is ever consulted. Extending, reserving and truncating never change this.",
  ["programs", "histories"], "all shapes up to nesting depth 3 over an allocator-carrying storage, all constructors, all operation sequences up to a depth, two distinct handles in use",
  "One test file uses one custom arena with a flat type; which handle each nested buffer got is never observed.",
  ["src/collection/mod.rs", "src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/collection/flatten.rs", "src/array.rs"],
  [("handle propagation", "CollectionAllocIn impls, CollectionRealloc::allocator, materialize_bitmap")],
  observe=["CollectionAllocIn", "CollectionRealloc::allocator", "storage-side log"])

p("C19", "Reserved capacity is honoured: no allocation until it is used up",
  "After constructing an array with a given capacity or reserving room for a number of further rows, fallibly or not, adding up to that many rows performs no further allocation (for lists: as long as the rows together hold at most that many elements), whatever the array's length, bit alignment or nullability. Reserving room that is already there is accepted and changes nothing observable.",
  ["inputs", "histories"], "all shapes, all start lengths and requested capacities over boundary values, all splittings of the added rows into extensions up to a bound",
  "Tests assert capacities of a few single buffers; allocation behaviour of nested layouts is not observed.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"],
  [("capacity scaling", "with_capacity_in / reserve / try_reserve of Bitmap, Validity, Offsets, Flatten")],
  observe=["with_capacity_in, try_with_capacity_in, reserve, try_reserve", "global allocator"])

p("C20", "Borrowed views of nested rows are faithful and self-contained",
  "A view of a list row or fixed-size row behaves exactly like the row it stands for: its length, elements by index, iteration (borrowed and consuming), equality with other views and collections, copies, and conversion to an owned value all agree with the row, at every nesting level and for every row position. Two views compare equal exactly when their rows are equal.",
  ["inputs"], "all shapes with lists or fixed-size lists up to nesting depth 3, all row lists over a small alphabet up to a bound, all pairs of rows within and across arrays",
  "Tests compare a few views with literals, mostly of the first row.",
  ["src/offset.rs", "src/collection/flatten.rs", "src/collection/owned.rs", "src/collection/view.rs"],
  [("row window", "OffsetView"), ("row array", "FlattenView"), ("conversion", "IntoOwned")],
  observe=["OffsetView, FlattenView: view, iter_views, into_iter_owned, PartialEq, Deref, IntoOwned"])

p("C21", "The choice of backing storage never changes what an array means",
  "The same raw contents held in any supported backing storage (growable, boxed, reference counted, atomically reference counted, borrowed slices, fixed arrays) give arrays with identical lengths, rows, null queries and iteration behaviour, and exporting them yields equivalent descriptors. Cloning an array, including one sharing reference-counted storage, gives an equal array, and growing one copy never affects the other.",
  ["configurations", "inputs"], "all storages crossed with all shapes up to nesting depth 2, all row lists over a small alphabet up to a bound, dirty windows and implicit validity, boundary lengths",
  "Each storage has one or two tests with a flat type.",
  ["src/buffer.rs", "src/collection/vec.rs", "src/collection/box.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/slice.rs", "src/collection/array.rs", "src/length.rs"],
  [("storage abstraction", "Buffer, Collection impls of the storages")],
  observe=["Array over VecBuffer, BoxBuffer, RcBuffer, ArcBuffer, SliceBuffer, ArrayBuffer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
