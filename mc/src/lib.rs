#![allow(clippy::all, unstable_name_collisions, unpredictable_function_pointer_comparisons)]
pub mod alloc;
pub mod engine;
pub mod ffi;
pub mod hist;
pub mod iters;
pub mod items;
pub mod pledge;
pub mod reads;
pub mod track;
pub mod vast;
