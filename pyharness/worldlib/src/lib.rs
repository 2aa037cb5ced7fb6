//! The harness's landscapes behind a C interface, so that Python problems compute the same bits.
#![allow(dead_code)]
#[path = "../../../harness/src/j.rs"]
mod j;
#[path = "../../../harness/src/vclock.rs"]
mod vclock;
#[path = "../../../harness/src/world.rs"]
mod world;

use std::os::raw::c_char;
use world::World;

/// # Safety
/// `s` is a JSON string
#[unsafe(no_mangle)]
pub unsafe extern "C" fn world_new(s: *const c_char) -> *mut World {
    let t = unsafe { std::ffi::CStr::from_ptr(s) }.to_str().unwrap();
    Box::into_raw(Box::new(World::from_json(&serde_json::from_str(t).unwrap(), None)))
}

/// # Safety
/// the arrays have room for n, or n * n, numbers
#[unsafe(no_mangle)]
pub unsafe extern "C" fn world_eval(w: *const World, kind: i32, x: *const f64, n: usize, out: *mut f64) -> i32 {
    let (w, x) = unsafe { (&*w, std::slice::from_raw_parts(x, n)) };
    let v: Option<Vec<f64>> = match kind {
        0 => w.raw_f(x).map(|v| vec![v]),
        1 => w.raw_g(x),
        _ => w.raw_h(x).map(|h| h.into_iter().flatten().collect()),
    };
    match v {
        None => 0,
        Some(v) => {
            unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len()) };
            1
        }
    }
}
