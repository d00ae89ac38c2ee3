//! The configuration without std: nothing may need the standard library.
#![no_std]
#![allow(dead_code, unused_imports)]
extern crate alloc;
use alloc::{boxed::Box, collections::{BTreeMap, BTreeSet, LinkedList}, string::{String, ToString}, vec::Vec};
include!("types.rs");

struct Nothing;
unsafe impl core::alloc::GlobalAlloc for Nothing {
    unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
        core::ptr::null_mut()
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator]
static NOTHING: Nothing = Nothing;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
pub extern "C" fn probe(p: *const u8, n: usize) -> bool {
    let bytes = unsafe { core::slice::from_raw_parts(p, n) };
    let mut ok = true;
    #[cfg(feature = "binary")]
    {
        use nanoserde::{DeBin, SerBin};
        ok &= <(Pt, Tu, Un, En) as DeBin>::deserialize_bin(bytes).map_or(false, |x| x.serialize_bin() == bytes);
        ok &= <(Ge<u8>, Ne, At, Pr)>::deserialize_bin(bytes).map_or(false, |x| x.serialize_bin() == bytes);
        ok &= <(Vec<BTreeSet<u8>>, LinkedList<f64>, core::time::Duration, [i128; 3])>::deserialize_bin(bytes).map_or(false, |x| x.serialize_bin() == bytes);
    }
    let Ok(text) = core::str::from_utf8(bytes) else { return ok };
    let _ = text;
    #[cfg(feature = "json")]
    {
        use nanoserde::{DeJson, SerJson};
        ok &= <(Pt, Tu, Un, En)>::deserialize_json(text).map_or(false, |x| x.serialize_json() == text);
        ok &= <(Ge<u8>, Ne, At, Pr)>::deserialize_json(text).map_or(false, |x| x.serialize_json() == text);
        ok &= <(Vec<BTreeSet<u8>>, LinkedList<f64>, core::time::Duration, [f32; 3])>::deserialize_json(text).map_or(false, |x| x.serialize_json() == text);
    }
    #[cfg(feature = "ron")]
    {
        use nanoserde::{DeRon, SerRon};
        ok &= <(Pt, Tu, Un, En)>::deserialize_ron(text).map_or(false, |x| x.serialize_ron() == text);
        ok &= <(Ge<u8>, Ne, At, Tr)>::deserialize_ron(text).map_or(false, |x| x.serialize_ron() == text);
        ok &= <(Vec<BTreeSet<u8>>, LinkedList<f64>, core::time::Duration, [f32; 3])>::deserialize_ron(text).map_or(false, |x| x.serialize_ron() == text);
    }
    #[cfg(feature = "toml")]
    {
        ok &= nanoserde::TomlParser::parse(text).map_or_else(|e| e.to_string() == text, |x| x.len() == 3);
    }
    ok
}
