pub mod api;
pub mod float;
pub mod heap;
pub mod int;
pub mod big;
pub mod num;
pub mod rm;
pub mod vals;
pub mod tok;
pub mod doc;
pub mod fs;
pub mod par;
pub mod ser;
pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
    [big::ENTRIES, num::ENTRIES, float::ENTRIES, heap::ENTRIES, rm::ENTRIES, vals::ENTRIES, tok::ENTRIES, par::ENTRIES, ser::ENTRIES].concat()
}
