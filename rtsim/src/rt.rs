//! C ABI of the shipped runtime (the real code, linked as an instrumented object).
#![allow(dead_code)]
#[repr(C)]
pub struct TBytes {
    pub ptr: *const u8,
    pub len: u64,
}
#[repr(C)]
pub struct ReadRes {
    pub tag: u32,
    pub code: i32,
    pub bytes: *mut TBytes,
    pub message: *mut TBytes,
}
pub enum Ev {}
extern "C" {
    pub fn __tribute_init();
    pub fn __tribute_next_tag() -> i32;
    pub fn __tribute_print_int(v: i32);
    pub fn __tribute_print_nat(v: u32);
    pub fn __tribute_print_float(v: f64);
    pub fn __tribute_print_bytes(p: *const u8, n: u64);
    pub fn __tribute_print_newline();
    pub fn __tribute_bytes_print(b: *const TBytes);
    pub fn __tribute_io_write(b: *const TBytes, nl: u32);
    pub fn __tribute_io_read_line() -> *mut ReadRes;
    pub fn __tribute_io_read_line_result_dealloc(r: *mut ReadRes);
    pub fn __tribute_bytes_len(b: *const TBytes) -> u32;
    pub fn __tribute_bytes_range_equal(l: *const TBytes, ls: u32, r: *const TBytes, rs: u32, n: u32) -> u32;
    pub fn __tribute_bytes_concat(a: *const TBytes, b: *const TBytes) -> *mut TBytes;
    pub fn __tribute_bytes_slice_or_panic(b: *const TBytes, s: u32, e: u32) -> *mut TBytes;
    pub fn __tribute_alloc(n: u64) -> *mut u8;
    pub fn __tribute_dealloc(p: *mut u8, n: u64);
    pub fn __asan_init();
    pub fn __tribute_evidence_empty() -> *mut Ev;
    pub fn __tribute_evidence_extend(e: *const Ev, id: i32, tag: i32, tr: *const u8, hd: *const u8) -> *mut Ev;
    pub fn __tribute_evidence_lookup(e: *const Ev, id: i32) -> i32;
    pub fn __tribute_evidence_lookup_tr(e: *const Ev, id: i32) -> *const u8;
    pub fn __tribute_evidence_lookup_handler(e: *const Ev, id: i32) -> *const u8;
}
pub const HDR: usize = 8;
pub const BOX: u64 = 24;

/// A result of one line read, decoded and released.
#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Line(Vec<u8>),
    Eof,
    BadEncoding,
    System(i32, Vec<u8>),
    Unknown(u32),
}
pub unsafe fn bytes_of(b: *const TBytes) -> Vec<u8> {
    let b = &*b;
    if b.len == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(b.ptr, b.len as usize).to_vec()
    }
}
/// Release a byte string the way an owner does: its data block (when `own_data`), then its box.
pub unsafe fn drop_bytes(b: *mut TBytes, own_data: bool) {
    if b.is_null() {
        return;
    }
    let (p, n) = ((*b).ptr, (*b).len);
    if own_data && n > 0 {
        __tribute_dealloc(p as *mut u8, n);
    }
    __tribute_dealloc((b as *mut u8).sub(HDR), BOX);
}
pub unsafe fn read_line() -> Line {
    let r = __tribute_io_read_line();
    let res = match (*r).tag {
        0 => Line::Line(bytes_of((*r).bytes)),
        1 => Line::Eof,
        2 => Line::BadEncoding,
        3 => Line::System((*r).code, if (*r).message.is_null() { vec![] } else { bytes_of((*r).message) }),
        t => Line::Unknown(t),
    };
    drop_bytes((*r).bytes, true);
    drop_bytes((*r).message, true);
    __tribute_io_read_line_result_dealloc(r);
    res
}
