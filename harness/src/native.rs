//! Native replay: runs one harness on the concrete inputs of an input file and prints what happened.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;

static mut HEAP: (usize, usize) = (0, 0);
struct Garbage;
unsafe impl GlobalAlloc for Garbage {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HEAP.0 += 1;
        HEAP.1 += l.size();
        let p = System.alloc(l);
        if !p.is_null() && l.size() < 1 << 30 {
            std::ptr::write_bytes(p, 0xa5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        HEAP.0 += 1;
        HEAP.1 += l.size();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: Garbage = Garbage;

#[cfg(feature = "asan")]
extern "C" {
    fn __asan_region_is_poisoned(p: *const u8, n: usize) -> *const u8;
}

struct Buf {
    base: usize,
    bytes: usize,
    id: u64,
    w: usize,
}
struct In {
    ins: Vec<(String, u64)>,
    bufs: Vec<(String, usize, u64)>,
    cells: Vec<(u64, u64, u64)>,
    fvars: Vec<(u64, u64)>,
    pos: usize,
    bpos: usize,
    fpos: u64,
    live: Vec<Buf>,
    panic_ok: bool,
    done: u64,
    eqs: u64,
}
static mut ST: *mut In = std::ptr::null_mut();
fn st() -> &'static mut In {
    unsafe { &mut *ST }
}

fn out(s: String) {
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}
fn finish(what: &str) -> ! {
    out(format!("DONE {}", st().done));
    out(format!("OUTCOME {}", what));
    std::process::exit(0)
}

fn mix(x: u64) -> u64 {
    let mut x = x;
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^= x >> 33;
    x
}
fn gen_bits(buf: u64, idx: u64, w: usize) -> u64 {
    let h = mix(mix(buf + 1).wrapping_add(idx.wrapping_mul(0x9e3779b97f4a7c15)));
    if w == 64 {
        (1022 + (h >> 63)) << 52 | (h & ((1 << 52) - 1)) | (h >> 62 & 1) << 63
    } else {
        (126 + (h >> 63)) << 23 | (h >> 8 & ((1 << 23) - 1)) | (h >> 62 & 1) << 31
    }
}

fn next(kind: &str) -> u64 {
    let s = st();
    // the harness itself does not count
    let h = unsafe { HEAP };
    let r = s.ins.get(s.pos).cloned();
    unsafe { HEAP = h };
    s.pos += 1;
    match r {
        Some((k, v)) if k == kind => v,
        _ => finish("mismatch"),
    }
}

#[no_mangle]
pub extern "C" fn vf_heap_calls() -> usize {
    unsafe { HEAP.0 }
}
#[no_mangle]
pub extern "C" fn vf_heap_bytes() -> usize {
    unsafe { HEAP.1 }
}
#[no_mangle]
pub extern "C" fn vf_word() -> usize {
    vf_any()
}
#[no_mangle]
pub extern "C" fn vf_any() -> usize {
    next("any") as usize
}
#[no_mangle]
pub extern "C" fn vf_below(hi: usize) -> usize {
    let v = next("any") as usize;
    if v >= hi {
        finish("mismatch")
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_pick(lo: usize, hi: usize) -> usize {
    let v = next("pick") as usize;
    if v < lo || v > hi {
        finish("mismatch")
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_mul(a: usize, b: usize) -> usize {
    a.checked_mul(b).unwrap_or_else(|| finish("assume"))
}
#[no_mangle]
pub extern "C" fn vf_add(a: usize, b: usize) -> usize {
    a.checked_add(b).unwrap_or_else(|| finish("assume"))
}
#[no_mangle]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        finish("assume")
    }
}
unsafe fn text(m: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).to_string()
}
#[no_mangle]
pub unsafe extern "C" fn vf_assert(c: bool, m: *const u8, n: usize) {
    if !c {
        finish(&format!("assert {}", text(m, n)))
    }
}
#[no_mangle]
pub extern "C" fn vf_done() {
    st().done += 1;
}
#[no_mangle]
pub extern "C" fn vf_panic_ok(c: bool) {
    st().panic_ok = c;
}
#[no_mangle]
pub extern "C" fn vf_fp_hint(_k: usize) {}

fn bits_of(b: &Buf, idx: u64) -> u64 {
    for (cb, ci, v) in st().cells.iter() {
        if *cb == b.id && *ci == idx {
            return *v;
        }
    }
    gen_bits(b.id, idx, b.w)
}

fn buf(n: usize, w: usize, lanes: usize) -> *mut u8 {
    let s = st();
    let (_, cnt, id) = match s.bufs.get(s.bpos) {
        Some(x) => x.clone(),
        None => finish("mismatch"),
    };
    s.bpos += 1;
    if cnt != n {
        finish("mismatch")
    }
    let bytes = n as u128 * lanes as u128 * (w as u128 / 8);
    if bytes > 1 << 28 {
        finish("toolarge")
    }
    let bytes = bytes as usize;
    if bytes == 0 {
        return (w / 8) as *mut u8;
    }
    let p = unsafe { System.alloc(Layout::from_size_align(bytes, w / 8).unwrap()) };
    let b = Buf { base: p as usize, bytes, id, w };
    for i in 0..bytes / (w / 8) {
        let v = bits_of(&b, i as u64);
        unsafe {
            if w == 64 {
                *(p as *mut u64).add(i) = v;
            } else {
                *(p as *mut u32).add(i) = v as u32;
            }
        }
    }
    s.live.push(b);
    p
}
#[no_mangle]
pub extern "C" fn vf_buf_f64(n: usize) -> *mut f64 {
    buf(n, 64, 1) as *mut f64
}
#[no_mangle]
pub extern "C" fn vf_buf_f32(n: usize) -> *mut f32 {
    buf(n, 32, 1) as *mut f32
}
#[no_mangle]
pub extern "C" fn vf_buf_c64(n: usize) -> *mut f64 {
    buf(n, 64, 2) as *mut f64
}
#[no_mangle]
pub extern "C" fn vf_buf_c32(n: usize) -> *mut f32 {
    buf(n, 32, 2) as *mut f32
}
fn init(p: usize, w: usize) -> u64 {
    for b in st().live.iter() {
        if p >= b.base && p < b.base + b.bytes {
            return bits_of(b, ((p - b.base) / (w / 8)) as u64);
        }
    }
    finish("badinit")
}
#[no_mangle]
pub extern "C" fn vf_init_f64(p: *const f64) -> f64 {
    f64::from_bits(init(p as usize, 64))
}
#[no_mangle]
pub extern "C" fn vf_init_f32(p: *const f32) -> f32 {
    f32::from_bits(init(p as usize, 32) as u32)
}
fn fvar(w: usize) -> u64 {
    let s = st();
    let k = s.fpos;
    s.fpos += 1;
    for (i, v) in s.fvars.iter() {
        if *i == k {
            return *v;
        }
    }
    gen_bits(1000 + k, 7, w)
}
#[no_mangle]
pub extern "C" fn vf_any_f64() -> f64 {
    f64::from_bits(fvar(64))
}
#[no_mangle]
pub extern "C" fn vf_any_f32() -> f32 {
    f32::from_bits(fvar(32) as u32)
}
#[no_mangle]
pub unsafe extern "C" fn vf_in_bounds(p: *const u8, n: usize, m: *const u8, l: usize) {
    if n == 0 {
        return;
    }
    #[cfg(feature = "asan")]
    if !__asan_region_is_poisoned(p, n).is_null() {
        finish(&format!("assert {}", text(m, l)))
    }
    let _ = (p, m, l);
}
fn eq(kind: &str, a: u64, b: u64, ok: bool, m: String) {
    let s = st();
    if s.eqs < 400 {
        out(format!("EQ {} {} {}", kind, a, b));
    }
    s.eqs += 1;
    if !ok {
        finish(&format!("assert {}", m))
    }
}
#[no_mangle]
pub unsafe extern "C" fn vf_eq_f64(a: f64, b: f64, m: *const u8, l: usize) {
    let ok = a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
    eq("eq64", a.to_bits(), b.to_bits(), ok, text(m, l))
}
#[no_mangle]
pub unsafe extern "C" fn vf_eq_f32(a: f32, b: f32, m: *const u8, l: usize) {
    let ok = a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
    eq("eq32", a.to_bits() as u64, b.to_bits() as u64, ok, text(m, l))
}
#[no_mangle]
pub unsafe extern "C" fn vf_close_f64(a: f64, b: f64, m: *const u8, l: usize) {
    let ok = (a - b).abs() <= 1e-10 * (1.0 + a.abs() + b.abs()) || a.is_nan() && b.is_nan();
    eq("close64", a.to_bits(), b.to_bits(), ok, text(m, l))
}
#[no_mangle]
pub unsafe extern "C" fn vf_close_f32(a: f32, b: f32, m: *const u8, l: usize) {
    let ok = (a - b).abs() <= 2e-4 * (1.0 + a.abs() + b.abs()) || a.is_nan() && b.is_nan();
    eq("close32", a.to_bits() as u64, b.to_bits() as u64, ok, text(m, l))
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = match crate::find(&args[1]) {
        Some(f) => f,
        None => {
            out("OUTCOME noharness".to_string());
            return;
        }
    };
    let mut s = In {
        ins: vec![],
        bufs: vec![],
        cells: vec![],
        fvars: vec![],
        pos: 0,
        bpos: 0,
        fpos: 0,
        live: vec![],
        panic_ok: false,
        done: 0,
        eqs: 0,
    };
    let t = std::fs::read_to_string(&args[2]).unwrap();
    for line in t.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.first().copied() {
            Some("any") | Some("pick") => s.ins.push((w[0].to_string(), w[1].parse().unwrap())),
            Some("buf") => s.bufs.push((w[1].to_string(), w[2].parse().unwrap(), w[3].parse().unwrap())),
            Some("cell") => s.cells.push((w[1].parse().unwrap(), w[2].parse().unwrap(), w[4].parse().unwrap())),
            Some("fvar") => s.fvars.push((w[1].parse().unwrap(), w[3].parse().unwrap())),
            _ => {}
        }
    }
    unsafe {
        ST = Box::into_raw(Box::new(s));
    }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        out(format!("PANICMSG {}", m));
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let ok = st().panic_ok;
    match r {
        Ok(_) => finish("end"),
        Err(_) => finish(if ok { "panic" } else { "unexpected-panic" }),
    }
}
