//! Native replay: the inputs come from a list, checks and panics end the process.

use std::cell::{Cell, RefCell};

thread_local! {
    static INPUTS: RefCell<(Vec<(u32, u64)>, usize)> = const { RefCell::new((vec![], 0)) };
    static DIGEST: Cell<u64> = const { Cell::new(0xcbf29ce484222325) };
    static MODE: Cell<u32> = const { Cell::new(0) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
}

pub fn set_inputs(v: Vec<(u32, u64)>) {
    INPUTS.with(|i| *i.borrow_mut() = (v, 0));
    TRACE.with(|t| t.set(std::env::var_os("KSYM_TRACE").is_some()));
}
pub fn new(w: u32) -> u64 {
    INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        match i.0.get(k) {
            Some((ww, v)) => {
                if *ww != w {
                    finish("mismatch", &format!("input {} has width {}, wanted {}", k, ww, w));
                }
                *v
            }
            None => 0,
        }
    })
}
pub fn observe(v: u64) {
    DIGEST.with(|d| {
        let mut h = d.get();
        for b in v.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        d.set(h)
    })
}
pub fn panic_mode(m: u32) {
    MODE.with(|x| x.set(m))
}
pub fn trace(b: &[u8]) {
    if TRACE.with(|t| t.get()) {
        eprintln!("[trace] {}", String::from_utf8_lossy(b));
    }
}
pub fn finish(kind: &str, msg: &str) -> ! {
    crate::vfs::clean();
    println!("OUTCOME {} {} {}", kind, DIGEST.with(|d| d.get()), msg);
    std::process::exit(match kind {
        "ok" | "panic-ok" => 0,
        "infeasible" => 20,
        "mismatch" => 21,
        _ => 10,
    })
}
pub fn on_panic(loc: &str, msg: &str) -> ! {
    match MODE.try_with(|m| m.get()).unwrap_or(0) {
        0 => finish("panic", &format!("{} {}", loc, msg)),
        _ => finish("panic-ok", loc),
    }
}
pub fn end() -> ! {
    match MODE.with(|m| m.get()) {
        2 => finish("nopanic", "a panic was required here"),
        _ => finish("ok", ""),
    }
}

/// How often threads do what they do.
pub fn hammer() -> usize {
    std::env::var("KSYM_HAMMER").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
