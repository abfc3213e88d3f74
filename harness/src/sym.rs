//! The interface between the harnesses and whoever runs them: the symbolic
//! engine, or the native replay, which reads the inputs from a file.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __ksym_new(w: u32) -> u64;
        pub fn __ksym_assume(c: bool);
        pub fn __ksym_check(c: bool, m: *const u8, n: usize);
        pub fn __ksym_reach(i: u32);
        pub fn __ksym_panic_mode(m: u32);
        pub fn __ksym_observe(v: u64);
        pub fn __ksym_conc(v: u64) -> u64;
        pub fn __ksym_trace(m: *const u8, n: usize);
        pub fn __ksym_live() -> u64;
        pub fn __ksym_threads(f: unsafe extern "C" fn(*const u8, usize), arg: *const u8, n: usize, preempt: u32);
    }
}

#[cfg(feature = "native")]
mod imp {
    use crate::native::*;
    #[allow(non_snake_case)]
    pub unsafe fn __ksym_new(w: u32) -> u64 {
        new(w)
    }
    pub unsafe fn __ksym_assume(c: bool) {
        if !c {
            finish("infeasible", "")
        }
    }
    pub unsafe fn __ksym_check(c: bool, m: *const u8, n: usize) {
        if !c {
            let m = std::str::from_utf8(std::slice::from_raw_parts(m, n)).unwrap();
            finish("check", m)
        }
    }
    pub unsafe fn __ksym_reach(_: u32) {}
    pub unsafe fn __ksym_panic_mode(m: u32) {
        panic_mode(m)
    }
    pub unsafe fn __ksym_observe(v: u64) {
        observe(v)
    }
    pub unsafe fn __ksym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn __ksym_trace(m: *const u8, n: usize) {
        trace(std::slice::from_raw_parts(m, n))
    }
    pub unsafe fn __ksym_live() -> u64 {
        0
    }
}

use imp::*;

/// A fresh symbolic value.
pub fn u8() -> u8 {
    unsafe { __ksym_new(8) as u8 }
}
pub fn u16() -> u16 {
    unsafe { __ksym_new(16) as u16 }
}
pub fn u32() -> u32 {
    unsafe { __ksym_new(32) as u32 }
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn u64() -> u64 {
    unsafe { __ksym_new(64) }
}
pub fn bool() -> bool {
    let x = u8();
    assume(x < 2);
    x == 1
}
/// A symbolic number below `n`, which stays symbolic.
pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
/// A number below `n`; the path forks on its value.
pub fn pick(n: usize) -> usize {
    let x = u8() as u64;
    assume(x < n as u64);
    unsafe { __ksym_conc(x) as usize }
}
pub fn assume(c: bool) {
    unsafe { __ksym_assume(c) }
}
#[track_caller]
pub fn check(c: bool, m: &str) {
    unsafe { __ksym_check(c, m.as_ptr(), m.len()) }
}
/// Marks a point that some path has to reach, or the harness is vacuous.
pub fn reach(i: u32) {
    unsafe { __ksym_reach(i) }
}
/// A panic from here on ends the path quietly (1), is required (2), or is a violation (0).
pub fn panic_mode(m: u32) {
    unsafe { __ksym_panic_mode(m) }
}
/// Feeds a value into the digest that the native replay of this path must reproduce.
pub fn observe(v: u64) {
    unsafe { __ksym_observe(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { __ksym_conc(v) }
}
pub fn trace(s: &str) {
    unsafe { __ksym_trace(s.as_ptr(), s.len()) }
}
pub fn trace_bytes(s: &[u8]) {
    unsafe { __ksym_trace(s.as_ptr(), s.len()) }
}
/// Number of live heap blocks (0 when replayed natively).
pub fn live() -> u64 {
    unsafe { __ksym_live() }
}

struct Job<'a, T> {
    f: &'a (dyn Fn(usize) -> T + Sync),
    out: Vec<std::cell::UnsafeCell<Option<T>>>,
}

#[cfg(not(feature = "native"))]
unsafe extern "C" fn job<T>(j: *const u8, i: usize) {
    let j = &*(j as *const Job<T>);
    *j.out[i].get() = Some((j.f)(i));
}

/// Runs `f(0)` .. `f(n - 1)` in threads of their own, and returns what they return.
///
/// The engine switches from one thread to another when one ends or waits, and at
/// up to `preempt` accesses to memory that they share, wherever. Natively, they are real threads, that
/// do it again and again if a failure is looked for.
#[cfg(not(feature = "native"))]
pub fn threads<T: Send>(n: usize, preempt: u32, f: &(dyn Fn(usize) -> T + Sync)) -> Vec<(usize, T)> {
    let mut j = Job { f, out: vec![] };
    for _ in 0..n {
        j.out.push(None.into());
    }
    unsafe { __ksym_threads(job::<T>, &j as *const Job<T> as *const u8, n, preempt) };
    j.out.into_iter().enumerate().map(|(i, x)| (i, x.into_inner().unwrap())).collect()
}

#[cfg(feature = "native")]
pub fn threads<T: Send>(n: usize, _: u32, f: &(dyn Fn(usize) -> T + Sync)) -> Vec<(usize, T)> {
    let reps = crate::native::hammer();
    let b = std::sync::Barrier::new(n);
    std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|i| {
                let b = &b;
                s.spawn(move || {
                    b.wait();
                    (0..reps).map(|_| (i, f(i))).collect::<Vec<_>>()
                })
            })
            .collect();
        h.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

/// Runs `f`, which must panic exactly if `bad`.
pub fn must_panic_iff(bad: bool, f: impl FnOnce()) {
    if bad {
        panic_mode(2);
        f();
        // the path ends here when the panic did not happen: mode 2 reports it
    } else {
        panic_mode(0);
        f();
    }
}

pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, v) in c.iter().enumerate() {
            x |= (*v as u64) << (8 * i);
        }
        observe(x);
    }
}

/// How often to repeat something: often enough to overflow the stack if every
/// repetition takes some of it. The engine limits the depth of calls instead.
pub const MANY: usize = if cfg!(feature = "native") { 400_000 } else { 700 };
