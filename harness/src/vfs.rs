//! Files and the error stream: in memory for the engine, in a scratch
//! directory and a redirected descriptor for the native replay.

/// What the system does to reads and writes: it transfers at most `chunk`
/// bytes at a time, fails every other call as interrupted, and fails for good
/// after `left` bytes.
struct Faults {
    on: bool,
    chunk: usize,
    interrupt: bool,
    odd: bool,
    left: usize,
}
static mut FAULTS: Faults = Faults { on: false, chunk: 0, interrupt: false, odd: false, left: 0 };

pub fn faults(chunk: usize, interrupt: bool, left: usize) {
    unsafe { FAULTS = Faults { on: true, chunk, interrupt, odd: false, left } }
}
pub fn no_faults() {
    unsafe { FAULTS.on = false }
}
/// How many of `n` bytes are transferred, or the error number.
fn cut(n: usize, full: i32) -> Result<usize, i32> {
    unsafe {
        if !FAULTS.on || n == 0 {
            return Ok(n);
        }
        FAULTS.odd = !FAULTS.odd;
        if FAULTS.interrupt && FAULTS.odd {
            return Err(4);
        }
        if FAULTS.left == 0 {
            return Err(full);
        }
        Ok(n.min(FAULTS.chunk).min(FAULTS.left))
    }
}

/// `n` bytes have been transferred.
fn done(n: usize) {
    unsafe {
        if FAULTS.on {
            FAULTS.left -= n;
        }
    }
}

#[cfg(not(feature = "native"))]
mod imp {
    use super::{cut, done};
    use std::ffi::{c_char, CStr};
    use std::fmt::Write;

    struct File {
        name: Vec<u8>,
        data: Vec<u8>,
    }
    struct Fd {
        file: usize,
        at: usize,
    }
    const FIRST: i32 = 100;
    const DIR: usize = usize::MAX;
    static mut FILES: Vec<File> = vec![];
    static mut FDS: Vec<Option<Fd>> = vec![];
    static mut CAPTURE: bool = false;
    static mut ERR: Vec<u8> = vec![];
    static mut OUT: Vec<u8> = vec![];
    static mut IN: (Vec<u8>, usize) = (vec![], 0);

    static mut ERRNO: i32 = 0;

    #[no_mangle]
    unsafe extern "C" fn __xpg_strerror_r(_: i32, buf: *mut u8, _: usize) -> i32 {
        *buf = b'e';
        *buf.add(1) = 0;
        0
    }
    #[no_mangle]
    unsafe extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }

    #[allow(static_mut_refs)]
    fn files() -> &'static mut Vec<File> {
        unsafe { &mut FILES }
    }
    #[allow(static_mut_refs)]
    fn fds() -> &'static mut Vec<Option<Fd>> {
        unsafe { &mut FDS }
    }

    fn fail(e: i32) -> i32 {
        unsafe { *__errno_location() = e };
        -1
    }

    #[no_mangle]
    unsafe extern "C" fn open64(path: *const c_char, flags: i32, _mode: u32) -> i32 {
        let p = CStr::from_ptr(path).to_bytes();
        let write = flags & 3 != 0;
        if p == b"/v" {
            if write {
                return fail(21);
            }
            fds().push(Some(Fd { file: DIR, at: 0 }));
            return FIRST + fds().len() as i32 - 1;
        }
        let i = match files().iter().position(|f| f.name == p) {
            Some(i) => {
                if flags & 0o1000 != 0 {
                    files()[i].data.clear();
                }
                i
            }
            // there is one directory
            None if write && flags & 0o100 != 0 && p.starts_with(b"/v/") => {
                files().push(File { name: p.to_vec(), data: vec![] });
                files().len() - 1
            }
            None => return fail(2),
        };
        fds().push(Some(Fd { file: i, at: 0 }));
        FIRST + fds().len() as i32 - 1
    }

    #[no_mangle]
    #[allow(static_mut_refs)]
    unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let (data, at): (&[u8], &mut usize) = if fd == 0 {
            (&IN.0, &mut IN.1)
        } else {
            match fds().get_mut((fd - FIRST) as usize) {
                Some(Some(f)) if f.file == DIR => return fail(21) as isize,
                Some(Some(f)) => (&files()[f.file].data, &mut f.at),
                _ => return fail(9) as isize,
            }
        };
        let n = match cut(n, 5) {
            Ok(n) => n.min(data.len() - *at),
            Err(e) => return fail(e) as isize,
        };
        done(n);
        std::ptr::copy_nonoverlapping(data.as_ptr().add(*at), buf, n);
        *at += n;
        n as isize
    }

    #[no_mangle]
    #[allow(static_mut_refs)]
    unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        let n = match cut(n, 28) {
            Ok(n) => n,
            Err(e) => return fail(e) as isize,
        };
        done(n);
        let b = std::slice::from_raw_parts(buf, n);
        if fd == 1 {
            OUT.extend_from_slice(b);
        } else if fd >= FIRST {
            match fds().get_mut((fd - FIRST) as usize) {
                Some(Some(f)) => {
                    files()[f.file].data.extend_from_slice(b);
                    f.at += n;
                }
                _ => return fail(9) as isize,
            }
        }
        n as isize
    }

    #[no_mangle]
    unsafe extern "C" fn close(fd: i32) -> i32 {
        match fds().get_mut((fd - FIRST) as usize) {
            Some(f) if f.is_some() => {
                *f = None;
                0
            }
            _ => fail(9),
        }
    }

    /// What the code prints to the error stream.
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub fn ksym_eprint(a: std::fmt::Arguments<'_>) {
        struct Out;
        impl Write for Out {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                unsafe {
                    if CAPTURE {
                        ERR.extend_from_slice(s.as_bytes());
                    }
                }
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Out, a);
    }

    pub fn put(name: &str, data: &[u8]) -> String {
        let n = format!("/v/{}", name);
        files().push(File { name: n.as_bytes().to_vec(), data: data.to_vec() });
        n
    }
    pub fn path(name: &str) -> String {
        format!("/v/{}", name)
    }
    pub fn get(name: &str) -> Option<Vec<u8>> {
        let n = format!("/v/{}", name);
        files().iter().find(|f| f.name == n.as_bytes()).map(|f| f.data.clone())
    }
    pub fn remove(name: &str) {
        let n = format!("/v/{}", name);
        for f in files() {
            if f.name == n.as_bytes() {
                f.name.clear();
            }
        }
    }
    pub fn open_files() -> usize {
        fds().iter().filter(|f| f.is_some()).count()
    }
    pub fn capture() {
        unsafe { CAPTURE = true }
    }
    #[allow(static_mut_refs)]
    pub fn captured() -> Vec<u8> {
        unsafe {
            CAPTURE = false;
            std::mem::take(&mut ERR)
        }
    }
    #[allow(static_mut_refs)]
    pub fn stdin(data: &[u8]) {
        unsafe { IN = (data.to_vec(), 0) }
    }
    /// A descriptor of the file; it is made if there is none.
    pub fn open(name: &str, write: bool) -> i32 {
        let n = format!("/v/{}\0", name);
        unsafe { open64(n.as_ptr() as *const c_char, if write { 0o1101 } else { 0 }, 0) }
    }
    pub fn capture_out() {}
    #[allow(static_mut_refs)]
    pub fn captured_out() -> Vec<u8> {
        unsafe { std::mem::take(&mut OUT) }
    }
    pub fn clean() {}
}

#[cfg(feature = "native")]
mod imp {
    use std::fs;
    use std::io::Write;
    use std::os::fd::AsRawFd;
    use std::path::PathBuf;

    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }

    #[no_mangle]
    unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        match super::cut(n, 5) {
            Ok(n) => {
                let r = syscall(0, fd as i64, buf, n) as isize;
                super::done(r.max(0) as usize);
                r
            }
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        }
    }
    #[no_mangle]
    unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        match super::cut(n, 28) {
            Ok(n) => {
                let r = syscall(1, fd as i64, buf, n) as isize;
                super::done(r.max(0) as usize);
                r
            }
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        }
    }
    pub fn open(name: &str, write: bool) -> i32 {
        use std::os::fd::IntoRawFd;
        let p = dir().join(name);
        let f = if write { fs::File::create(p) } else { fs::File::open(p) };
        f.map_or(-1, |f| f.into_raw_fd())
    }

    fn dir() -> PathBuf {
        let d = std::env::temp_dir().join(format!("ksym-{}", std::process::id()));
        fs::create_dir_all(&d).unwrap();
        d
    }
    pub fn put(name: &str, data: &[u8]) -> String {
        fs::write(dir().join(name), data).unwrap();
        path(name)
    }
    pub fn path(name: &str) -> String {
        dir().join(name).to_str().unwrap().into()
    }
    pub fn get(name: &str) -> Option<Vec<u8>> {
        fs::read(dir().join(name)).ok()
    }
    pub fn remove(name: &str) {
        let _ = fs::remove_file(dir().join(name));
    }
    pub fn open_files() -> usize {
        let d = dir();
        fs::read_dir("/proc/self/fd")
            .unwrap()
            .filter(|f| fs::read_link(f.as_ref().unwrap().path()).map_or(false, |p| p.starts_with(&d)))
            .filter(|f| {
                let p = fs::read_link(f.as_ref().unwrap().path()).unwrap();
                !p.file_name().map_or(false, |n| n.to_str().unwrap().starts_with('.'))
            })
            .count()
    }
    fn to(fd: i32, name: &str) {
        let f = fs::File::create(dir().join(name)).unwrap();
        unsafe { dup2(f.as_raw_fd(), fd) };
    }
    pub fn capture() {
        to(2, ".err");
    }
    pub fn captured() -> Vec<u8> {
        fs::read(dir().join(".err")).unwrap_or_default()
    }
    pub fn stdin(data: &[u8]) {
        fs::write(dir().join(".in"), data).unwrap();
        let f = fs::File::open(dir().join(".in")).unwrap();
        unsafe { dup2(f.as_raw_fd(), 0) };
    }
    static mut STDOUT: i32 = -1;
    extern "C" {
        fn dup(a: i32) -> i32;
    }
    pub fn capture_out() {
        let _ = std::io::stdout().flush();
        unsafe { STDOUT = dup(1) };
        to(1, ".out");
    }
    pub fn captured_out() -> Vec<u8> {
        let _ = std::io::stdout().flush();
        unsafe { dup2(STDOUT, 1) };
        fs::read(dir().join(".out")).unwrap_or_default()
    }
    pub fn clean() {
        let d = std::env::temp_dir().join(format!("ksym-{}", std::process::id()));
        if d.exists() {
            let _ = fs::remove_dir_all(d);
        }
    }
}

pub use imp::*;
