"""Makes the copy of the standard library that the symbolic build uses.

Only the default hasher of HashMap is replaced: it hands the bytes to the
engine (`__ksym_hash`), which returns a hash that is a function of the bytes
(or only of their number, in constant-hash mode, where keys may be symbolic).
"""
import os, re, shutil, subprocess, sys

PATCH = '''
#[stable(feature = "hashmap_build_hasher", since = "1.7.0")]
impl Default for RandomState {
    #[inline]
    fn default() -> RandomState {
        RandomState::new()
    }
}

#[derive(Clone, Debug)]
#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
pub struct DefaultHasher(u64);

unsafe extern "C" {
    fn __ksym_hash(h: u64, p: *const u8, n: usize, kind: u32) -> u64;
}

impl DefaultHasher {
    /// stand-in
    #[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
    #[inline]
    #[rustc_const_unstable(feature = "const_default", issue = "143894")]
    #[must_use]
    pub const fn new() -> DefaultHasher {
        DefaultHasher(0)
    }
}

#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
#[rustc_const_unstable(feature = "const_default", issue = "143894")]
const impl Default for DefaultHasher {
    #[inline]
    fn default() -> DefaultHasher {
        DefaultHasher::new()
    }
}

#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
impl Hasher for DefaultHasher {
    #[inline]
    fn write(&mut self, msg: &[u8]) {
        self.0 = unsafe { __ksym_hash(self.0, msg.as_ptr(), msg.len(), 0) };
    }

    #[inline]
    fn write_str(&mut self, s: &str) {
        self.0 = unsafe { __ksym_hash(self.0, s.as_ptr(), s.len(), 1) };
    }

    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
}
'''


def main(src, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
    f = os.path.join(dst, "std/src/hash/random.rs")
    t = open(f).read()
    i = t.index("/// The default [`Hasher`] used by [`RandomState`]")
    j = t.index("impl fmt::Debug for RandomState")
    j = t.rindex("\n\n", 0, j)
    t = t[:i] + PATCH + t[j:]
    t = t.replace("DefaultHasher(SipHasher13::new_with_keys(self.k0, self.k1))",
                  "DefaultHasher(self.k0)")
    t = t.replace("use super::{BuildHasher, Hasher, SipHasher13};", "use super::{BuildHasher, Hasher};")
    assert "SipHasher13" not in t.replace("`SipHasher13`", ""), "hasher patch does not fit"
    open(f, "w").write(t)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
