"""Copies the phf crate and makes Map::get_entry a scan over the entries.

The symbolic build uses the copy: the perfect hash of a symbolic key is out of
reach, while comparing with every key is equivalent (the keys are distinct).
The native replay uses the real crate.
"""
import os, re, shutil, sys


def main(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for f in (".cargo-ok", ".cargo_vcs_info.json"):
        p = os.path.join(dst, f)
        if os.path.exists(p):
            os.remove(p)
    f = os.path.join(dst, "src/map.rs")
    t = open(f).read()
    i = t.index("if self.disps.is_empty() {")
    j = t.index("    /// ", i)
    j = t.rindex("}", i, j)  # closes get_entry
    t = t[:i] + """for e in self.entries.iter() {
            let b: &T = e.0.borrow();
            if b == key {
                return Some((&e.0, &e.1));
            }
        }
        None
    """ + t[j:]
    open(f, "w").write(t)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
