#!/usr/bin/env python3
"""Build inputs shared by all harness crates: a copy of futures-util (the version
the harness lock files pin) whose `select!` order is chosen by the harness instead
of by a random number generator."""
import glob, os, shutil, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VER = "0.3.34"

def main():
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = glob.glob(os.path.join(home, "registry/src/*/futures-util-" + VER))
    if not src:
        sys.exit("futures-util %s is not in the cargo registry" % VER)
    dst = os.path.join(VERIF, "build/vendor/futures-util")
    mark = os.path.join(dst, ".ready")
    if os.path.exists(mark):
        return
    tmp = dst + ".tmp%d" % os.getpid()
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(src[0], tmp)
    f = os.path.join(tmp, "src/async_await/random.rs")
    s = open(f).read()
    a = s.index("/// Return a value from `0..n`.")
    s = s[:a] + '''extern "C" {
    fn sim_shuffle(n: u32) -> u32;
}
/// Return a value from `0..n`.
fn gen_index(n: usize) -> usize {
    unsafe { sim_shuffle(n as u32) as usize }
}
'''
    i = s.index("// Based on")
    open(f, "w").write(s[i:])
    open(os.path.join(tmp, ".ready"), "w").close()
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    main()
