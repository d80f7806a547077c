"""Kani proofs on the real crate, ported mechanically to the toolchain Kani runs on."""
import os, re, json, hashlib, time
import rx, nat

KDIR = os.path.join(rx.VERIF, "kani")
PORT = '''
// ---- port to a current toolchain (added by /verif/lib/kani.py)
pub mod vport {
    pub trait OffsetFrom { fn wrapping_offset_from(self, o: Self) -> isize; }
    impl<T> OffsetFrom for *const T { #[inline] fn wrapping_offset_from(self, o: *const T) -> isize { (self as isize).wrapping_sub(o as isize) / std::mem::size_of::<T>() as isize } }
    pub trait OffsetFromMut<T> { fn wrapping_offset_from(self, o: *const T) -> isize; }
    impl<T> OffsetFromMut<T> for *mut T { #[inline] fn wrapping_offset_from(self, o: *const T) -> isize { (self as isize).wrapping_sub(o as isize) / std::mem::size_of::<T>() as isize } }
    pub fn capacity_overflow() -> std::collections::TryReserveError { Vec::<u8>::new().try_reserve(usize::MAX).unwrap_err() }
}
'''
# harness module -> file it is appended to
MODULES = {"enc": "lib/xmltok.rs", "val": "lib/xmltok.rs", "role": "lib/xmlrole.rs", "parse": "lib/xmlparse.rs", "pool": "string_pool.rs"}


def make(module):
    rel = MODULES[module]

    def patch(r, t):
        if r == "lib.rs":
            t = "#![allow(warnings, dangerous_implicit_autorefs)]\n" + re.sub(r"(?m)^#!\[feature.*\n", "", t) + PORT
        t = t.replace("TryReserveError::CapacityOverflow", "crate::vport::capacity_overflow()")
        if "wrapping_offset_from" in t and r != "lib.rs":
            t += "\n#[allow(unused_imports)] use crate::vport::{OffsetFrom as _, OffsetFromMut as _};\n"
        if r == rel:
            t += '\n#[cfg(kani)]\n#[path = "%s"]\nmod vkani;\n' % os.path.join(KDIR, module + ".rs")
        return t
    return rx.make_pkg("kani_" + module, "\n[lints.rust]\nunexpected_cfgs = \"allow\"\n", patch)


def run(module, harnesses, timeout=600, jobs=8, extra=()):
    """-> (dict harness -> dict(status 'ok'|'fail'|'undecided', checks, failed, time), command, seconds, note)"""
    nat.gen_tokspec()
    d = make(module)
    env = {"CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings", "VNATIVE": rx.VERIF + "/native", "VGEN": os.path.join(rx.BUILD, "gen"),
           "CARGO_TARGET_DIR": os.path.join(rx.BUILD, "target_kani_" + module)}
    path = MODULES[module][:-3].replace("/", "::") + "::vkani::"
    cmd = ["cargo", "kani", "-j", str(jobs), "--output-format", "terse", "--lib", "--exact"] + list(extra)
    for h in harnesses:
        cmd += ["--harness", path + h]
    rc, o, e, t = rx.sh(cmd, cwd=d, env=env, timeout=timeout)
    text = re.sub(r"\x1b\[[0-9;]*m", "", o)
    res = {h: dict(status="undecided", checks=0, failed=[], time=0.0, why="no result" if rc != 124 else "time-out") for h in harnesses}
    cur, th = {}, None
    single = None
    for line in text.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            th = m.group(1)
            cur[th] = m.group(2).split("::")[-1]
            continue
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            th, line = m.group(1), m.group(2)
        h = cur.get(th)
        if h not in res:
            continue
        r = res[h]
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["nfail"], r["checks"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["failed"].append(m.group(1))
        if line.startswith("VERIFICATION:- SUCCESSFUL"):
            r["status"] = "ok"
        elif line.startswith("VERIFICATION:- FAILED"):
            und = [f for f in r["failed"] if "unwinding assertion" in f or "is not currently supported" in f or "unsupported" in f]
            r["status"] = "fail" if r["failed"] and not und else "undecided"
            r["why"] = "; ".join(und) or "no failed check reported"
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["time"] = float(m.group(1))
    note = "" if any(r["status"] != "undecided" for r in res.values()) else (e[-1500:] or text[-1500:])
    return res, " ".join(cmd), t, note


if __name__ == "__main__":
    import sys
    r, c, t, note = run(sys.argv[1], sys.argv[2:])
    for h in r:
        print(h, r[h])
    print(note, t)
