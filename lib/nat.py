"""Native drivers: the real crate, built with the pinned toolchain, with a driver module appended."""
import os, re, json, shutil, struct, hashlib
import rx

NATIVE = os.path.join(rx.VERIF, "native")
GEN = os.path.join(rx.BUILD, "gen")
PROFILE = """
[profile.release]
opt-level = 2
debug = false
overflow-checks = true
debug-assertions = true
panic = "unwind"
"""


def gen_tokspec():
    """The reference lexer of tokspec.rs as executable Rust: the text is the same, `int` becomes i64."""
    for n in ("cls", "tokspec", "valspec"):
        p = os.path.join(rx.VERIF, "verus/%s.rs" % n)
        if os.path.exists(p):
            gen_spec(n, open(p).read())
    import walk
    walk.write(os.path.join(GEN, "walk.txt"))
    t = open(os.path.join(rx.VERIF, "verus/valspec.rs")).read()
    i = t.index("pub open spec fn xml_char")
    gen_spec("charval", t[i:t.index("pub open spec fn sp_charnum")])


def gen_spec(name, s):
    i = s.find("// the code's answer")
    s = s[:i] if i >= 0 else s
    s = re.sub(r"pub open spec fn is_err.*\n", "pub fn is_err(t: XML_TOK) -> bool { t as i32 <= 0 }\n", s)
    s = s.replace("pub open spec fn", "pub fn").replace("<E: XmlEncodingImpl>", "").replace("e: &E", "e: &RE")
    s = re.sub(r"\n\s*decreases [^\n{]*", "\n", s)
    s = s.replace("m: Seq<i8>", "m: &[i8]")
    s = re.sub(r"\bint\b", "i64", s)
    rx.write_if_changed(os.path.join(GEN, name + ".rs"), s)


# group -> (file the driver module is appended to, module path)
GROUPS = {
    "tok": ("lib/xmltok.rs", "lib::xmltok"),
    "role": ("lib/xmlrole.rs", "lib::xmlrole"),
    "parse": ("lib/xmlparse.rs", "lib::xmlparse"),
    "pool": ("string_pool.rs", "string_pool"),
}


def build(group):
    """Path of the driver binary, or (None, reason)."""
    gen_tokspec()
    rel, mod = GROUPS[group]
    drv = os.path.join(NATIVE, group + ".rs")
    # #[path] must be in the module file, include! keeps line numbers of the driver
    tail = '\n#[path = "%s"]\npub mod vdrv;\n' % drv

    def patch(r, t):
        return t + tail if r == rel else t
    d = rx.make_pkg("nat_" + group, "\n[[bin]]\nname = \"vdrv_%s\"\npath = \"vdrv_main.rs\"\n" % group + PROFILE, patch)
    rx.write_if_changed(os.path.join(d, "vdrv_main.rs"), "fn main() { rexpat::%s::vdrv::main() }\n" % mod)
    h = hashlib.sha256()
    for n in sorted(os.listdir(NATIVE)) + ["../build/gen/" + g for g in sorted(os.listdir(GEN))]:
        p = os.path.join(NATIVE, n)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    # the driver text is part of what cargo must notice
    rx.write_if_changed(os.path.join(d, "src/vdrv_stamp.txt"), h.hexdigest())
    env = dict(rx.CARGO_ENV, CARGO_TARGET_DIR=os.path.join(rx.BUILD, "target_nat"), VNATIVE=NATIVE, VGEN=GEN)
    rc, o, e, t = rx.sh(["cargo", "build", "--offline", "--release", "--bin", "vdrv_" + group], cwd=d, env=env, timeout=600)
    if rc != 0:
        return None, "native driver does not build: " + e[-1500:]
    return os.path.join(rx.BUILD, "target_nat/release/vdrv_" + group), ""


# freed memory is overwritten, so that a pointer left into it is noticed
ENV = {"MALLOC_PERTURB_": "165"}


def run(group, prop, seconds, seed=None):
    """-> dict(status: 'ok'|'fail'|'none', cases, message, case: bytes)"""
    b, why = build(group)
    if not b:
        return dict(status="none", cases=0, message=why)
    cf = os.path.join(rx.BUILD, "case_%s.bin" % prop)
    if os.path.exists(cf):
        os.remove(cf)
    rc, o, e, t = rx.sh([b, prop, str(seed if seed is not None else rx.SEED), str(int(seconds * 1000)), cf], timeout=seconds + 60, cwd=rx.BUILD, env=ENV)
    m = re.search(r"(?m)^OK (\d+)$", o)
    if rc == 0 and m:
        return dict(status="ok", cases=int(m.group(1)), message="", time=t)
    if not os.path.exists(cf):
        return dict(status="none", cases=0, message="driver did not start: " + (o + e)[-500:])
    raw = open(cf, "rb").read()
    n, l = struct.unpack_from("<QQ", raw)
    case = raw[:16 + 8 * n + l]
    ps = list(struct.unpack_from("<%dq" % n, raw, 16))
    by = raw[16 + 8 * n:16 + 8 * n + l]
    m = re.search(r"(?m)^FAIL (.*)$", o)
    msg = m.group(1) if m else ("the call does not return" if rc == 124 else "the call ends the process (status %d) %s" % (rc, e[-300:]))
    # confirm on a fresh process
    cp = os.path.join(rx.BUILD, "replay_%s.bin" % prop)
    open(cp, "wb").write(case)
    rc2, o2, e2, t2 = rx.sh([b, prop, "replay", cp], timeout=30, cwd=rx.BUILD, env=ENV)
    if rc2 == 0:
        return dict(status="none", cases=0, message="not reproduced: " + msg)
    return dict(status="fail", cases=0, message=msg, params=ps, bytes=by.hex(), case=case, time=t)


if __name__ == "__main__":
    import sys
    r = run(sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 20)
    r.pop("case", None)
    print(r)
