"""Shared machinery: package copy, macro expansion, extraction, Verus assembly and runs."""
import hashlib, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RX_REPO", "/repo")
BUILD = os.environ.get("RX_BUILD", os.path.join(VERIF, "build"))
NIGHTLY = "nightly-2020-07-27"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class Undecided(Exception):
    """The machinery cannot give an answer on this source (lost anchor, unsupported construct, time-out)."""


def sh(cmd, timeout=None, cwd=None, env=None, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, input=inp, errors="replace", universal_newlines=True,
                           stdin=None if inp is not None else subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr, time.time() - t0
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or ""
        r = ex.stderr or ""
        dec = lambda b: b.decode("utf8", "replace") if isinstance(b, bytes) else b
        return 124, dec(o), dec(r), time.time() - t0


def src_hash(extra=()):
    h = hashlib.sha256()
    base = os.path.join(REPO, "src")
    for d, ds, fs in sorted(os.walk(base)):
        ds.sort()
        if "tests" in d.split(os.sep) or "xmlwf" in d.split(os.sep):
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, base).encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    for x in extra:
        h.update(x.encode())
    return h.hexdigest()[:20]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def make_pkg(name, extra_toml="", patch=None):
    """A package holding a copy of /repo/src that builds with the pinned toolchain and vendored crates.

    patch(relpath, text) may append harness modules to a copied source file."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    toml = re.sub(r"(?m)^wchar[ \t]*=.*\n", "", toml)
    toml = re.sub(r"(?m)^(unicode_wchar_t[ \t]*=).*$", r"\1 []", toml)
    # only the library is needed
    toml = re.sub(r"(?m)^\[\[(bin|bench)\]\]\n(?:(?!\[).*\n)*", "", toml)
    toml = re.sub(r"(?m)^crate-type *=.*$", 'crate-type = ["rlib"]', toml)
    toml += extra_toml
    write_if_changed(os.path.join(d, "Cargo.toml"), toml)
    write_if_changed(os.path.join(d, ".cargo/config"),
                     '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "/opt/vp/vendor"\n')
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy("/opt/vp/Cargo.lock.rexpat", lock)
    base = os.path.join(REPO, "src")
    keep = set()
    for dd, ds, fs in os.walk(base):
        rel = os.path.relpath(dd, base)
        if rel.split(os.sep)[0] in ("tests", "xmlwf"):
            continue
        for f in fs:
            if not f.endswith(".rs"):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            t = open(os.path.join(dd, f)).read()
            if patch:
                t = patch(r, t)
            keep.add(os.path.join(d, "src", r))
            write_if_changed(os.path.join(d, "src", r), t)
    for dd, ds, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            p = os.path.join(dd, f)
            if p not in keep:
                os.remove(p)
    return d


CARGO_ENV = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings",
             "CARGO_INCREMENTAL": "0"}


def expand():
    """Macro-expanded source of the crate (macro_rules expanded by the pinned rustc itself)."""
    out = os.path.join(BUILD, "expanded", src_hash() + ".rs")
    if os.path.exists(out):
        return out
    d = make_pkg("pkg")
    env = dict(CARGO_ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target_nat"))
    rc, o, e, t = sh(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=d, env=env, timeout=600)
    if rc != 0:
        raise Undecided("macro expansion failed: " + e[-2000:])
    # the rental crate's expansion prints a duplicated generic list
    o = o.replace("-> __R, __R {", "-> __R {")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for f in os.listdir(os.path.dirname(out)):
        os.remove(os.path.join(os.path.dirname(out), f))
    with open(out + ".tmp", "w") as f:
        f.write(o)
    os.rename(out + ".tmp", out)
    return out


def extractor():
    d = os.path.join(VERIF, "extract")
    td = os.path.join(BUILD, "target_extract")
    rc, o, e, t = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=d, env={"CARGO_TARGET_DIR": td}, timeout=600)
    if rc != 0:
        raise Undecided("extractor does not build: " + e[-2000:])
    return os.path.join(td, "release", "vextract")


def extract(request, tag):
    ex, src = extractor(), expand()
    rq = os.path.join(BUILD, "req_%s.json" % tag)
    write_if_changed(rq, json.dumps(request))
    rc, o, e, t = sh([ex, src, rq], timeout=120)
    if rc != 0:
        raise Undecided("extractor failed: " + e[-2000:])
    r = json.loads(o)
    if "fatal" in r:
        raise Undecided(r["fatal"])
    return r


def rustfmt(text):
    rc, o, e, t = sh(["rustfmt", "--edition", "2018", "--config", "max_width=140,hard_tabs=false"], inp=text, timeout=60)
    if rc != 0:
        raise Undecided("extracted text does not parse: " + e[-800:])
    return o


# ---------------------------------------------------------------- Verus assembly
def enum_text(name, variants):
    vs = ", ".join(v if d is None else "%s = %s" % (v, d) for v, d in variants)
    return "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\npub enum %s { %s }\n" % (name, vs)


LOOP_RE = re.compile(r"\{\s*__vloop!\((\d+)\);")


def attach_loops(body, contract, loops):
    def rep(m):
        k = int(m.group(1))
        c = loops(k)
        s = ""
        for kw in ("invariant_except_break", "invariant", "ensures"):
            if c.get(kw):
                s += "\n        %s\n            %s," % (kw, ",\n            ".join(c[kw]))
        s += "\n        decreases %s\n{" % c["decreases"] if c["decreases"] else "\n{"
        if c.get("head"):
            s += "\n" + c["head"]
        return s
    return LOOP_RE.sub(rep, body)


def fn_text(f, key, spec, generics, self_ty, ensures_name="r"):
    """spec: dict(requires, ensures, loops: k -> dict, pre, attrs)"""
    loops_of = spec.get("loops") or (lambda k: {"decreases": "0int"})
    params, lets = [], []
    fixed = [p["name"] for p in f["params"] if not (p["mut"] and not re.sub(r"\s+", "", p["ty"]).startswith("&mut"))]
    spec = {k: v for k, v in spec.items() if k != "loops"}

    def nm(t):
        # `x__0` is the value of parameter x on entry; only `mut` parameters need a second name
        if isinstance(t, str):
            for n in fixed:
                t = re.sub(r"\b%s__0\b" % re.escape(n), n, t)
            return t
        if isinstance(t, list):
            return [nm(x) for x in t]
        if isinstance(t, dict):
            return {k: nm(v) for k, v in t.items()}
        return t
    spec = nm(spec)
    spec["loops"] = lambda k: nm(loops_of(k))
    for p in f["params"]:
        if p["name"] == "self":
            params.append("self_: &%s" % self_ty)
            continue
        ty = re.sub(r"\s+", "", p["ty"]).replace("&mut", "&mut ")
        n = p["name"]
        if p["mut"] and not ty.startswith("&mut"):
            params.append("%s__0: %s" % (n, ty))
            lets.append("let mut %s = %s__0;" % (n, n))
        else:
            params.append("%s: %s" % (n, ty))
    body = f["body"].strip()
    assert body.startswith("{")
    src = rustfmt("fn %s() { %s %s" % (key, " ".join(lets), body[1:].replace("__vloop !", "__vloop!")))
    i = src.index("{")
    body = attach_loops(src[i:], spec, spec["loops"])
    if spec.get("pre"):
        body = body.replace("{", "{\n    " + spec["pre"], 1) if not lets else \
            body.replace(lets[-1], lets[-1] + "\n    " + spec["pre"], 1)
    s = "".join("#[verifier::%s]\n" % a for a in spec.get("attrs", []))
    s += "pub fn %s%s(%s) -> (%s: %s)\n" % (key, generics, ", ".join(params), ensures_name, re.sub(r"\s+", "", f["ret"]))
    if spec.get("requires"):
        s += "    requires\n        %s,\n" % ",\n        ".join(spec["requires"])
    if spec.get("ensures"):
        s += "    ensures\n        %s,\n" % ",\n        ".join(spec["ensures"])
    if spec.get("decreases"):
        s += "    decreases %s\n" % spec["decreases"]
    return s + body + "\n"


def const_text(consts):
    s = ""
    for n, c in sorted(consts.items()):
        if "error" in c or "::" in n:
            continue
        ty = c["ty"].split("::")[-1].strip()
        s += "pub const %s: %s = %s;\n" % (n, ty, re.sub(r"libc :: ", "", c["expr"]))
    return s


class VerusResult:
    def __init__(self):
        self.verified = self.errors = 0
        self.failures = []     # [{fn, msg, detail}]
        self.undecided = []    # reasons
        self.time = 0.0
        self.smt_ms = 0
        self.raw = ""
        self.ok = False
        self.version = ""


def run_verus(path, timeout=600, extra=(), threads=8, rlimit=150):
    cmd = ["verus", path, "--output-json", "--time", "--num-threads", str(threads), "--rlimit", str(rlimit)] + list(extra)
    rc, o, e, t = sh(cmd, timeout=timeout, cwd=os.path.dirname(path))
    r = VerusResult()
    r.time, r.raw = t, e
    r.cmd = " ".join(cmd)
    if rc == 124:
        r.undecided.append("verifier time-out")
        return r
    try:
        j = json.loads(o)
        vr = j["verification-results"]
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        r.version = j.get("verus", {}).get("version", "")
        r.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        r.ok = bool(vr.get("success")) and rc == 0
        enc = vr.get("encountered-vir-error")
    except Exception:
        r.undecided.append("verifier gave no result: " + (e or o)[-1500:])
        return r
    lines = open(path).read().split("\n")
    fn_at = []
    cur = None
    for ln in lines:
        m = re.match(r"\s*(?:pub )?(?:open |closed )?(?:proof |spec )?fn (\w+)", ln)
        if m:
            cur = m.group(1)
        fn_at.append(cur)
    for m in re.finditer(r"(?ms)^(error|note|warning)(?:\[\w+\])?: (.*?)(?=^(?:error|note|warning)(?:\[\w+\])?: |\Z)", e):
        if m.group(1) != "error":
            continue
        txt = m.group(2)
        head = txt.split("\n")[0]
        if "aborting due to" in head or "could not compile" in head:
            continue
        loc = re.search(r"--> [^\n:]*:(\d+):", txt)
        fn = fn_at[min(int(loc.group(1)), len(fn_at)) - 1] if loc else None
        definite = any(k in head for k in (
            "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic", "decreases not satisfied", "possible division", "unreachable", "loop ensures not satisfied",
            "possible bit shift", "requires not satisfied", "assertion not satisfied"))
        if definite:
            r.failures.append({"fn": fn, "msg": head, "detail": txt[:1500]})
        else:
            r.undecided.append("%s (in %s): %s" % (head, fn, txt[:600]))
    if not r.ok and not r.failures and not r.undecided:
        r.undecided.append("verifier did not succeed: " + e[-1500:])
    return r


def scan_trust(text):
    """Every trusted item in an assembled file, for the evidence."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if re.search(r"\bexternal_body\b", l):
            nm = next((re.search(r"fn (\w+)", x).group(1) for x in lines[i:i + 4] if re.search(r"fn (\w+)", x)), "?")
            out.append("external_body: " + nm)
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.append("assumption: " + l.strip()[:80])
        if "assume_specification" in l or re.search(r"\baxiom fn\b", l):
            out.append("assumption: " + l.strip()[:80])
    return sorted(set(out))
