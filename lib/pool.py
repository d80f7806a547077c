"""The string pool (string_pool.rs) under contract in Verus."""
import os, re
import rx, conv

RB = "impl RentedBumpVec<'bump>"
RBF = ["rb_is_full", "rb_append", "rb_append_char"]
SPF = ["is_empty", "is_full", "finish_string", "finish_string_cells", "clear_current", "len", "append_char", "replace_last_char", "backtrack", "get_last_char", "append_c_string", "store_c_string", "append", "copy_c_string", "copy_c_string_n"]
FNS = RBF + SPF


def request():
    return dict(functions=[dict(key=k, name=k[3:], container=RB, self_name="self_") for k in RBF] +
                [dict(key=k, container="impl StringPool", self_name="self_") for k in SPF],
                consts=["UTF8_*", "true_0", "false_0"], enums=["XML_Convert_Result"], list=True)


def clean(b):
    b = re.sub(r"\s+", " ", b)
    b = re.sub(r"(\w+ \. len \(\)) \. max \(([^()]*)\)", r"max (\1 , \2)", b)
    b = re.sub(r"(\d+) \. max \((\w+ \. len \(\))\)", r"max (\1 , \2)", b)
    b = re.sub(r"ExpatBufRefMut :: from \(& mut self_ \. 0 \[(\w+) \.\.\]\)", r"Win :: over (& self_ . 0 , \1)", b)
    b = re.sub(r"\(\* ?enc\) \. utf8Convert \(& mut (\w+) , & mut (\w+)\)", r"convert_into (enc , & mut \1 , & mut self_ . 0 , & mut \2)", b)
    b = re.sub(r" \. borrow(_mut)? \(\)", "", b)
    b = re.sub(r"\b(vec|v) \. (is_full|append_char|append) \(", lambda m: "rb_%s (%s%s" % (m.group(2), m.group(1), " , " if m.group(2) != "is_full" else ""), b)
    b = b.replace("'\\0'", "0").replace("'\\u{0}'", "0")
    b = re.sub(r"\* (\w+) \. 0 \. last_mut \(\) \. expect \(\"[^\"]*\"\) = (\w+)", r"\1 . 0 . set_last (\2)", b)
    b = re.sub(r"(?:\* )?(\w+) \. 0 \. last \(\) \. expect \(\"[^\"]*\"\)", r"\1 . 0 . last_some ()", b)
    b = re.sub(r"\. pop \(\) \. expect \(\"[^\"]*\"\)", ". pop_some ()", b)
    b = b.replace("BumpVec :: new_in (& pool . bump)", "BVec :: new_in (& pool . bump)")
    b = re.sub(r"\. into_bump_slice(_mut)? \(\)", ". into_slice ()", b)
    b = re.sub(r"Cell :: from_mut \((\w+)\) \. as_slice_of_cells \(\)", r"\1", b)
    b = re.sub(r"self_ \. (finish_string|finish_string_cells) \(\)", r"\1 (self_)", b)
    b = b.replace(". try_into () . unwrap ()", " as usize")
    return b


def spec_of(k, f):
    at = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
    N, O = "final(self_)", "old(self_)"
    rb = k.startswith("rb_")
    w = "wfv(%s.0)" if rb else "wfp(*%s)"
    w0, w1 = w % O, w % N
    v0, v1 = (O + ".0@", N + ".0@") if rb else (O + "@", N + "@")
    n = k[3:] if rb else k
    ps = [p["name"] for p in f["params"]]
    A = lambda i: ps[i] + ("__0" if f["params"][i].get("mut") else "")
    req, ens, loops, pre = [w0], [w1], None, ""
    keep = "%s == %s" % (v1, v0)
    text = lambda e, b: "whole8(%s.kind, %s)" % (e, b)
    zero = "%s.mem@.len() <= isize::MAX && %s.pos <= zlen(%s.mem@, %s.pos as int) < %s.mem@.len()"
    if n in ("is_full",):
        if rb:
            req, ens = [w0.replace("old(self_)", "self_")], []
        else:
            ens += [keep]
    elif n == "append":
        e, b = A(1), A(2)
        req += ["wf(%s)" % b, "readable(%s.kind, %s)" % (e, b)]
        ens += ["r ==> %s == %s + %s" % (v1, v0, text(e, b)), "!r ==> %s.len() >= %s.len() && %s.subrange(0, %s.len() as int) == %s" % (v1, v0, v1, v0, v0)]
        if rb:
            nm = ps[2]
            k_, m = e + ".kind", b + ".mem@"
            pre = "let ghost mut f0 = %s; let ghost mut v0 = self_.0@; proof { assert(self_.0@ =~= %s + out8(%s, %s, %s.lo as int, %s.lo as int)); }" % (nm, v0, k_, m, b, b)
            loops = lambda j: dict(invariant=["wfv(self_.0)", "wf(%s)" % nm, "%s.mem == %s.mem" % (nm, b), "%s.lo <= %s.lo" % (b, nm), "limit(%s, %s) <= %s.hi <= %s.hi" % (k_, b, nm, b), "limit(%s, %s) == limit(%s, %s)" % (k_, nm, k_, b),
                                              "bound(%s, %s, %s.lo as int, %s.lo as int)" % (k_, m, b, nm), "readable(%s, %s)" % (k_, nm), "self_.0@ == %s + out8(%s, %s, %s.lo as int, %s.lo as int)" % (v0, k_, m, b, nm)],
                                   head="proof { f0 = %s; v0 = self_.0@; assert(v0.subrange(0, %s.len() as int) =~= %s); }" % (nm, v0, v0), decreases="%s.hi - %s.lo" % (b, nm))
    elif n == "append_char":
        c = A(1)
        ens += ["r ==> %s == %s.push(%s)" % (v1, v0, c), "!r ==> " + keep]
    elif n == "store_c_string":
        e, b = A(1), A(2)
        req += ["wf(%s)" % b, "readable(%s.kind, %s)" % (e, b)]
        ens += ["r ==> %s == (%s + %s).push(0)" % (v1, v0, text(e, b))]
    elif n == "append_c_string":
        s = A(1)
        req += [zero.replace("%s", s)]
        z = "zlen(%s.mem@, %s.pos as int)" % (s, s)
        ens += ["r ==> %s == %s + %s.mem@.subrange(%s.pos as int, %s)" % (v1, v0, s, s, z)]
        loops = lambda j: dict(invariant=["wfv(vec.0)", "%s.mem == %s.mem" % (ps[1], s), "%s.pos <= %s.pos <= %s" % (s, ps[1], z), "vec.0@ == VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int)" % (s, s, ps[1])],
                               head="proof { let m = %s.mem@; let p = %s.pos as int; let q = %s.pos as int; assert(q < m.len() ==> m.subrange(p, q).push(m[q]) =~= m.subrange(p, q + 1)); assert(forall|a: Seq<i8>, c: i8| (VEC0 + a).push(c) =~= VEC0 + a.push(c)); }" % (s, s, ps[1]), decreases="%s - %s.pos" % (z, ps[1]))
        pre = "proof { zlen_at(%s.mem@, %s.pos as int); assert(VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int) =~= VEC0); }" % (s, s, s, s, s)
    elif n == "copy_c_string":
        s = A(1)
        req += [zero.replace("%s", s)]
        z = "zlen(%s.mem@, %s.pos as int)" % (s, s)
        ens += ["r.is_some() ==> r.unwrap().t@ == %s + %s.mem@.subrange(%s.pos as int, %s + 1) && %s == Seq::<i8>::empty()" % (v0, s, s, z, v1)]
        loops = lambda j: dict(invariant=["wfv(vec.0)", "%s.mem == %s.mem" % (ps[1], s), "%s.pos <= %s.pos <= %s" % (s, ps[1], z)], invariant_except_break=["vec.0@ == VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int)" % (s, s, ps[1])],
                               ensures=["vec.0@ == VEC0 + %s.mem@.subrange(%s.pos as int, %s + 1)" % (s, s, z)],
                               head="proof { let m = %s.mem@; let p = %s.pos as int; let q = %s.pos as int; assert(q < m.len() ==> m.subrange(p, q).push(m[q]) =~= m.subrange(p, q + 1)); assert(forall|a: Seq<i8>, c: i8| (VEC0 + a).push(c) =~= VEC0 + a.push(c)); }" % (s, s, ps[1]), decreases="%s - %s.pos" % (z, ps[1]))
        pre = "proof { zlen_at(%s.mem@, %s.pos as int); assert(VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int) =~= VEC0); }" % (s, s, s, s, s)
    elif n == "copy_c_string_n":
        s, c = A(1), A(2)
        req += ["%s >= 0" % c, "%s.mem@.len() <= isize::MAX && %s.pos + %s <= %s.mem@.len()" % (s, s, c, s)]
        ens += ["r.is_some() ==> r.unwrap().t@ == %s + %s.mem@.subrange(%s.pos as int, %s.pos + %s) && %s == Seq::<i8>::empty()" % (v0, s, s, s, c, v1)]
        loops = lambda j: dict(invariant=["wfv(vec.0)", "%s.mem == %s.mem" % (ps[1], s), "%s.pos <= %s.pos" % (s, ps[1]), "%s.pos + %s == %s.pos + %s" % (ps[1], ps[2], s, c), "vec.0@ == VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int)" % (s, s, ps[1])],
                               head="proof { let m = %s.mem@; let p = %s.pos as int; let q = %s.pos as int; assert(q < m.len() ==> m.subrange(p, q).push(m[q]) =~= m.subrange(p, q + 1)); assert(forall|a: Seq<i8>, c: i8| (VEC0 + a).push(c) =~= VEC0 + a.push(c)); }" % (s, s, ps[1]), decreases=ps[2])
        pre = "proof { assert(VEC0 + %s.mem@.subrange(%s.pos as int, %s.pos as int) =~= VEC0); }" % (s, s, s)
    elif n in ("finish_string", "finish_string_cells"):
        ens += ["r.t@ == %s" % v0, "%s == Seq::<i8>::empty()" % v1]
    elif n == "clear_current":
        ens += ["%s == Seq::<i8>::empty()" % v1]
    elif n == "len":
        ens += ["r == %s.len()" % v0, keep]
    elif n == "is_empty":
        ens += ["r == (%s.len() == 0)" % v0, keep]
    elif n == "replace_last_char":
        req += [v0 + ".len() > 0"]
        ens += ["%s == %s.drop_last().push(%s)" % (v1, v0, A(1))]
    elif n == "backtrack":
        req += [v0 + ".len() > 0"]
        ens += ["%s == %s.drop_last()" % (v1, v0)]
    elif n == "get_last_char":
        req += [v0 + ".len() > 0"]
        ens += ["r == %s.last()" % v0, keep]
    return dict(requires=req, ensures=ens, loops=loops, pre=pre, attrs=at)


def closure(b):
    """self.inner().rent(|v| BODY): where BODY stands in the text"""
    m = re.search(r"self_ \. inner \(\) \. (?:rent|ref_rent_all) \(\| (\w+) \| ", b)
    if not m:
        return None
    d, i = 1, m.end()
    while d:
        d += {"(": 1, ")": -1}.get(b[i], 0)
        i += 1
    return m.start(), i, m.group(1), b[m.end():i - 1].strip()


def emit(k, f):
    b = clean(f["body"])
    g = dict(f, body=b)
    rb = k.startswith("rb_")
    ty = "RentedBumpVec" if rb else "StringPool"
    mutable = k not in ("rb_is_full",)
    g["params"] = [dict(name="self_", ty="&mut " + ty if mutable else "&" + ty, mut=False) if p["name"] == "self" else dict(p, ty={"& ENCODING": "&ENCODING"}.get(p["ty"], p["ty"])) for p in f["params"]]
    g["ret"] = re.sub(r"& ?\[ ?(Cell < )?XML_Char( >)? ?\]", "Str", f["ret"])
    g["ret"] = {"& [XML_Char]": "Str", "& [Cell < XML_Char >]": "Str", "Option < & [XML_Char] >": "Option<Str>"}.get(f["ret"], g["ret"])
    sp = spec_of(k, g)
    s = ""
    c = closure(b)
    if c:
        st, en, v, body = c
        # the closure becomes a function of its own; its parameters are those of the function
        lets = re.match(r"\{ (let mut %s = %s ; )?" % (v, v), body)
        if lets and lets.group(1):
            body = "{ " + body[lets.end():]
        whole = "ref_rent_all" in b[st:en]
        vty = "StringPool" if whole else "RentedBumpVec"
        others = [p for p in g["params"] if p["name"] != "self_"]
        h = dict(g, params=[dict(name=v, ty="&mut " + vty, mut=False)] + others, body=body if body.startswith("{") else "{ %s }" % body)
        if "let successful" in b[:st]:
            h["ret"] = "bool"
        elif not body.startswith("{") and b[en:].strip().startswith(";"):
            h["body"] = "{ %s ; }" % body
        O, N = ("old(%s)" % v, "final(%s)" % v)

        def tr(t):
            t = re.sub(r"wfp\(\*old\(self_\)\)", "wfp(*%s)" % O if whole else "wfv(%s.0)" % O, t)
            t = re.sub(r"wfp\(\*final\(self_\)\)", "wfp(*%s)" % N if whole else "wfv(%s.0)" % N, t)
            t = re.sub(r"\bold\(self_\)@", O + ("@" if whole else ".0@"), t)
            t = re.sub(r"\bfinal\(self_\)@", N + ("@" if whole else ".0@"), t)
            return t
        cs = dict(sp)
        cs["requires"] = [tr(t) for t in sp["requires"]]
        if "let successful" in b[:st]:
            # what the closure leaves behind is what is finished afterwards
            cs["ensures"] = [tr(re.sub(r"^r\.is_some\(\) ==> r\.unwrap\(\)\.t@ == (.*) && final.*$", r"r ==> final(self_)@ == \1", t)) for t in sp["ensures"]]
        else:
            cs["ensures"] = [tr(t) for t in sp["ensures"]]
        if cs.get("loops"):
            lp = cs["loops"]

            def loops(j):
                return {a: ([re.sub("VEC0", O + ".0@", x.replace("vec.", v + ".")) for x in z] if isinstance(z, list) else re.sub("VEC0", O + ".0@", z)) for a, z in lp(j).items()}
            cs["loops"] = loops
        cs["pre"] = cs["pre"].replace("VEC0", O + ".0@")
        s += rx.fn_text(h, k + "_rent", cs, "", "")
        arg = "self_" if whole else "& mut self_ . current_bump_vec . v"
        b = b[:st] + "%s_rent (%s)" % (k, " , ".join([arg] + [p["name"] for p in others])) + b[en:]
        g = dict(g, body=b)
        g["params"] = [dict(p, mut=False) for p in g["params"]]
        sp = dict(sp, loops=None, pre="")
        sp = {a: ([t.replace("__0", "") for t in z] if isinstance(z, list) and a != "attrs" else z) for a, z in sp.items()}
    t = rx.fn_text(g, k, sp, "", "")
    if k == "rb_append":
        # ghost: one more piece after each conversion
        e, p0 = g["params"][1]["name"], g["params"][2]["name"]
        t, n = re.subn(r"(let written_size[^;]*;)", r"\1 proof { let ghost out = self_.0@.subrange(v0.len() as int, WIN.lo as int); piece(%s.kind, %s__0, f0, %s, WIN.hi - v0.len(), out, convert_res); assert(self_.0@.subrange(0, WIN.lo as int) =~= v0 + out); assert(old(self_).0@ + out8(%s.kind, f0.mem@, %s__0.lo as int, f0.lo as int) + out =~= old(self_).0@ + (out8(%s.kind, f0.mem@, %s__0.lo as int, f0.lo as int) + out)); }" % (e, p0, p0, e, p0, e, p0), t)
        w = re.search(r"let mut (\w+) = Win::over", t)
        if not n or not w:
            raise rx.Undecided("rb_append: no place for the lemma")
        t = t.replace("WIN", w.group(1))
    return s + t


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    s += "pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b }, { if a > b { a } else { b } }\n"
    s += rx.enum_text("XML_Convert_Result", x["enums"]["XML_Convert_Result"]["variants"])
    s += re.sub(r": C2RustUnnamed\w*", ": u32", rx.const_text(x["consts"]))
    s += open(os.path.join(rx.VERIF, "verus/conv.rs")).read()
    h = open(os.path.join(rx.VERIF, "verus/heap.rs")).read()
    s += h[h.index("// position of the terminator"):h.index("// ---- public identifiers")]
    s += open(os.path.join(rx.VERIF, "verus/pool.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        s += emit(k, f)
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "pool")
    p = os.path.join(rx.BUILD, "pool.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=100, extra=sys.argv[1:])
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
