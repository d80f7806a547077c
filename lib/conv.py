"""Transcoding (xmltok.rs) and what is built on it, under contract in Verus."""
import os, re
import rx

IMPLS = dict(Utf8="Utf8", Latin1="Latin1", Ascii="Ascii", Little2="Le", Big2="Be")
TRIM = "_INTERNAL_trim_to_complete_utf8_characters"
FNS = [TRIM, "latin1_toUtf16"] + [i + "_" + f for i in IMPLS for f in ("utf8Convert", "utf16Convert")]
M = "old(FR).mem@"


def request():
    return dict(functions=[dict(key=i + "_" + f, name=f, container="impl XmlEncodingImpl for %sEncodingImpl<T>" % i, self_name="self_", index_get=True)
                           for i in IMPLS for f in ("utf8Convert", "utf16Convert")] + [dict(key=k, index_get=True) for k in (TRIM, "latin1_toUtf16")],
                consts=["UTF8_*", "true_0", "false_0"], enums=["XML_Convert_Result"], list=True)


def spec_of(k, f):
    at = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
    if k == TRIM:
        b = f["params"][0]["name"]
        o, m, lo = "old(%s)" % b, "old(%s).mem@" % b, "old(%s).lo" % b
        w = "wf8(%s, %s as int, %s.hi as int)" % (m, lo, o)
        last = "last8(%s, %s as int, %s.hi as int)" % (m, lo, o)
        cur = "(%s + i)" % lo
        inv = ["*%s == *%s" % (b, o), "i <= %s.hi - %s.lo" % (o, o), "walked <= 4 || walked <= %s.hi - %s.lo - i" % (o, o), "i + walked <= %s.hi - %s.lo || walked == 0" % (o, o)]
        return dict(requires=["wf(*%s)" % o], attrs=at, pre="proof { if %s { cut_at(%s, %s as int, %s.hi as int); if %s.lo < %s.hi { cut_at(%s, %s as int, %s); } } }" % (w, m, lo, o, o, o, m, lo, last),
                    ensures=["wf(*final(%s)) && final(%s).mem == %s.mem && final(%s).lo == %s.lo && final(%s).hi <= %s.hi" % (b, b, o, b, o, b, o),
                             "%s ==> final(%s).hi == cut8(%s, %s as int, %s.hi as int)" % (w, b, m, lo, o)],
                    loops=lambda j: dict(invariant=["*%s == *%s" % (b, o)],
                        invariant_except_break=["i + walked <= %s.hi - %s.lo" % (o, o),
                            # before the last character is looked at, or (it is cut) in the one before it
                            "%s && %s.lo < %s.hi ==> (%s < %s && walked == %s.hi - %s) || (%s.lo <= %s && %s <= %s && walked == %s - %s + 1 && cut8(%s, %s as int, %s.hi as int) == %s && (%s.lo < %s ==> last8(%s, %s as int, %s) < %s))" % (
                                w, o, o, last, cur, o, cur, o, cur, cur, last, last, cur, m, lo, o, last, o, last, m, lo, last, cur)],
                        ensures=["i <= %s.hi - %s.lo" % (o, o), "%s ==> %s == cut8(%s, %s as int, %s.hi as int)" % (w, cur, m, lo, o)],
                        decreases="i", head="proof { leads(%s[%s - 1] as u8); if %s && %s.lo < %s.hi { cut_at(%s, %s as int, %s); } }" % (m, cur, w, o, o, m, lo, last)))
    fr, to = f["params"][-2]["name"], f["params"][-1]["name"]
    i, fn = k.split("_", 1)
    o, m = "old(%s)" % fr, "old(%s).mem@" % fr
    kd = "Kind::" + IMPLS.get(i, "Latin1")
    if k == "latin1_toUtf16":
        fn = "utf16Convert"
    P = "converted" + ("16" if fn == "utf16Convert" else "")
    units = fn == "utf16Convert" and i in ("Little2", "Big2")
    if units:
        P = "copied16"
    if k == "Ascii_utf16Convert":
        kd = "Kind::Latin1"
    wfo = "wfo16" if fn == "utf16Convert" else "wfo"
    req = ["wf(*%s)" % o, "%s(*old(%s))" % (wfo, to), "old(%s).start@ == old(%s).pos" % (to, to)]
    ens = ["%s(%s, *%s, *final(%s), *old(%s), *final(%s), r)" % (P, kd, o, fr, to, to)]
    loc = fr
    b = f["body"]
    mm = re.search(r"let mut (\w+) = \* ?%s ;" % fr, b)
    if mm:
        loc = mm.group(1)
    cur = loc + ".lo as int" if not mm else loc + ".lo as int"
    T = "text16" if fn == "utf16Convert" else "text8"
    val = "%s.done() == Seq::empty() + %s(%s, %s, %s.lo as int, %s)" % (to, T, kd, m, o, cur)
    if i == "Ascii":
        val += " && %s.done() == %s.subrange(%s.lo as int, %s)" % (to, m, o, cur)
    if units:
        val = "%s.done() == units(%s, %s, %s.lo as int, %s)" % (to, kd, m, o, cur)
    hi = "limit(%s, *%s)" % (kd, o)
    inv = ["wf(%s%s)" % ("" if mm else "*", loc), "%s.mem == %s.mem" % (loc, o), "%s.lo <= %s.lo <= %s == %s.hi" % (o, loc, loc, hi) if False else "%s.lo <= %s.lo && %s.hi == %s" % (o, loc, loc, hi),
           "%s(*%s)" % (wfo, to), "%s.start == old(%s).start" % (to, to), "%s.cells@.len() == old(%s).cells@.len()" % (to, to), "old(%s).pos <= %s.pos" % (to, to),
           "forall|i: int| 0 <= i < old(%s).pos ==> #[trigger] %s.cells@[i] == old(%s).cells@[i]" % (to, to, to),
           "bound(%s, %s, %s.lo as int, %s)" % (kd, m, o, cur), val]
    if i in ("Little2", "Big2"):
        inv.append("(%s.hi - %s.lo) %% 2 == 0 && (%s.lo - %s.lo) %% 2 == 0" % (loc, loc, loc, o))
    if units:
        inv = [e for e in inv if not e.startswith("bound") and ".hi ==" not in e] + ["%s.lo <= %s.lo" % (o, loc), "%s.hi <= %s && (res == XML_Convert_Result::COMPLETED ==> %s.hi == %s) && (res == XML_Convert_Result::INPUT_INCOMPLETE ==> %s.hi < %s) && res != XML_Convert_Result::OUTPUT_EXHAUSTED" % (loc, hi, loc, hi, loc, hi)]
    if k == "Utf8_utf16Convert":
        ok = "wf8(%s, %s, %s.hi as int) && (forall|t: int| %s <= t < %s.hi ==> ((#[trigger] %s[t]) as u8) < 0xf5) && (forall|t: int| %s <= t && t + 1 < %s.hi && (#[trigger] %s[t]) as u8 == 0xf0 ==> %s[t + 1] as u8 >= 0x90)"
        req.append(ok % (m, o + ".lo as int", o, o + ".lo", o, m, o + ".lo", o, m, m))
        inv.append("wf8(%s, %s, %s.hi as int)" % (m, cur, o))
        more = ["res == XML_Convert_Result::INPUT_INCOMPLETE ==> from.lo < from.hi && !complete(%s, %s, %s, from.hi as int)" % (kd, m, cur),
                "res == XML_Convert_Result::OUTPUT_EXHAUSTED ==> from.lo < from.hi && enc16(cp(%s, %s, %s)).len() > to.room()" % (kd, m, cur)]
        more = [e.replace("from", fr).replace("to.room", to + ".room") for e in more]
        inv += more
    if mm:
        inv.append("*%s == *%s" % (fr, o))
    head = "proof { pushes(); bits(); one_more(%s, %s, %s.lo as int, %s);" % (kd, m, o, cur)
    c0 = loc + ".lo"
    if i in ("Little2", "Big2"):
        a, z = (0, 1) if i == "Little2" else (1, 0)
        head += " if %s < %s.hi { bits2(%s[%s + %d] as u8, %s[%s + %d] as u8);" % (c0, loc, m, c0, a, m, c0, z)
        head += " if %s + 4 <= %s.hi { if 0xd8 <= high(%s, %s, %s as int) && high(%s, %s, %s as int) <= 0xdb { bits4(%s[%s + %d] as u8, %s[%s + %d] as u8, %s[%s + %d] as u8, %s[%s + %d] as u8); } } }" % (
            c0, loc, kd, m, c0, kd, m, c0, m, c0, a, m, c0, z, m, c0, a + 2, m, c0, z + 2)
        if units:
            head = head.replace("one_more(%s, %s, %s.lo as int, %s);" % (kd, m, o, cur), "one_unit(%s, %s, %s.lo as int, %s);" % (kd, m, o, cur))
    elif k == "Utf8_utf16Convert":
        g = lambda n: "%s[%s + %d]" % (m, c0, n)
        head += " if %s < %s.hi { bits8(%s, if %s + 1 < %s.hi { %s } else { 0 }, if %s + 2 < %s.hi { %s } else { 0 }, if %s + 3 < %s.hi { %s } else { 0 }); }" % (c0, loc, g(0), c0, loc, g(1), c0, loc, g(2), c0, loc, g(3))
        head += " if %s + 4 <= %s.hi && u8len(at8(%s, %s as int) as int) == 4 { bits32(%s, %s, %s, %s); }" % (c0, loc, m, c0, g(0), g(1), g(2), g(3))
    elif i in ("Latin1", "latin1"):
        head += " if %s < %s.hi { bits2(%s[%s as int] as u8, 0); }" % (c0, loc, m, c0)
    head += " }"
    pre = "proof { pushes(); bits(); %s assert(%s.done() =~= Seq::empty()); }" % ("half((%s.hi - %s.lo) as i64); half(%s.room() as i64);" % (o, o, "old(%s)" % to) if i in ("Little2", "Big2") else "", to)
    if k == "Utf8_utf8Convert":
        cut = "(if %s.hi - %s.lo > %s.room() { %s.lo + %s.room() } else { %s.hi as int })" % (o, o, "old(%s)" % to, o, "old(%s)" % to, o)
        pre = "proof { assert(%s.done() =~= Seq::empty()); if wf8(%s, %s.lo as int, %s.hi as int) { cut_short(%s, %s.lo as int, %s.hi as int, %s); cut_at(%s, %s.lo as int, %s); } }" % (to, m, o, o, m, o, o, cut, m, o, cut)
    if k == "Utf8_utf16Convert":
        return dict(requires=req, ensures=ens, attrs=at, pre=pre, loops=lambda j: dict(invariant=inv, decreases="%s.hi - %s.lo" % (loc, loc), head=head, invariant_except_break=["res == XML_Convert_Result::COMPLETED"],
                    ensures=["res == XML_Convert_Result::COMPLETED ==> %s.lo == %s.hi || %s.room() == 0" % (loc, loc, to)]))
    return dict(requires=req, ensures=ens, attrs=at, pre=pre, loops=lambda j: dict(invariant=inv, decreases="%s.hi - %s.lo" % (loc, loc), head=head))


def body_of(k, f):
    b = re.sub(r"\s+", " ", f["body"])
    b = re.sub(r"(\w+) \[ ?\.\. ([^\[\]]*?)\] \. copy_from_slice \(& (\w+)\)", r"\1 . copy_from (\2 , & \3)", b)
    b = b.replace(". try_into () . unwrap ()", " as isize")
    b = re.sub(r"T :: types \[((?:[^\[\]]|\[[^\[\]]*\])*)\] as (c_int|i32)", r"lead_class (\1)", b)
    return b


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    s += rx.enum_text("XML_Convert_Result", x["enums"]["XML_Convert_Result"]["variants"])
    s += re.sub(r": C2RustUnnamed\w*", ": u32", rx.const_text(x["consts"]))
    s += open(os.path.join(rx.VERIF, "verus/conv.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        g = dict(f, body=body_of(k, f), params=[p for p in f["params"] if p["name"] != "self"])
        g["params"] = [dict(p, mut=False) for p in g["params"]]
        s += rx.fn_text(g, k, spec_of(k, g), "", "")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "conv")
    p = os.path.join(rx.BUILD, "conv.rs")
    rx.write_if_changed(p, text(x, sys.argv[1:] or FNS))
    r = rx.run_verus(p, timeout=100)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
