"""Encodings described by the application (xmltok.rs, UnknownEncoding), under contract in Verus."""
import os, re
import rx, conv

U, I = "impl UnknownEncoding", "impl XmlEncodingImpl for UnknownEncoding"
METHODS = "MINBPC byte_type byte_to_ascii is_name_char is_nmstrt_char is_invalid_char is_name_char_minbpc is_nmstrt_char_minbpc char_matches utf8Convert utf16Convert".split()
FREE = ["checkCharRefNumber", "XmlUtf8Encode"]
FNS = FREE + ["initialize"] + METHODS


def request():
    return dict(functions=[dict(key="initialize", container=U, self_name="self_", index_get=True)] + [dict(key=k, container=I, self_name="self_", index_get=True) for k in METHODS] + [dict(key=k, index_get=False) for k in FREE],
                consts=["ASCII_*", "UTF8_*", "min2", "min3", "min4"], enums=["ByteType", "XML_Convert_Result"], list=True)


D = ["described(*self_, t@, ns@)", "is_other(*self_, t@)"]
AT = "p.pos + 1 <= p.mem@.len()"
LEAD = ["2 <= _n <= 4", "p.pos + _n <= p.mem@.len()", "_n == lead_n(self_.types@[p.mem@[p.pos as int] as u8 as int])"]
C0 = "conv_at(*self_, p.mem@, p.pos as int)"
SEE = "proof { let b = p.mem@[p.pos as int]; assert(entry(*self_, t@[b as u8 as int] as int, b as u8 as int, ns@)); assert(good_at(t@, self_.convert.is_some(), b as u8 as int)); latin_not_lead(t@[b as u8 as int] as int); let x = conv_cp(self_.convert.unwrap(), self_.userData, p.mem@.subrange(p.pos as int, p.pos + other_len(b))); pages(x, nmstrt_page((x / 256) as int)); pages(x, name_page((x / 256) as int)); page_bits(x); }"


def spec_of(k, f):
    at = ["loop_isolation(false)", "spinoff_prover"]
    if k == "checkCharRefNumber":
        return dict(requires=["0 <= result__0"], ensures=["r == (if result__0 < 0x110000 { checked(result__0 as int) } else { result__0 as int })"],
                    pre="proof { assert(0 <= result__0 ==> (result__0 >> 8) == result__0 / 256) by (bit_vector); latin_xml(result__0 as int); }")
    if k == "XmlUtf8Encode":
        return dict(requires=["old(buf)@.len() >= if c__0 < 0x80 { 1int } else if c__0 < 0x800 { 2 } else if c__0 < 0x10000 { 3 } else { 4 }"],
                    ensures=["final(buf)@.len() == old(buf)@.len()", "0 <= c__0 < 0x110000 ==> r == enc8(c__0 as u32).len() && (forall|j: int| 0 <= j < r ==> #[trigger] final(buf)@[j] == enc8(c__0 as u32)[j])", "c__0 < 0 || c__0 >= 0x110000 ==> r == 0",
                             "forall|i: int| r <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i]"],
                    pre="proof { encodes(c__0); }")
    if k == "initialize":
        t = "table.v@"
        L0 = "forall|k: int| 0 <= k < i && significant(k) ==> #[trigger] %s[k] == k" % t
        L1 = ["forall|k: int| 0 <= k < 128 && significant(k) ==> #[trigger] %s[k] == k" % t,
              "forall|k: int| 0 <= k < i ==> #[trigger] good_at(%s, convert.is_some(), k)" % t,
              "forall|k: int| #![trigger self_.types@[k]] #![trigger self_.utf8@[k]] #![trigger self_.utf16@[k]] #![trigger %s[k]] 0 <= k < i ==> entry(*self_, %s[k] as int, k, false)" % (t, t)]
        see = "proof { let c = %s[i as int]; pages(c, nmstrt_page((c / 256) as int)); pages(c, name_page((c / 256) as int)); page_bits(c); }" % t
        return dict(requires=[t + ".len() == 256"], attrs=at, ensures=["r == good(%s, convert.is_some())" % t, "r ==> described(*final(self_), %s, is_ns) && final(self_).convert == convert && final(self_).userData == userData" % t],
                    loops=lambda j: dict(invariant=[L0] if j == 0 else L1, decreases=None, head="proof { assert(good(%s, convert.is_some()) ==> good_at(%s, convert.is_some(), i as int)); }" % (t, t) if j == 0 else see + " proof { assert(good(%s, convert.is_some()) ==> good_at(%s, convert.is_some(), i as int)); }" % (t, t)))
    if k in ("utf8Convert", "utf16Convert"):
        fr, to = f["params"][-2]["name"], f["params"][-1]["name"]
        o, m = "old(%s)" % fr, "old(%s).mem@" % fr
        w, T, P = ("wfo", "text8", "converted") if k == "utf8Convert" else ("wfo16", "text16", "converted16")
        inv = ["wf(*%s)" % fr, "%s.mem == %s.mem" % (fr, o), "%s.lo <= %s.lo && %s.hi == %s.hi" % (o, fr, fr, o), "%s(*%s)" % (w, to), "%s.start == old(%s).start" % (to, to),
               "%s.cells@.len() == old(%s).cells@.len()" % (to, to), "old(%s).pos <= %s.pos" % (to, to), "forall|i: int| 0 <= i < old(%s).pos ==> #[trigger] %s.cells@[i] == old(%s).cells@[i]" % (to, to, to),
               "bound(Kind::Other, %s, %s.lo as int, %s.lo as int)" % (m, o, fr), "legal(%s, %s.lo as int, %s.hi as int)" % (m, fr, o), "%s.done() == Seq::empty() + %s(Kind::Other, %s, %s.lo as int, %s.lo as int)" % (to, T, m, o, fr)]
        head = "proof { pushes(); one_more(Kind::Other, %s, %s.lo as int, %s.lo as int); if %s.lo < %s.hi { step(*self_, t@, ns@, %s, %s.lo as int, %s.hi as int); } }" % (m, o, fr, fr, fr, m, fr, fr)
        return dict(requires=D + ["wf(*%s)" % o, "%s(*old(%s))" % (w, to), "old(%s).start@ == old(%s).pos" % (to, to), "legal(%s, %s.lo as int, %s.hi as int)" % (m, o, o)], attrs=at,
                    ensures=["%s(Kind::Other, *%s, *final(%s), *old(%s), *final(%s), r)" % (P, o, fr, to, to)], pre="proof { assert(%s.done() =~= Seq::empty()); }" % to,
                    loops=lambda j: dict(invariant=inv, decreases="%s.hi - %s.lo" % (fr, fr), head=head))
    if k == "MINBPC":
        return dict(ensures=["r == 1"])
    if k == "byte_type":
        return dict(requires=D + [AT], ensures=["r == self_.types@[p.mem@[p.pos as int] as u8 as int]", "r == cls_of(t@[p.mem@[p.pos as int] as u8 as int] as int, p.mem@[p.pos as int] as u8 as int, ns@)"],
                    pre="proof { assert(entry(*self_, t@[p.mem@[p.pos as int] as u8 as int] as int, p.mem@[p.pos as int] as u8 as int, ns@)); }")
    if k in ("byte_to_ascii",):
        return dict(requires=[AT], ensures=["r == p.mem@[p.pos as int]"])
    if k == "char_matches":
        return dict(requires=[AT, "c > 0"], ensures=["r == (p.mem@[p.pos as int] == c)"])
    if k.endswith("_minbpc"):
        return dict(ensures=["!r"])
    what = dict(is_name_char="in_names(%s)" % C0, is_nmstrt_char="starts_names(%s)" % C0, is_invalid_char="!(xml_char(%s) && %s <= 0xffff)" % (C0, C0))[k]
    return dict(requires=D + LEAD, ensures=["r == (%s)" % what], pre=SEE)


def body_of(k, f):
    b = re.sub(r"\s+", " ", f["body"])
    b = re.sub(r"\(table \. offset \((.*?)\)\) \. rd \(\)", r"tab_at (table , \1)", b)
    b = b.replace("ByteType :: LEAD2 . to_i32 () . unwrap ()", "code (ByteType :: LEAD2)").replace("ByteType :: LEAD2 as c_int", "code (ByteType :: LEAD2)").replace("ByteType :: NONXML as c_int", "code (ByteType :: NONXML)")
    b = re.sub(r"ByteType :: from_i32 \((\w+)\) \. unwrap \(\)", r"byte_type_of (\1)", b)
    b = re.sub(r"Latin1EncodingTable :: types \[([^\[\]]*)\] as c_int", r"code (latin1_type (\1))", b)
    b = re.sub(r"Latin1EncodingTable :: types \[([^\[\]]*)\]", r"latin1_type (\1)", b)
    for n in ("nmstrtPages", "namePages"):
        b = re.sub(r"\b%s \[([^\[\]]*)\]" % n, r"%s (\1)" % n, b)
    b = re.sub(r"\bnamingBitmap \[([^\[\]]*)\]", r"namingBitmap (\1)", b)
    b = b.replace('self_ . convert . expect ("non-null function pointer") (', "call_conv (expect_conv (self_ . convert) , ")
    b = re.sub(r"(?<![\w.]) convert \(self_", " call_conv (convert , self_", b)
    b = re.sub(r"(self_ \. types \[(?:[^\[\]]|\[[^\[\]]*\])*\]) as c_int", r"code (\1)", b)
    b = re.sub(r"= (self_ \. utf8 \[(?:[^\[\]]|\[[^\[\]]*\])*\]) \[\.\.\] \. into \(\)", r"= buf_of (& \1)", b)
    b = b.replace("utf8 [0]", "utf8 . at (0)") if "buf_of" in b else b
    b = b.replace("buf . at (..) . into ()", "buf_of (& buf)")
    b = re.sub(r"(\w+) \[ ?\.\. ([^\[\]]*?)\] \. copy_from_slice \(& (\w+) \[ ?\.\. ([^\[\]]*?)\]\)", r"\1 . copy_from (\2 , & \3 . with_len (\4))", b)
    if k == "utf8Convert":
        b = b.replace("XmlUtf8Encode (c , & mut buf)", "XmlUtf8Encode (c , & mut buf)")
    return b


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    for n in ("XML_Convert_Result", "ByteType"):
        s += rx.enum_text(n, x["enums"][n]["variants"])
    s += re.sub(r": C2RustUnnamed\w*", ": u32", rx.const_text(x["consts"]))
    s += open(os.path.join(rx.VERIF, "verus/conv.rs")).read().replace("#[verifier::external_body]\npub fn lead_class", "#[verifier::external_body]\npub fn lead_class")
    s += open(os.path.join(rx.VERIF, "verus/cls.rs")).read()
    v = open(os.path.join(rx.VERIF, "verus/valspec.rs")).read()
    s += v[v.index("pub open spec fn xml_char"):v.index("pub open spec fn sp_charnum")]
    e = open(os.path.join(rx.VERIF, "verus/enc.rs")).read()
    i = e.index("pub open spec fn lead_n")
    s += e[i:e.index("\n}\n", i) + 3]
    vs = x["enums"]["ByteType"]["variants"]
    s += "pub fn code(t: ByteType) -> (r: i32) ensures r == code_of(t), { match t { %s } }\n" % ", ".join("ByteType::%s => %d" % (n, i) for i, (n, d) in enumerate(vs))
    s += "pub open spec fn code_of(t: ByteType) -> int { match t { %s } }\n" % ", ".join("ByteType::%s => %dint" % (n, i) for i, (n, d) in enumerate(vs))
    s += "#[verifier::external_body]\npub fn byte_type_of(p: i32) -> (r: ByteType) requires 0 <= p < %d, ensures code_of(r) == p, { unimplemented!() }\n" % len(vs)
    s += open(os.path.join(rx.VERIF, "verus/unk.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        ps = []
        for p in f["params"]:
            if p["name"] == "self":
                p = dict(name="self_", mut=False, ty="&mut UnknownEncoding" if k == "initialize" else "&UnknownEncoding")
            elif p["name"] == "table":
                p = dict(p, ty="Table")
            ps.append(p)
        if k in METHODS and k not in ("MINBPC", "byte_to_ascii", "char_matches") and not k.endswith("_minbpc"):
            ps += [dict(name="t", mut=False, ty="Ghost<Seq<i32>>"), dict(name="ns", mut=False, ty="Ghost<bool>")]
        g = dict(f, body=body_of(k, f), params=ps)
        sp = spec_of(k, f)
        s += rx.fn_text(g, k, sp, "", "").replace("&mutUnknown", "&mut Unknown")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "unk")
    p = os.path.join(rx.BUILD, "unk.rs")
    rx.write_if_changed(p, text(x, sys.argv[1:] or FNS))
    r = rx.run_verus(p, timeout=300)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
