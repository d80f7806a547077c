"""Tokenizer functions (xmltok_impl.rs) under contract in Verus."""
import os, re, json
import rx

SCAN = ["scanComment", "scanDecl", "checkPiTarget", "scanPi", "scanCdataSection", "scanEndTag", "scanHexCharRef",
        "scanCharRef", "scanRef", "scanAtts", "scanLtHelper", "scanLt", "scanPercent", "scanPoundName", "scanLit"]
TOP = ["cdataSectionTok", "contentTok", "prologTok", "attributeValueTok", "entityValueTok", "ignoreSectionTok"]
AUX = ["isPublicId", "predefinedEntityName", "nameMatchesAscii"]
TR, IM = "trait XmlTokImpl", "impl XmlEncoding for T"
ENC_METHODS = ["MINBPC", "byte_type", "byte_to_ascii", "is_name_char", "is_nmstrt_char", "is_invalid_char",
               "is_name_char_minbpc", "is_nmstrt_char_minbpc", "char_matches"]


def request(extra=()):
    fns = [dict(key="list", list=True)] if False else []
    free = SCAN + TOP + AUX + list(extra)
    for k in SCAN + list(extra):
        fns.append(dict(key=k, container=TR, self_name="self_", free=free))
    for k in TOP + AUX:
        fns.append(dict(key=k, container=IM, self_name="self_", free=free))
    fns.append(dict(key="negate", container="impl XML_TOK"))
    fns.append(dict(key="is_error", container="impl XML_TOK"))
    return dict(functions=fns, consts=["ASCII_*"], enums=["XML_TOK", "ByteType"], list=True)


def base_text(x):
    """Types and constants taken from the source, plus the hand-written model (prelude.rs, enc.rs)."""
    s = "use vstd::prelude::*;\nverus! {\n"
    s += open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    for n in ("XML_TOK", "ByteType"):
        e = x["enums"][n]
        if "error" in e:
            raise rx.Undecided("enum %s: %s" % (n, e["error"]))
        s += rx.enum_text(n, e["variants"])
    s += rx.const_text(x["consts"])
    s += open(os.path.join(rx.VERIF, "verus/cls.rs")).read()
    s += open(os.path.join(rx.VERIF, "verus/enc.rs")).read()
    return s


def tok_impl(x):
    """XML_TOK::{is_error,negate}: bodies from the source; `self.to_i32().unwrap()` (derived by
    num_derive) becomes the discriminant, which is what the derive computes."""
    s = "impl XML_TOK {\n"
    disc = "pub open spec fn d(self) -> int { match self { %s } }\n" % ", ".join(
        "XML_TOK::%s => %s" % (v, "(" + d + ")int") for v, d in x["enums"]["XML_TOK"]["variants"])
    disc = re.sub(r"\(([-\s\d]+)\)int", lambda m: "%sint" % m.group(1).replace(" ", "") if "-" not in m.group(1) else "(%s)" % m.group(1).replace(" ", "") + " as int", disc)
    s += disc
    s += "pub fn to_i32_(&self) -> (r: i32) ensures r == self.d() { match self { %s } }\n" % ", ".join(
        "XML_TOK::%s => %s" % (v, d) for v, d in x["enums"]["XML_TOK"]["variants"])
    f = x["functions"]["is_error"]
    if "error" in f:
        raise rx.Undecided(f["error"])
    b = re.sub(r"\. to_i32 \(\) \. unwrap \(\)", ". to_i32_ ()", f["body"])
    s += "pub fn is_error(&self) -> (r: bool) ensures r == (self.d() <= 0) %s\n" % b
    f = x["functions"]["negate"]
    if "error" in f:
        raise rx.Undecided(f["error"])
    s += """pub fn negate(&self) -> (r: XML_TOK)
        requires *self == XML_TOK::CLOSE_PAREN_NEG || *self == XML_TOK::POUND_NAME_NEG || *self == XML_TOK::LITERAL_NEG
            || *self == XML_TOK::NAME_NEG || *self == XML_TOK::NAME || *self == XML_TOK::PREFIXED_NAME || *self == XML_TOK::NMTOKEN
            || *self == XML_TOK::CLOSE_BRACKET_NEG || *self == XML_TOK::PREFIXED_NAME_NEG || *self == XML_TOK::NMTOKEN_NEG
        ensures r.d() == -self.d()
%s\n}\n""" % f["body"]
    return s


def hoists(x, keys):
    s = ""
    for k in keys:
        for h in x["functions"][k].get("hoist", []):
            s += "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n pub " + h + "\n"
    return s


BITS = ("proof { assert(forall|n: usize| (#[trigger] (n & 1usize)) == n % 2) by (bit_vector); "
        "assert(forall|n: usize| (#[trigger] (n & 0xffff_ffff_ffff_fffeusize)) == n - n % 2) by (bit_vector); "
        "assert((!(1isize)) as usize == 0xffff_ffff_ffff_fffeusize) by (bit_vector); }")


NE = "buf.hi - buf.lo >= self_.bpc()"
DIV = ("proof { let l = (buf.hi - buf.lo) as int; let b = self_.bpc(); if b == 1 { assert(l / b == l) by (nonlinear_arith) requires b == 1; } "
       "else { assert(l / b == l / 2) by (nonlinear_arith) requires b == 2; } }")
# per function additions to the generic contract: requires, per-loop invariants, loop exits, measures
C01 = {
    "scanCdataSection": dict(loops={0: dict(invariant=[
        "0 <= i <= 6", "CDATA_LSQB@.len() == 6", "self_.bpc() == 1 ==> buf.hi - buf.lo >= 6 - i", "self_.bpc() == 2 ==> buf.hi - buf.lo >= 12 - 2 * i"],
        decreases="6 - i")}),
    "scanAtts": dict(loops={0: dict(head="let ghost g0 = buf.lo;"),
                            1: dict(invariant=[NE, "g0 <= buf.lo"]), 2: dict(invariant=[NE, "g0 <= buf.lo"]),
                            3: dict(invariant=["g0 < buf.lo"], ensures=[NE, "g0 < buf.lo"]),
                            4: dict(invariant=[NE, "g0 < buf.lo", "current_block != scanAtts_Label::Gt", "current_block != scanAtts_Label::Sol"],
                                    ensures=["g0 < buf.lo", "current_block == scanAtts_Label::Gt || current_block == scanAtts_Label::Sol ==> " + NE])}),
    "predefinedEntityName": dict(pre=DIV),
    "scanLtHelper": dict(requires=["buf__0.hi - buf__0.lo >= self_.bpc()"]),
    "cdataSectionTok": dict(loops={0: dict(invariant=["buf.lo > buf__0.lo"])}),
    "contentTok": dict(loops={0: dict(invariant=["buf.lo > buf__0.lo"])}),
    "prologTok": dict(loops={0: dict(invariant=[NE], ensures=["buf.lo > buf__0.lo"], no_ne_exit=True),
                             1: dict(invariant=["buf.lo > buf__0.lo", "tok == XML_TOK::NAME || tok == XML_TOK::NMTOKEN || tok == XML_TOK::PREFIXED_NAME"])}),
    "attributeValueTok": dict(requires=["whole(self_, buf__0.mem@, buf__0.lo as int, buf__0.hi as int)"],
                              loops={0: dict(invariant=["whole(self_, buf.mem@, buf.lo as int, buf.hi as int)", "start.pos == buf__0.lo", "start.mem == buf__0.mem", "buf.lo > buf__0.lo || HASC"])}),
    "entityValueTok": dict(requires=["whole(self_, buf__0.mem@, buf__0.lo as int, buf__0.hi as int)"],
                           loops={0: dict(invariant=["whole(self_, buf.mem@, buf.lo as int, buf.hi as int)", "start.pos == buf__0.lo", "start.mem == buf__0.mem", "buf.lo > buf__0.lo || HASC"])}),
    "ignoreSectionTok": dict(requires=["buf__0.mem@.len() <= i32::MAX"], loops={0: dict(invariant=["0 <= level <= buf.lo - buf__0.lo"])}),
    "nameMatchesAscii": dict(requires=["forall|i: int| 0 <= i < ptr2__0@.len() ==> ptr2__0@[i] > 0"]),
    "isPublicId": dict(requires=["buf__0.hi - buf__0.lo >= 2 * self_.bpc()"]),
}


def c01_spec(f, key):
    names = [p["name"] for p in f["params"]]
    mut = {p["name"]: p["mut"] for p in f["params"]}
    b0 = "buf__0"
    x = C01.get(key, {})
    req = ["wf(%s)" % b0, "self_.bpc() == 1 || self_.bpc() == 2"] + x.get("requires", [])
    ens = []
    inv = ["wf(buf)", "buf.mem == %s.mem" % b0, "buf.hi <= %s.hi" % b0, "%s.lo <= buf.lo" % b0]
    if key not in TOP and key != "isPublicId":
        inv.append("buf.hi == %s.hi" % b0)
    if "nextTokPtr" in names:
        ens = ["r.d() >= 0 ==> final(nextTokPtr).mem == %s.mem && %s.lo <= final(nextTokPtr).pos <= %s.hi" % (b0, b0, b0),
               "r.d() < 0 ==> *final(nextTokPtr) == *old(nextTokPtr) || (final(nextTokPtr).mem == %s.mem && %s.lo <= final(nextTokPtr).pos <= %s.hi)" % (b0, b0, b0)]
        if key in TOP:
            ens.append("r.d() > 0 && r != XML_TOK::INSTANCE_START ==> final(nextTokPtr).pos > %s.lo" % b0)
        inv.append("*nextTokPtr == *old(nextTokPtr)")
    if key == "isPublicId":
        ens = ["r == 0 ==> final(badPtr).mem == buf__0.mem && buf__0.lo <= final(badPtr).pos < buf__0.hi"]
        inv.append("*badPtr == *old(badPtr)")

    def loops(k):
        h = x.get("loops", {}).get(k, {})
        hasc = "buf.hi - buf.lo >= self_.bpc()"
        hi = [i.replace("HASC", hasc) for i in h.get("invariant", [])]
        d = {"decreases": h.get("decreases", "buf.hi - buf.lo"), "head": h.get("head")}
        if h.get("ensures"):
            d["invariant_except_break"] = hi
            d["invariant"] = inv
            d["ensures"] = h["ensures"]
        else:
            d["invariant"] = inv + hi
        return d
    return req, ens, loops, x.get("pre", "")


def c01_text(x):
    s = base_text(x) + tok_impl(x)
    keys = SCAN + TOP + AUX
    for k in keys:
        if "error" in x["functions"][k]:
            raise rx.Undecided(x["functions"][k]["error"])
    s += hoists(x, keys)
    for k in keys:
        f = x["functions"][k]
        req, ens, loops, pre = c01_spec(f, k)
        spec = dict(requires=req, ensures=ens, attrs=["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"], pre=pre + (BITS if "&=" in f["body"] else ""),
                    loops=loops)
        s += rx.fn_text(f, k, spec, "<E: XmlEncodingImpl>", "E")
    return s + "}\nfn main() {}\n"


# C02: equality with the reference lexer.  "@" = the encoding and the text, "." = the current span
AT0 = "self_, buf__0.mem@"
SPAN0 = "buf__0.lo as int, buf__0.hi as int"
C02 = {
    "scanComment": ("sp_comment(@, .)", {0: "sp_comment_body(@, .)"}),
    "scanDecl": ("sp_decl(@, .)", {0: "sp_decl_name(@, .)"}),
    "scanPi": ("sp_pi(@, .)", {0: "sp_pi_name(@, target.lo as int, .)", 1: "sp_pi_body(@, tok, .)"}),
    "scanCdataSection": ("sp_cdata_open(@, .)", {0: "sp_cdata_kw(@, i as int, buf.lo as int)"}),
    "scanEndTag": ("sp_end(@, .)", {0: "sp_end_name(@, .)", 1: "sp_end_s(@, .)"}),
    "scanHexCharRef": ("sp_hexref(@, .)", {0: "sp_hexref_more(@, .)"}),
    "scanCharRef": ("sp_charref(@, .)", {0: "sp_charref_more(@, .)"}),
    "scanRef": ("sp_ref(@, .)", {0: "sp_nameref(@, XML_TOK::ENTITY_REF, .)"}),
    "scanAtts": ("sp_atts(@, false, .)", {
        0: "sp_atts(@, hadColon != 0, .)",
        1: ("sp_att_eq(@, .+)", "SP == sp_att_open(@, .+)"),
        2: ("sp_att_open(@, .+)", "SP == sp_att_val(@, open, .+)"),
        3: ("sp_att_val(@, open, .)", "SP == sp_att_after(@, .+)"),
        4: ("sp_att_gap(@, .+)",
            "match current_block { scanAtts_Label::Gt => SP == tk(XML_TOK::START_TAG_WITH_ATTS, buf.lo + self_.bpc()), "
            "scanAtts_Label::Sol => SP == sp_empty(@, XML_TOK::EMPTY_ELEMENT_WITH_ATTS, .+), _ => SP == sp_atts(@, false, .) }")}),
    "scanLtHelper": ("sp_empty(@, XML_TOK::EMPTY_ELEMENT_NO_ATTS, .+)", {}),
    "scanLt": ("sp_lt(@, .)", {0: "sp_tag_name(@, hadColon, .)", 1: ("sp_tag_gap(@, .)", "SP == part()")}),
    "scanPercent": ("sp_percent(@, .)", {0: "sp_nameref(@, XML_TOK::PARAM_ENTITY_REF, .)"}),
    "scanPoundName": ("sp_pound(@, .)", {0: "sp_pound_name(@, .)"}),
    "scanLit": ("sp_lit(@, open__0, .)", {0: "sp_lit(@, open, .)"}),
    "cdataSectionTok": ("sp_cdata_tok(@, .)", {0: "sp_cdata_more(@, .)"}),
    "contentTok": ("sp_content_tok(@, .)", {0: ("sp_content_more(@, .)", "SP == tk(XML_TOK::DATA_CHARS, buf.lo as int)")}),
    "prologTok": ("sp_prolog_tok(@, .)", {0: ("sp_psp(@, .+)", "SP == tk(XML_TOK::PROLOG_S, buf.lo as int)"), 1: "sp_pname(@, tok, .)"}),
    "attributeValueTok": ("sp_attval_tok(@, .)", {0: "sp_val(@, false, start.pos as int, .)"}),
    "entityValueTok": ("sp_entval_tok(@, .)", {0: "sp_val(@, true, start.pos as int, .)"}),
    "ignoreSectionTok": ("sp_ignore_tok(@, .)", {0: "sp_ign(@, level as int, .)"}),
}


ISOLATE = set(SCAN + TOP) - {"scanCdataSection", "scanPi", "contentTok"}


def sub0(t):
    return t.replace("@", AT0, 1).replace(".+", "buf__0.lo + self_.bpc(), buf__0.hi as int").replace(", .)", ", %s)" % SPAN0) if "@" in t else t


def sub1(t, sp):
    t = t.replace("SP ==", sp + " ==")
    i = t.find(" == ")
    h, b = (t[:i + 4], t[i + 4:]) if t.startswith(sp) else ("", t)
    b = b.replace("(@,", "(self_, buf.mem@,").replace(".+)", "buf.lo + self_.bpc(), buf.hi as int)").replace(", .)", ", buf.lo as int, buf.hi as int)")
    return h + b


def c02_text(x, keys=None):
    s = base_text(x) + tok_impl(x) + re.sub(r"pub open spec fn sp_", "#[verifier::opaque]\npub open spec fn sp_", open(os.path.join(rx.VERIF, "verus/tokspec.rs")).read())
    keys = keys or (SCAN + TOP)
    for k in keys:
        if "error" in x["functions"][k]:
            raise rx.Undecided(x["functions"][k]["error"])
    s += hoists(x, keys)
    for k in keys:
        f = x["functions"][k]
        req, ens, loops, pre = c01_spec(f, k)
        if k in C02:
            sp = sub0(C02[k][0])
            ens = ens + ["res(r, *old(nextTokPtr), *final(nextTokPtr), buf__0.mem, %s)" % sp]
            if k == "scanLit":
                req = req + ["open__0 == ByteType::QUOT || open__0 == ByteType::APOS"]
            ex = C02[k][1]
            names = sorted(set(re.findall(r"sp_\w+", json.dumps(C02[k]))))
            pre += "proof { %s }" % " ".join("reveal(%s);" % n for n in names)

            def lp(j, loops=loops, ex=ex, sp=sp):
                d = dict(loops(j))
                e = ex.get(j)
                if isinstance(e, tuple):
                    if "ensures" not in d:
                        d["invariant_except_break"] = []
                        d["ensures"] = []
                    d["invariant_except_break"] = d.get("invariant_except_break", []) + [sub1("SP == " + e[0], sp)]
                    t = e[1]
                    t = t.replace("SP ==", "@@SP@@ ==")
                    t = t.replace("(@,", "(self_, buf.mem@,").replace(".+)", "buf.lo + self_.bpc(), buf.hi as int)").replace(", .)", ", buf.lo as int, buf.hi as int)")
                    d["ensures"] = d.get("ensures", []) + [t.replace("@@SP@@", sp)]
                elif e:
                    key = "invariant_except_break" if "ensures" in d else "invariant"
                    d[key] = d.get(key, []) + [sub1("SP == " + e, sp)]
                return d
            loops2 = lp
        elif k == "checkPiTarget":
            ens = ["(r == 0) == (pi_target(self_, buf__0.mem@, buf__0.lo as int, buf__0.hi as int) == XML_TOK::INVALID)",
                   "r != 0 ==> *final(tokPtr) == pi_target(self_, buf__0.mem@, buf__0.lo as int, buf__0.hi as int)"]
            loops2 = loops
        else:
            loops2 = loops
        attrs = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
        if k in ISOLATE:
            attrs = attrs[2:]

            def iso(j, lp=loops2, pre=pre, req=req):
                d = dict(lp(j))
                d["invariant"] = d["invariant"] + req
                d["head"] = pre + (d.get("head") or "")
                return d
            loops2 = iso
        spec = dict(requires=req, ensures=ens, attrs=attrs,
                    pre=pre + (BITS if "&=" in f["body"] else ""), loops=loops2)
        s += rx.fn_text(f, k, spec, "<E: XmlEncodingImpl>", "E")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    x = rx.extract(request(), "tok")
    import sys
    w = sys.argv[1] if len(sys.argv) > 1 else "c01"
    t = c01_text(x) if w == "c01" else c02_text(x)
    p = os.path.join(rx.BUILD, w + ".rs")
    rx.write_if_changed(p, t)
    r = rx.run_verus(p)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print("FAIL", f["fn"], f["msg"], f["detail"][:700])
    for u in r.undecided[:12]:
        print("UND", u[:800])
