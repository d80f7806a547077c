"""Value functions of the tokenizer (character references, predefined entities, names, positions, public ids)."""
import os, re, json
import rx, tok

FNS = ["charRefNumber", "predefinedEntityName", "nameMatchesAscii", "isPublicId", "updatePosition", "nameLength", "skipS"]
LAW = ("assert forall|i: int| class_law(#[trigger] self_.ct(%(m)s, i), self_.asc(%(m)s, i) as int) && "
       "(self_.std() ==> class_law_std(self_.ct(%(m)s, i), self_.asc(%(m)s, i) as int)) by { self_.law_class(%(m)s, i); }\n"
       "assert forall|i: int| self_.bpc() == 2 ==> (#[trigger] self_.ct(%(m)s, i)) != ByteType::LEAD2 && self_.ct(%(m)s, i) != ByteType::LEAD3 by { self_.law_lead(%(m)s, i); }\n")
BLAW = LAW % dict(m="buf__0.mem@")
PLAW = LAW % dict(m="ptr__0.mem@")
SHIFT = ("assert(forall|r: i32, d: i32| 0 <= r < 0x110000 && 0 <= d < 16 ==> #[trigger] ((r << 4i32) | d) == r * 16 + d) by (bit_vector); "
         "assert(forall|r: i32| 0 <= r < 0x110000 ==> #[trigger] (r << 4i32) == r * 16) by (bit_vector);\n")
BASE = ["wf(buf__0)", "self_.bpc() == 1 || self_.bpc() == 2"]
BINV = ["wf(buf)", "buf.mem == buf__0.mem", "buf.hi == buf__0.hi", "buf__0.lo <= buf.lo"]
CR = "sp_charref(self_, buf__0.mem@, buf__0.lo + 2 * self_.bpc(), buf__0.hi as int).t == XML_TOK::CHAR_REF"
A, B = "self_, buf__0.mem@", "self_, buf.mem@"

SPECS = dict(
    charRefNumber=dict(
        requires=["buf__0.hi - buf__0.lo >= 2 * self_.bpc()", CR],
        ensures=["r == sp_charnum(%s, buf__0.lo + 2 * self_.bpc(), buf__0.hi as int)" % A],
        pre="proof { %s %s reveal_with_fuel(crv, 3); }" % (BLAW, SHIFT),
        loops={0: ["0 <= result < 0x110000", "sp_hexref_more(%s, buf.lo as int, buf.hi as int).t == XML_TOK::CHAR_REF" % B,
                   "crv(%s, buf.lo as int, buf.hi as int, 16, result as int) == crv(%s, buf__0.lo + 3 * self_.bpc(), buf__0.hi as int, 16, 0)" % (B, A)],
               1: ["0 <= result < 0x110000", "sp_charref_more(%s, buf.lo as int, buf.hi as int).t == XML_TOK::CHAR_REF" % B,
                   "crv(%s, buf.lo as int, buf.hi as int, 10, result as int) == crv(%s, buf__0.lo + 2 * self_.bpc(), buf__0.hi as int, 10, 0)" % (B, A)]}),
    predefinedEntityName=dict(
        requires=["(buf__0.hi - buf__0.lo) % self_.bpc() == 0"],
        ensures=["r == sp_predef(%s, buf__0.lo as int, buf__0.hi as int)" % A], pre=tok.DIV),
    nameMatchesAscii=dict(
        requires=["forall|i: int| 0 <= i < ptr2__0@.len() ==> ptr2__0@[i] > 0"],
        ensures=["r == sp_same(%s, buf__0.lo as int, buf__0.hi as int, ptr2__0@, 0)" % A],
        loops={0: ["vidx0 <= ptr2@.len()", "sp_same(%s, buf__0.lo as int, buf__0.hi as int, ptr2__0@, 0) == sp_same(%s, buf.lo as int, buf.hi as int, ptr2__0@, vidx0 as int)" % (A, B)]},
        decreases={0: "ptr2@.len() - vidx0"}),
    isPublicId=dict(
        requires=["buf__0.hi - buf__0.lo >= 2 * self_.bpc()", "self_.std()"],
        ensures=["(r == 0) == (SPB >= 0)", "r == 0 ==> final(badPtr).mem == buf__0.mem && final(badPtr).pos == SPB", "r == 0 || r == 1"],
        sub={"SPB": "sp_pub_bad(%s, buf__0.lo + self_.bpc(), buf__0.hi - self_.bpc())" % A},
        pre="proof { %s assert(forall|c: i8| (#[trigger] (c & !0x7fi8) == 0) == (c >= 0)) by (bit_vector); }" % BLAW,
        loops={0: ["SPB == sp_pub_bad(%s, buf.lo as int, buf.hi as int)" % B, "*badPtr == *old(badPtr)"]}, binv=[i for i in BINV if "hi ==" not in i] + ["buf.hi == buf__0.hi - self_.bpc()"]),
    updatePosition=dict(
        requires=["whole(%s, buf__0.lo as int, buf__0.hi as int)" % A,
                  "old(pos).lineNumber + (buf__0.hi - buf__0.lo) <= u64::MAX", "old(pos).columnNumber + (buf__0.hi - buf__0.lo) <= u64::MAX"],
        ensures=["final(pos).lineNumber == SP.line", "final(pos).columnNumber == SP.col"],
        sub={"SP": "sp_pos(%s, buf__0.lo as int, buf__0.hi as int, old(pos).lineNumber as int, old(pos).columnNumber as int)" % A},
        pre="proof { reveal_with_fuel(whole, 3); %s }" % BLAW,
        loops={0: ["whole(%s, buf.lo as int, buf.hi as int)" % B, "SP == sp_pos(%s, buf.lo as int, buf.hi as int, pos.lineNumber as int, pos.columnNumber as int)" % B,
                   "pos.lineNumber <= old(pos).lineNumber + (buf.lo - buf__0.lo)", "pos.columnNumber <= old(pos).columnNumber + (buf.lo - buf__0.lo)"]}),
    nameLength=dict(
        base=["self_.bpc() == 1 || self_.bpc() == 2", "ptr__0.mem@.len() <= i32::MAX"], binv=[],
        requires=["EN <= ptr__0.mem@.len()"], ensures=["r == EN - ptr__0.pos"],
        sub={"EN": "sp_name_end(self_, ptr__0.mem@, ptr__0.pos as int, ptr__0.mem@.len() as int)"}, pre="proof { %s }" % PLAW,
        loops={0: ["ptr.mem == ptr__0.mem", "EN == sp_name_end(self_, ptr.mem@, ptr.pos as int, ptr.mem@.len() as int)", "start == ptr__0", "ptr__0.pos <= ptr.pos"]}, decreases={0: "ptr.mem@.len() - ptr.pos"}),
    skipS=dict(
        base=["self_.bpc() == 1 || self_.bpc() == 2", "ptr__0.mem@.len() <= isize::MAX"], binv=[],
        requires=["EN <= ptr__0.mem@.len()"], ensures=["r.mem == ptr__0.mem", "r.pos == EN"],
        sub={"EN": "sp_skip_s(self_, ptr__0.mem@, ptr__0.pos as int, ptr__0.mem@.len() as int)"},
        loops={0: ["ptr.mem == ptr__0.mem", "EN == sp_skip_s(self_, ptr.mem@, ptr.pos as int, ptr.mem@.len() as int)"]}, decreases={0: "ptr.mem@.len() - ptr.pos"}),
)


def request():
    return dict(functions=[dict(key=k, container=tok.IM, self_name="self_", free=FNS + ["checkCharRefNumber"]) for k in FNS]
                + [dict(key="negate", container="impl XML_TOK"), dict(key="is_error", container="impl XML_TOK")],
                consts=["ASCII_*"], enums=["XML_TOK", "ByteType"], structs=["Position"], list=True)


def spec_of(k):
    c = dict(SPECS[k])
    sub = c.get("sub", {})

    def S(t):
        for a, b in sub.items():
            t = re.sub(r"\b%s\b" % a, lambda m: b, t)
        return t
    binv = c.get("binv", BINV if "ptr" not in c else [])

    def loops(j):
        l = c.get("loops", {}).get(j, [])
        return dict(invariant=[S(i) for i in binv + l], decreases=c.get("decreases", {}).get(j, "buf.hi - buf.lo"), head=S(c.get("head", {}).get(j, "")))
    return dict(requires=[S(i) for i in c.get("base", BASE) + c["requires"]], ensures=[S(i) for i in c["ensures"]], pre=c.get("pre", ""), loops=loops,
                attrs=["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"])


EXTRA = """
// -1 converted to the unsigned type, as Rust defines `as`
pub fn xml_size_max() -> (r: XML_Size) ensures r == u64::MAX { u64::MAX }
pub struct Position { pub lineNumber: XML_Size, pub columnNumber: XML_Size }
// checked over all values by Kani (value_checkCharRefNumber)
#[verifier::external_body]
pub fn checkCharRefNumber(n: c_int) -> (r: c_int)
    requires 0 <= n < 0x110000,
    ensures r == checked(n as int),
{ unimplemented!() }
"""


def text(x, keys):
    s = tok.base_text(x) + tok.tok_impl(x)
    t = open(os.path.join(rx.VERIF, "verus/tokspec.rs")).read()
    s += t + open(os.path.join(rx.VERIF, "verus/valspec.rs")).read() + EXTRA
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        f = dict(f, body=re.sub(r"- \(1 as c_int\) as XML_Size", "xml_size_max()", f["body"]))
        s += rx.fn_text(f, k, spec_of(k), "<E: XmlEncodingImpl>", "E")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "val")
    p = os.path.join(rx.BUILD, "val.rs")
    rx.write_if_changed(p, text(x, sys.argv[1:] or FNS))
    r = rx.run_verus(p)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
