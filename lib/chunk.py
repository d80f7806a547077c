"""Lemmas over the reference lexer (C03): what more text changes about a token.

For every function of verus/tokspec.rs that yields a token, a lemma `ext_*` is made from the function's own
text: the recursion and the case distinction stay, results become empty proofs, calls become calls of the
lemma for the function called."""
import os, re
import rx, tok

SKIP = {"sp_cdata_kw", "sp_attval_tok", "sp_entval_tok", "sp_val", "sp_ignore_tok", "sp_cdata_tok", "sp_content_tok", "sp_prolog_tok", "sp_cdata_more", "sp_content_more", "sp_psp"}
DATA = {"sp_cdata_more": "data_cdata", "sp_content_more": "data_content", "sp_psp": "data_space"}


def balanced(s, i, o, c):
    d = 0
    while True:
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def functions():
    s = open(os.path.join(rx.VERIF, "verus/tokspec.rs")).read()
    s = re.sub(r"//[^\n]*", "", s)
    for m in re.finditer(r"pub open spec fn (sp_\w+)<E: XmlEncodingImpl>\((.*?)\) -> R", s):
        b = s.index("{", m.end())
        dec = re.search(r"decreases (.*?) when", s[m.end():b])
        yield m.group(1), m.group(2), dec and dec.group(1), s[b:balanced(s, b, "{", "}")]


def proof_body(body, called):
    """Results become {}, calls become lemma calls."""
    b = re.sub(r"\b(part|pchar|none)\(\)", "{}", body)
    out, i = "", 0
    while True:
        m = re.search(r"\b(inv|tk|sp_\w+)\(", b[i:])
        if not m:
            return out + b[i:]
        s, e = i + m.start(), balanced(b, i + m.end() - 1, "(", ")")
        out += b[i:s]
        n, a = m.group(1), b[s + len(m.group(1)) + 1:e - 1]
        if n in ("inv", "tk"):
            out += "{}"
        elif b[:s].rstrip().endswith("="):
            out += b[s:e]
        elif n == "sp_cdata_kw":
            out += "{}"
        else:
            called.add(n)
            out += "{ %s(%s, h2); }" % (DATA.get(n, "ext_" + n[3:]), a)
        i = e


def lemmas():
    out = ""
    for n, params, dec, body in functions():
        if n in SKIP:
            continue
        names = [p.split(":")[0].strip() for p in params.split(",")]
        called = set()
        pb = proof_body(body, called)
        if n == "sp_att_val":
            pb = pb.replace("let r = sp_ref(e, m, i + e.bpc(), hi);", "let r = sp_ref(e, m, i + e.bpc(), hi); if r.t.d() >= 0 { ext_ref(e, m, i + e.bpc(), hi, h2); }")
            pb = pb.replace("{ r }", "{}")
        if n == "sp_att_val":
            called.add("sp_ref")
        if n == "sp_cdata_open":
            fuel0 = "reveal_with_fuel(sp_cdata_kw, 7);"
        else:
            fuel0 = ""
        req = "hi <= h2, e.bpc() == 1 || e.bpc() == 2, %s(%s).t.d() >= 0" % (n, ", ".join(names))
        if "k" in names:
            req += ", k != XML_TOK::DATA_CHARS, k != XML_TOK::PROLOG_S"
        a2 = ", ".join("h2" if x == "hi" else x for x in names)
        fuel = fuel0 + "".join("reveal(%s);" % x for x in sorted({n} | {c for c in called if n.startswith("sp_att") and c.startswith("sp_att")}))
        out += "pub proof fn ext_%s<E: XmlEncodingImpl>(%s, h2: int)\n    requires %s,\n    ensures %s(%s) == %s(%s), %s(%s).t != XML_TOK::DATA_CHARS, %s(%s).t != XML_TOK::PROLOG_S,\n%s{\n    %s\n    %s\n}\n" % (
            n[3:], params, req, n, a2, n, ", ".join(names), n, a2, n, a2, "    decreases %s, %dint\n" % (dec or "hi - i", 1 if dec is None else 0), fuel, pb)
    hand = open(os.path.join(rx.VERIF, "verus/chunk.rs")).read()
    bodies = {n: b for n, _, _, b in functions()}

    def fill(m):
        n = m.group(1).split(":")[0]
        return re.sub(r"let hi = whole_units\(.*?\);", "", proof_body(bodies[n], set()))
    return out + re.sub(r"@([\w:]+)@", fill, hand)


def text(x):
    t = tok.c02_text(x)
    end = "}\nfn main() {}\n"
    assert t.endswith(end)
    return t[:-len(end)] + lemmas() + end


if __name__ == "__main__":
    x = rx.extract(tok.request(), "tok")
    t = tok.c02_text(x, []) if len(__import__("sys").argv) > 1 else text(x)
    p = os.path.join(rx.BUILD, "chunk.rs")
    if len(__import__("sys").argv) > 1:
        t = t[:-len("}\nfn main() {}\n")] + lemmas() + "}\nfn main() {}\n"
    rx.write_if_changed(p, t)
    r = rx.run_verus(p)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures[:12]:
        print("FAIL", f["fn"], f["msg"], f["detail"][:500])
    for u in r.undecided[:6]:
        print("UND", u[:800])
