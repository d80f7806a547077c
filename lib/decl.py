"""XML and text declarations, names of encodings, detection of the encoding (xmltok.rs) under contract in Verus."""
import os, re
import rx, tok

DECL = ["isSpace", "toAscii", "parsePseudoAttribute", "doParseXmlDecl", "XmlParseXmlDecl", "XmlParseXmlDeclNS"]
NAMES = ["streqci", "getEncodingIndex", "findEncoding", "findEncodingNS"]
ENCS = ["UNKNOWN_ENC", "NO_ENC", "ISO_8859_1_ENC", "US_ASCII_ENC", "UTF_8_ENC", "UTF_16_ENC", "UTF_16BE_ENC", "UTF_16LE_ENC"]
DET = ["initScan", "init_prologTok", "init_contentTok", "new_impl", "new", "new_ns"]
FNS = DECL[:2] + NAMES + DECL[2:] + DET


def request():
    return dict(functions=[dict(key=k) for k in FNS if k not in DET] +
                [dict(key=k, name=k.split("_", 1)[1] if k.startswith("init_") else k, container="impl XmlEncoding for InitEncoding" if k.startswith("init_") else "impl InitEncoding", self_name="self_", index_get=True) for k in DET], consts=["ASCII_*", "KW_*", *ENCS, "UTF8_*"], enums=["XML_Convert_Result", "XML_TOK", "XML_STATE"], list=True)


def args_of(b, i):
    """b[i] is just behind an opening bracket: the end of the bracket"""
    d = 1
    while d:
        d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(b[i], 0)
        i += 1
    return i


def optmap(b):
    """x.map(|a| e), x.map_or(z, |a| e) as matches"""
    while True:
        m = re.search(r"(\w+) \. (map|map_or) \(", b)
        if not m:
            return b
        e = args_of(b, m.end())
        inner = b[m.end():e - 1].strip()
        c = re.search(r"(?:^|, )\| (\w+) \| ", inner)
        if not c:
            raise rx.Undecided("map without a closure")
        z = inner[:c.start()].strip()
        body = inner[c.end():].strip().rstrip(",").strip()
        r = "(match %s { Some (%s) => %s , None => %s })" % (m.group(1), c.group(1), body if z else "Some (%s)" % body, z or "None")
        b = b[:m.start()] + r + b[e:]


def clean(k, b):
    b = re.sub(r"\s+", " ", b)
    arrs = re.findall(r"let (?:mut )?(\w+) : \[(?:c_char|i8) ; \d+\] =", b)
    b = re.sub(r"let (?:mut )?(\w+) : \[(?:c_char|i8) ; (\d+)\] = \[0 ; \d+\] ;", r"let mut \1 = Arr :: zeroed (\2) ;", b)
    wins = {}
    for a in arrs:
        def new(m):
            ps = []
            for t in re.split(r" , ", m.group(2).strip().rstrip(",").strip()):
                t = t.strip()
                q = re.fullmatch(r"%s \. as_mut_ptr \(\)" % a, t)
                q1 = re.fullmatch(r"& mut %s \[(.*)\]" % a, t)
                q2 = re.fullmatch(r"%s \[(.*) \.\. ?\] \. as_mut_ptr \(\)" % a, t)
                if not (q or q1 or q2):
                    raise rx.Undecided("window into an array: " + t)
                ps.append("0" if q else (q1 or q2).group(1))
            wins[m.group(1)] = a
            return "let mut %s = Win :: over (& %s , %s , %s) ;" % (m.group(1), a, ps[0], ps[1])
        b = re.sub(r"let (?:mut )?(\w+) = ExpatBufRefMut :: new \((%s [^;]*|& mut %s [^;]*)\) ;" % (a, a), new, b)
        b = re.sub(r"\(?\* ?(enc)\)? ?\. utf8Convert \(& mut (\w+) , & mut (\w+)\)|(enc) \. utf8Convert \(& mut (\w+) , & mut (\w+)\)",
                   lambda m: "convert_arr (enc , & mut %s , & mut %s , & mut %s)" % (m.group(2) or m.group(5), a, m.group(3) or m.group(6)) if wins.get(m.group(3) or m.group(6)) == a else m.group(0), b)
        b = re.sub(r"\b%s \[(\w+)\] = (\w+) ;" % a, r"%s . put (\1 , \2) ;" % a, b)
        b = re.sub(r"\b%s \[(\w+)\]" % a, r"%s . get (\1)" % a, b)
        for w in [x for x in wins if wins[x] == a]:
            for x, y in ((w, a), (a, w)):
                b = re.sub(r"ptr_(eq|ne) \(%s \. as_ptr \(\) , %s \. as_ptr \(\)\)" % (x, y), lambda m: "(%s . lo %s 0)" % (w, {"eq": "==", "ne": "!="}[m.group(1)]), b)
        b = re.sub(r"\b%s \. as_(?:mut_)?ptr \(\)" % a, "%s . ptr ()" % a, b)
    b = re.sub(r"\b(KW_\w+) \. as_ptr \(\)", r"kw_ptr (& \1)", b)
    b = re.sub(r"(\w+) \. is_null \(\)", r"is_null (\1)", b)
    b = re.sub(r"\(size_of :: < \[(\w+) ; (\d+)\] > \(\) as c_ulong\) \. wrapping_div \(size_of :: < \1 > \(\) as c_ulong\) as c_int", r"\2", b)
    b = re.sub(r"Some \((?:\(\* enc\)|enc) \. clone \(\)\)", "Some (EncP :: Same)", b)
    b = re.sub(r"& ?\* ?(encodings|encodingsNS) \[", r"\1 [", b)
    b = re.sub(r"\b(encodings|encodingsNS) \[([^\[\]]*)\]", lambda m: "table_%s (%s)" % ("ns" if m.group(1) == "encodingsNS" else "plain", m.group(2)), b)
    b = re.sub(r"Some \((findEncoding|findEncodingNS)\)", r"Some (Finder :: \1)", b)
    b = re.sub(r"(\w+) \. (?:expect \(\"[^\"]*\"\)|unwrap \(\)) \(enc ,", r"call_finder (\1 , enc ,", b)
    b = b.replace("'\\0'", "0").replace("'\\u{0}'", "0")
    if k in DET:
        b = re.sub(r"\* self_ \. encPtr = & ?\* ?self_ \. encoding_table \[([^\[\]]*)\]", r"self_ . choose (\1)", b)
        b = re.sub(r"\(\* ?\* ?self_ \. encPtr\) \. xmlTok \(", "xml_tok (self_ , ", b)
        b = re.sub(r"(\w+) \. at \((\w+) \.\. ?\)", r"\1 . inc_start (\2)", b)
        b = re.sub(r"self_ \. initScan \(", "initScan (self_ , ", b)
        b = b.replace("Self :: new_impl (", "new_impl (").replace("Self {", "InitEncoding {")
        b = re.sub(r"& (encodings|encodingsNS)\b", lambda m: "Table :: " + ("Ns" if m.group(1) == "encodingsNS" else "Plain"), b)
    return optmap(b)


FUEL = "reveal_with_fuel(skip, 3); reveal_with_fuel(name_end, 3); reveal_with_fuel(value_end, 3);"
TY = {"Option < Ptr >": "Option<EncP>", "& mut Option < Ptr >": "&mut Option<EncP>"}


def spec_of(k, f):
    at = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
    ps = [p["name"] for p in f["params"]]
    E = lambda i: ps[i] + "__0"
    if k == "isSpace":
        return dict(ensures=["(r != 0) == blank(%s as int)" % E(0)])
    if k == "toAscii":
        e, b = E(0), E(1)
        K = "%s.kind, %s.mem@, %s.lo as int, %s.hi as int" % (e, b, b, b)
        return dict(requires=["wf(%s)" % b, "fit(%s)" % K], ensures=["r == asc(%s)" % K, "%s.lo <= %s.hi <= %s.mem@.len() <= isize::MAX" % (b, b, b), "r >= -1 && r < 128", "r != -1 ==> %s.lo + step(%s.kind) <= %s.hi && fit(%s.kind, %s.mem@, %s.lo + step(%s.kind), %s.hi as int)" % (b, e, b, e, b, b, e, b)], attrs=at,
                    pre="proof { reveal_with_fuel(bound, 3); reveal_with_fuel(text8, 3); reveal_with_fuel(wf8, 2); ascii_fits(%s); bits(); first_char(%s); }" % (K, K))
    if k == "streqci":
        a, b = E(0), E(1)
        req = ["%s.mem@.len() <= isize::MAX && %s.pos <= %s.mem@.len() && ended(%s.mem@, %s.pos as int)" % (x, x, x, x, x) for x in (a, b)]
        w = "same_ci(%s.mem@, %s as int, %s.mem@, %s as int)"
        return dict(requires=req, ensures=["(r != 0) == " + w % (a, a + ".pos", b, b + ".pos")], attrs=at,
                    loops=lambda j: dict(invariant=["%s.mem == %s.mem" % (ps[0], a), "%s.mem == %s.mem" % (ps[1], b)],
                        invariant_except_break=["ended(%s.mem@, %s.pos as int) && %s.pos <= %s.mem@.len()" % (x, x, x, x) for x in ps] + [(w % (a, a + ".pos", b, b + ".pos")) + " == " + (w % (a, ps[0] + ".pos", b, ps[1] + ".pos"))],
                        ensures=[w % (a, a + ".pos", b, b + ".pos")], decreases="%s.mem@.len() - %s.pos" % (a, ps[0])))
    if k == "getEncodingIndex":
        n = E(0)
        m = re.search(r"let (\w+) : \[Ptr ; 6\]", f["body"])
        t = m.group(1) if m else "encodingNames"
        return dict(requires=["%s.mem@.len() <= isize::MAX && (%s.mem@.len() > 0 ==> %s.pos <= %s.mem@.len() && ended(%s.mem@, %s.pos as int))" % (n, n, n, n, n, n)], attrs=at,
                    ensures=["%s.mem@.len() == 0 ==> r == NO_ENC" % n, "%s.mem@.len() > 0 ==> r == name_index(%s.mem@, %s.pos as int)" % (n, n, n)],
                    pre="proof { the_names(%s.mem@, %s.pos as int); }" % (n, n),
                    loops=lambda j: dict(invariant=["0 <= i <= 6", "*&%s == %s" % (ps[0], n), "forall|j: int| 0 <= j < i ==> !says(%s.mem@, %s.pos as int, #[trigger] nm(j))" % (n, n)], decreases="6 - i",
                                         head="proof { assert(%s@[i as int].mem@ =~= nm(i as int).push(0) && %s@[i as int].pos == 0 && ended(%s@[i as int].mem@, 0)) by { names_end(); } }" % (t, t, t)))
    if k in ("findEncoding", "findEncodingNS"):
        e, b = E(0), E(1)
        K = "%s.kind, %s.mem@, %s.lo as int, %s.hi as int" % (e, b, b, b)
        m = re.search(r"let mut (\w+) = Arr", f["body"])
        arr = m.group(1) if m else "out_buf"
        return dict(requires=["wf(%s)" % b, "readable(%s.kind, %s) && bound(%s)" % (e, b, K), "limit(%s.kind, %s) == %s.hi" % (e, b, b)], attrs=at,
                    ensures=["r == found(%s, %s)" % (K, "true" if k.endswith("NS") else "false")], pre="proof { names_end(); the_names(Seq::empty(), 0); half_name(%s.kind); }" % e)
    if k == "parsePseudoAttribute":
        e, b = E(0), E(1)
        nm, vl, nx = ps[2:5]
        K = "%s.kind, %s.mem@, " % (e, b)
        H = "%s.hi as int" % b
        I = "%s.lo as int" % b
        P = "pseudo(%s%s, %s)" % (K, I, H)
        B = ps[1]
        c = B + ".lo as int"
        A = "asc(%s%s, %s)" % (K, c, H)
        pn = lambda n: "%s(%s%s, %s)" % (n, K, I, H)
        ens = ["(r != 0) == %s.ok" % P, "!%s.ok ==> final(%s).pos == %s.next" % (P, nx, P),
               "final(%s).mem == old(%s).mem" % (nx, nx), "%s.lo <= final(%s).pos <= %s.hi" % (b, nx, b),
               "fit(%sfinal(%s).pos as int, %s)" % (K, nx, H),
               "%s.ok && %s.none ==> final(%s).is_none() && *final(%s) == *old(%s)" % (P, P, nm, nx, nx),
               "%s.ok && !%s.none ==> final(%s).is_some() && final(%s).unwrap() == (Buf { lo: %s.nlo as usize, hi: %s.nhi as usize, ..%s }) && final(%s).is_some() && final(%s).unwrap() == (Buf { lo: %s.vlo as usize, ..%s }) && final(%s).pos == %s.next" % (P, P, nm, nm, P, P, b, vl, vl, P, b, nx, P),
               "%s.ok && !%s.none ==> %s.lo <= %s.nlo && %s.nlo <= %s.nhi && %s.nhi <= %s.hi && %s.lo <= %s.vlo && %s.vlo <= %s.vhi && %s.vhi + step(%s.kind) == %s.next && %s.next <= %s.hi" % (P, P, b, P, P, P, P, b, b, P, P, P, P, e, P, P, b),
               "%s.ok && !%s.none ==> aligned(%s.kind, %s.nhi - %s.nlo) && aligned(%s.kind, %s.vhi - %s.vlo) && fit(%s%s.vlo, %s)" % (P, P, e, P, P, e, P, P, K, P, H),
               "%s.ok && !%s.none ==> bound(%s%s.vlo, %s.vhi) && (%s.kind == Kind::Utf8 ==> wf8(%s.mem@, %s.vlo, %s.vhi))" % (P, P, K, P, P, e, b, P, P)]
        req = ["wf(%s)" % b, "fit(%s%s, %s)" % (K, I, H), "old(%s).mem == %s.mem && old(%s).pos == %s.lo" % (nx, b, nx, b)]
        base = ["*%s == *old(%s)" % (nx, nx), "wf(%s)" % B, "%s.mem == %s.mem" % (B, b), "%s.hi == %s.hi" % (B, b), "%s.lo <= %s.lo" % (b, B), "fit(%s%s, %s)" % (K, c, H), "blank(asc(%s%s, %s))" % (K, I, H), "aligned(%s.kind, %s.lo - %s.lo)" % (e, B, b)]

        def loops(j):
            inv, ex, ns = list(base), [], []
            if j == 0:
                inv += ["%s == skip(%s%s, %s)" % (pn("p_name"), K, c, H)]
                ex = ["blank(%s)" % A]
                ns = ["%s.lo == %s" % (B, pn("p_name"))]
            nam = "*%s == Some(Buf { lo: %s as usize, hi: %s as usize, ..%s })"
            pa = "%s.lo < %s && %s < %s.hi && aligned(%s.kind, %s - %s.lo)" % (b, pn("p_name"), pn("p_name"), b, e, pn("p_name"), b)
            if j == 1:
                inv += [pa]
                ex = ["%s.lo >= %s" % (B, pn("p_name")), "%s == name_end(%s%s, %s)" % (pn("p_end"), K, c, H), nam % (nm, pn("p_name"), b + ".hi", b)]
                ns = ["%s.lo == %s" % (B, pn("p_eq")), "c == 0x3d && c == " + A, nam % (nm, pn("p_name"), pn("p_end"), b), "%s <= %s" % (pn("p_name"), pn("p_end")), "%s <= %s" % (pn("p_end"), pn("p_eq")), "aligned(%s.kind, %s - %s)" % (e, pn("p_end"), pn("p_name"))]
            if j == 2:
                inv += [pa, "%s == skip(%s%s, %s)" % (pn("p_eq"), K, c, H), "%s.lo >= %s" % (B, pn("p_end")), nam % (nm, pn("p_name"), pn("p_end"), b)]
                ex = ["blank(%s)" % A]
                ns = ["%s.lo == %s" % (B, pn("p_eq")), "c == " + A]
            if j == 3:
                inv += ["%s == skip(%s%s, %s)" % (pn("p_quote"), K, c, H), "c == " + A, "%s.lo > %s" % (B, pn("p_eq"))]
            if j == 4:
                q = "(%s + step(%s.kind))" % (pn("p_quote"), e)
                inv += ["%s == value_end(%s%s, %s)" % (pn("p_vend"), K, c, H), "%s.lo >= %s" % (B, q), "aligned(%s.kind, %s.lo - %s)" % (e, B, q)]
                ns = ["%s.lo == %s" % (B, pn("p_vend")), "c == " + A, "c == open as i32"]
            if ns:
                ns.append("nxt(%s%s, %s)" % (K, c, H))
            return dict(invariant=inv + (["nxt(%s%s, %s)" % (K, c, H)] if j == 3 else []), invariant_except_break=ex, ensures=ns, decreases="%s.hi - %s.lo" % (b, B), head="proof { ascii_fits(%s%s, %s); %s }" % (K, c, H, FUEL))
        return dict(requires=req, ensures=ens, attrs=at, loops=loops, pre="proof { ascii_fits(%s%s, %s); %s value_parts(%s%s); }" % (K, I, H, FUEL, K, H))
    if k == "doParseXmlDecl" or k.startswith("XmlParse"):
        o = 1 if k == "doParseXmlDecl" else 0
        ext, e, b, bad, ver, en, ec, sa = [ps[i + o] for i in range(8)]
        e, b, ext = e + "__0", b + "__0", ext + "__0"
        st = "step(%s.kind)" % e
        I, H = "%s.lo + 5 * %s" % (b, st), "%s.hi - 2 * %s" % (b, st)
        K = "%s.kind, %s.mem@, " % (e, b)
        D = "declaration(%s%s, %s, %s != 0)" % (K, I, H, ext)
        ns = {"XmlParseXmlDecl": "false", "XmlParseXmlDeclNS": "true"}.get(k, "%s == Some(Finder::findEncodingNS)" % (ps[0] + "__0"))
        span = lambda p: "Buf { lo: %s.0 as usize, hi: %s.1 as usize, ..%s }" % (p, p, b)
        req = ["wf(%s)" % b, "%s <= %s" % (I, H), "fit(%s%s, %s)" % (K, I, H)] + (["%s.is_some()" % (ps[0] + "__0")] if o else [])
        ens = ["(r != 0) == %s.ok" % D, "!%s.ok ==> final(%s).mem == %s.mem && final(%s).pos == %s.at" % (D, bad, b, bad, D),
               "%s.ok ==> (if let Some(p) = %s.version { *final(%s) == Some(%s) } else { *final(%s) == *old(%s) })" % (D, D, ver, span("p"), ver, ver),
               "%s.ok ==> (if let Some(p) = %s.encoding { final(%s).mem == %s.mem && final(%s).pos == p.0 && *final(%s) == found(%sp.0, p.1, %s) } else { *final(%s) == *old(%s) && *final(%s) == *old(%s) })" % (D, D, en, b, en, ec, K, ns, en, en, ec, ec),
               "%s.ok ==> (if let Some(y) = %s.standalone { *final(%s) == (if y { 1i32 } else { 0i32 }) } else { *final(%s) == *old(%s) })" % (D, D, sa, sa, sa)]
        inner = "%s.lo as int, %s.hi as int" % (ps[1 + o + 1 - 0] if False else [ps[i + o] for i in range(8)][2], [ps[i + o] for i in range(8)][2])
        B = [ps[i + o] for i in range(8)][2]
        return dict(requires=req, ensures=ens, attrs=at, pre="proof { words(); ascii_fits(%s%s, %s); %s }" % (K, I, H, FUEL),
                    loops=lambda j: dict(invariant=["wf(%s)" % B, "%s.mem == %s.mem" % (B, b), "%s.hi == %s" % (B, H), "fit(%s%s.lo as int, %s)" % (K, B, H), "(skip({0}{1}.lo as int, {2}) != {2} ==> !{3}.ok && {3}.at == skip({0}{1}.lo as int, {2})) && (skip({0}{1}.lo as int, {2}) == {2} ==> {3}.ok)".format(K, B, H, D)],
                                         decreases="%s.hi - %s.lo" % (b, B), head="proof { ascii_fits(%s%s.lo as int, %s); }" % (K, B, H)))
    if k in ("initScan", "init_prologTok", "init_contentTok"):
        c = {"init_prologTok": "false", "init_contentTok": "true"}.get(k, "%s == XML_STATE::CONTENT" % E(1))
        b, n = (E(2), ps[3]) if k == "initScan" else (E(1), ps[2])
        req = ["wf(%s)" % b, "0 <= old(self_).encoding_index < 7"] + (["%s == XML_STATE::CONTENT || %s == XML_STATE::PROLOG" % (E(1), E(1))] if k == "initScan" else [])
        return dict(requires=req, ensures=["detected(*old(self_), *final(self_), %s, %s, *old(%s), *final(%s), r)" % (c, b, n, n)], attrs=at,
                    pre="proof { if %s.hi - %s.lo >= 2 { two_bytes(%s.mem@[%s.lo as int] as u8, %s.mem@[%s.lo + 1] as u8); } zero_byte(); }" % (b, b, b, b, b, b))
    if k in ("new_impl", "new", "new_ns"):
        n = E(1)
        t = {"new": "Table::Plain", "new_ns": "Table::Ns"}.get(k) or E(2)
        v = "name_index(%s.mem@, %s.pos as int)" % (n, n)
        return dict(requires=["%s.mem@.len() <= isize::MAX && (%s.mem@.len() > 0 ==> %s.pos <= %s.mem@.len() && ended(%s.mem@, %s.pos as int))" % (n, n, n, n, n, n)], attrs=at,
                    ensures=["r.is_none() == (%s.mem@.len() > 0 && %s < 0)" % (n, v), "r.is_some() ==> r.unwrap() == (InitEncoding { encoding_index: if %s.mem@.len() == 0 { 6 } else { %s as i32 }, encoding_table: %s, encPtr: %s })" % (n, v, t, E(0)), "r.is_some() ==> 0 <= r.unwrap().encoding_index < 7"])
    return {}


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    s += rx.enum_text("XML_Convert_Result", x["enums"]["XML_Convert_Result"]["variants"])
    s += rx.enum_text("XML_TOK", x["enums"]["XML_TOK"]["variants"]) + rx.enum_text("XML_STATE", x["enums"]["XML_STATE"]["variants"])
    s += re.sub(r": C2RustUnnamed\w*", ": u32", re.sub(r"(\w+_ENC): C2RustUnnamed\w*", r"\1: i32", rx.const_text(x["consts"])))
    s += open(os.path.join(rx.VERIF, "verus/conv.rs")).read()
    s += open(os.path.join(rx.VERIF, "verus/decl.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        g = dict(f, body=clean(k, f["body"]))
        g["ret"] = TY.get(f["ret"], f["ret"])
        g["params"] = [dict(p, ty="Option<Finder>" if p["ty"].startswith("Option < unsafe fn") else TY.get(p["ty"], p["ty"])) for p in f["params"]]
        if k in DET:
            g["params"] = [dict(p, name="self_", ty="&mut InitEncoding", mut=False) if p["name"] == "self" else dict(p, ty="Table" if "[" in p["ty"] else "Slot" if p["name"] == "encPtr" or (k.startswith("new") and p is g["params"][0]) else p["ty"]) for p in g["params"]]
        s += rx.fn_text(g, k, spec_of(k, g), "", "")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "decl")
    p = os.path.join(rx.BUILD, "decl.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=200, extra=sys.argv[1:])
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
