"""The prolog state machine (xmlrole.rs) under contract in Verus."""
import os, re
import rx, tok, val

TABLE = os.path.join(rx.VERIF, "verus/roles.txt")


def table():
    """[(state, [(token, keyword, to, role, action)])]"""
    out = []
    for l in open(TABLE):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        st, rest = l.split(":", 1)
        es = []
        for e in rest.split(";"):
            m = re.match(r'\s*(\w+?)(?:"(\w+)")?(?:\s+->\s+(close \w+|\w+))?\s+(?:->\s+pop\s+)?(\w+)(?:\s+(level=\d|level\+|include\+))?\s*$', e)
            if not m:
                raise ValueError("roles.txt: " + e)
            es.append(list(m.groups()))
        out.append((st, es))
    return out


STATES = [s for s, _ in table()] + ["externalSubset0", "externalSubset1", "declClose", "error"]
FNS = STATES + ["common", "XmlPrologStateInit", "XmlPrologStateInitExternalEntity"]


def request():
    fr = ["nameMatchesAscii", "minBytesPerChar"]
    fns = [dict(key=k, module="lib::xmlrole", self_name="enc", free=fr) for k in FNS]
    fns += [dict(key=k, container=tok.IM, self_name="self_", free=fr) for k in fr]
    fns += [dict(key="negate", container="impl XML_TOK"), dict(key="is_error", container="impl XML_TOK")]
    return dict(functions=fns, consts=["ASCII_*", "KW_*"], enums=["XML_TOK", "ByteType", "XML_ROLE"], structs=["prolog_state"], list=True)


def kwseq(w):
    return "seq![" + ", ".join("%di8" % ord(c) for c in w) + "]"


def spec_text():
    s = """
// a state of the machine, and what it may be asked
pub struct St { pub h: Hnd, pub level: int, pub role_none: XML_ROLE, pub include: int, pub doc: bool }
pub struct Ask<'a, E: XmlEncodingImpl> { pub e: &'a E, pub m: Seq<i8>, pub lo: int, pub hi: int }
pub open spec fn to(s: St, h: Hnd, r: XML_ROLE) -> (St, XML_ROLE) { (St { h, ..s }, r) }
pub open spec fn stay(s: St, r: XML_ROLE) -> (St, XML_ROLE) { (s, r) }
pub open spec fn subset(s: St) -> Hnd { if s.doc { Hnd::internalSubset } else { Hnd::externalSubset1 } }
pub open spec fn close(s: St, n: XML_ROLE) -> St { St { h: Hnd::declClose, role_none: n, ..s } }
pub open spec fn pop(s: St, r: XML_ROLE) -> (St, XML_ROLE) {
    if s.level == 1 { (St { level: 0, ..close(s, XML_ROLE::ELEMENT_NONE) }, r) } else { (St { level: s.level - 1, ..s }, r) }
}
pub open spec fn sp_common(s: St, t: XML_TOK) -> (St, XML_ROLE) {
    if !s.doc && t == XML_TOK::PARAM_ENTITY_REF { (s, XML_ROLE::INNER_PARAM_ENTITY_REF) } else { to(s, Hnd::error, XML_ROLE::ERROR) }
}
pub open spec fn kw<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, w: Seq<i8>) -> bool { sp_same(e, m, lo, hi, w, 0) }
"""
    for st, es in table():
        s += "pub open spec fn sp_%s<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) {\n    " % st
        for tk_, kw, to, role, act in es:
            off = {"DECL_OPEN": "lo + 2 * e.bpc()", "POUND_NAME": "lo + e.bpc()"}.get(tk_, "lo")
            c = "t == XML_TOK::%s" % tk_ + (" && kw(e, m, %s, hi, %s)" % (off, kwseq(kw)) if kw else "")
            r = "XML_ROLE::" + role
            src = "s"
            if act:
                src = "St { %s, ..s }" % {"level+": "level: s.level + 1", "include+": "include: s.include + 1"}.get(act, act.replace("level=", "level: "))
            if to is None:
                v = "stay(%s, %s)" % (src, r)
            elif to == "pop":
                v = "pop(s, %s)" % r
            elif to.startswith("close"):
                v = "(close(%s, XML_ROLE::%s), %s)" % (src, to.split()[1], r)
            elif to == "subset":
                v = "to(s, subset(s), %s)" % r
            else:
                v = "to(%s, Hnd::%s, %s)" % (src, to, r)
            s += "if %s { %s } else " % (c, v)
        s += "{ sp_common(s, t) }\n}\n"
    s += """
pub open spec fn sp_externalSubset1<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) {
    if t == XML_TOK::COND_SECT_OPEN { to(s, Hnd::condSect0, XML_ROLE::NONE) }
    else if t == XML_TOK::COND_SECT_CLOSE { if s.include > 0 { stay(St { include: s.include - 1, ..s }, XML_ROLE::NONE) } else { sp_common(s, t) } }
    else if t == XML_TOK::CLOSE_BRACKET { sp_common(s, t) }
    else if t == XML_TOK::NONE { if s.include == 0 { stay(s, XML_ROLE::NONE) } else { sp_common(s, t) } }
    else { sp_internalSubset(e, m, lo, hi, s, t) }
}
pub open spec fn sp_externalSubset0<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) {
    if t == XML_TOK::XML_DECL { to(s, Hnd::externalSubset1, XML_ROLE::TEXT_DECL) }
    else { sp_externalSubset1(e, m, lo, hi, St { h: Hnd::externalSubset1, ..s }, t) }
}
pub open spec fn sp_declClose<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) {
    if t == XML_TOK::PROLOG_S { stay(s, s.role_none) } else if t == XML_TOK::DECL_CLOSE { to(s, subset(s), s.role_none) } else { sp_common(s, t) }
}
pub open spec fn sp_error<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) { stay(s, XML_ROLE::NONE) }
// inside a group the level is at least one
pub open spec fn good(s: St) -> bool {
    s.level >= 0 && s.include >= 0 && (s.h == Hnd::element2 ==> s.level == 1) && (s.h == Hnd::element6 || s.h == Hnd::element7 ==> s.level >= 1)
}
"""
    s += "pub open spec fn sp_role<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK) -> (St, XML_ROLE) {\n    match s.h {\n"
    for st in STATES:
        s += "        Hnd::%s => sp_%s(e, m, lo, hi, s, t),\n" % (st, st)
    s += "    }\n}\n"
    s += open(os.path.join(rx.VERIF, "verus/rolelemmas.rs")).read()
    return s


def text(x):
    s = tok.base_text(x) + tok.tok_impl(x)
    s += rx.enum_text("XML_ROLE", x["enums"]["XML_ROLE"]["variants"])
    s += "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\npub enum Hnd { %s }\n" % ", ".join(STATES)
    fs = dict(x["structs"]["prolog_state"].get("fields", []))
    if set(fs) != {"handler", "level", "role_none", "includeLevel", "documentEntity", "inEntityValue"}:
        raise rx.Undecided("prolog_state has other fields")
    fs["handler"] = "Option<Hnd>"
    s += "pub struct PROLOG_STATE { %s }\n" % ", ".join("pub %s: %s" % f for f in fs.items())
    t = open(os.path.join(rx.VERIF, "verus/tokspec.rs")).read()
    s += t + open(os.path.join(rx.VERIF, "verus/valspec.rs")).read()
    s += """
pub open spec fn view(p: PROLOG_STATE) -> St { St { h: p.handler->0, level: p.level as int, role_none: p.role_none, include: p.includeLevel as int, doc: p.documentEntity != 0 } }
"""
    s += spec_text()
    for k in ["minBytesPerChar", "nameMatchesAscii"] + FNS:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
    f = x["functions"]["minBytesPerChar"]
    s += rx.fn_text(f, "minBytesPerChar", dict(requires=["self_.bpc() == 1 || self_.bpc() == 2"], ensures=["r == self_.bpc()"]), "<E: XmlEncodingImpl>", "E")
    s += rx.fn_text(x["functions"]["nameMatchesAscii"], "nameMatchesAscii", val.spec_of("nameMatchesAscii"), "<E: XmlEncodingImpl>", "E")
    for k in FNS:
        f = x["functions"][k]
        b = re.sub(r"Some \((\w+) as PROLOG_HANDLER\)", r"Some (Hnd::\1)", f["body"])
        names = [p["name"] for p in f["params"]]
        ps = [dict(p, ty=p["ty"].replace("prolog_state", "PROLOG_STATE").replace("ENCODING", "E")) for p in f["params"]]
        st = names[0]
        pre_s, post_s = "view(*old(%s))" % st, "view(*final(%s))" % st
        keep = "final(%s).documentEntity == old(%s).documentEntity, final(%s).inEntityValue == old(%s).inEntityValue, final(%s).handler.is_some()" % ((st,) * 5)
        attrs = ["loop_isolation(false)", "spinoff_prover"]
        gen = ""
        if k.startswith("XmlPrologStateInit"):
            ext = k.endswith("Entity")
            ens = ["final(%s).handler == Some(Hnd::%s)" % (st, "externalSubset0" if ext else "prolog0"), "final(%s).documentEntity == %d" % (st, 0 if ext else 1),
                   "final(%s).includeLevel == 0" % st, "final(%s).level == old(%s).level" % (st, st), "old(%s).level >= 0 ==> good(%s)" % (st, post_s)]
            if not ext:
                ens.append("final(%s).inEntityValue == 0" % st)
            spec = dict(ensures=ens, attrs=attrs)
        elif k == "common":
            spec = dict(ensures=["(%s, r) == sp_common(%s, %s__0)" % (post_s, pre_s, names[1]), keep.replace("%s.handler.is_some()" % st, ""),
                                 "old(%s).handler.is_some() ==> final(%s).handler.is_some()" % (st, st)], attrs=attrs)
            spec["ensures"][1] = spec["ensures"][1].split(", final(%s).handler" % st)[0]
        else:
            gen = "<E: XmlEncodingImpl>"
            tk_, bf, en = names[1] + "__0", names[2], names[3] + "__0"
            a = "%s, %s__0.mem@, %s__0.lo as int, %s__0.hi as int" % (en, bf, bf, bf)
            # a state function is asked with its own state (externalSubset* hand over to the next)
            own = {"internalSubset": "old(%s).handler == Some(Hnd::internalSubset) || old(%s).handler == Some(Hnd::externalSubset1)" % (st, st),
                   "externalSubset1": "old(%s).handler == Some(Hnd::externalSubset1)" % st}.get(k, "old(%s).handler == Some(Hnd::%s)" % (st, k))
            req = [own, "good(%s)" % pre_s, "wf(%s__0)" % bf, "%s.bpc() == 1 || %s.bpc() == 2" % (en, en), "old(%s).level < u32::MAX" % st, "old(%s).includeLevel < u32::MAX" % st,
                   "%s == XML_TOK::DECL_OPEN ==> %s__0.hi - %s__0.lo >= 2 * %s.bpc()" % (tk_, bf, bf, en), "%s == XML_TOK::POUND_NAME ==> %s__0.hi - %s__0.lo >= %s.bpc()" % (tk_, bf, bf, en)]
            ens = ["(%s, r) == sp_%s(%s, %s, %s)" % (post_s, k, a, pre_s, tk_), keep, "good(%s)" % post_s]
            spec = dict(requires=req, ensures=ens, attrs=attrs)
            if k == "attlist2":
                types = ["CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"]
                inv = ["*%s == *old(%s)" % (st, st), "TYPES@.len() == %d" % len(types)] + ["TYPES@[%d]@ == %s" % (i, kwseq(w)) for i, w in enumerate(types)] + \
                    ["i > %d ==> !kw(%s, %s)" % (i, a, kwseq(w)) for i, w in enumerate(types)]
                spec["loops"] = lambda j, inv=inv: dict(invariant=inv, decreases="8 - i")
        s += rx.fn_text(dict(f, body=b, params=ps), k, spec, gen, "E")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    x = rx.extract(request(), "role")
    p = os.path.join(rx.BUILD, "role.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=300)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided[:5]))
