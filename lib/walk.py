"""Documents that walk through the table of prolog states (verus/roles.txt), for the API driver."""
import os
import rx, role

TEXT = dict(PROLOG_S=" ", PI="<?p d?>", COMMENT="<!--c-->", DECL_CLOSE=">", OPEN_BRACKET="[", CLOSE_BRACKET="]", OPEN_PAREN="(", CLOSE_PAREN=")", CLOSE_PAREN_QUESTION=")?",
            CLOSE_PAREN_ASTERISK=")*", CLOSE_PAREN_PLUS=")+", OR="|", COMMA=",", PERCENT=" % ", PARAM_ENTITY_REF="%p;", COND_SECT_OPEN="<![", COND_SECT_CLOSE="]]>",
            XML_DECL="<?xml version='1.0' encoding='UTF-8'?>", INSTANCE_START="<a/>", LITERAL=" 'v'", NAME=" n ", PREFIXED_NAME=" p:n ", NMTOKEN=" 1n ", NAME_QUESTION=" n?", NAME_ASTERISK=" n*", NAME_PLUS=" n+")
KW = ["DOCTYPE", "SYSTEM", "PUBLIC", "ENTITY", "ATTLIST", "ELEMENT", "NOTATION", "NDATA", "CDATA", "ID", "IDREF", "IDREFS", "ENTITIES", "NMTOKEN", "NMTOKENS", "EMPTY", "ANY", "INCLUDE", "IGNORE"]
PN = ["IMPLIED", "REQUIRED", "FIXED", "PCDATA"]
NEAR = ["SYSTEn", "system", "SYSTE", "SYSTEMM", "IDREFSS", "PUBLI", "Any"]


def text(t, kw):
    if t == "DECL_OPEN":
        return "<!" + (kw or "FOO") + " "
    if t == "POUND_NAME":
        return " #" + (kw or "FOO") + " "
    return " " + kw + " " if kw else TEXT.get(t)


def tokens():
    out = [TEXT[k] for k in sorted(TEXT)] + [" \"w\""]
    out += [text("DECL_OPEN", k) for k in ("DOCTYPE", "ENTITY", "ATTLIST", "ELEMENT", "NOTATION", "element", "ELEMEN", "ELEMENTS")]
    out += [text("POUND_NAME", k) for k in PN + ["FIXE", "fixed", "IMPLIEDX"]]
    return out + [" " + k + " " for k in KW + NEAR]


def edges(doc):
    """state -> [(text, new state)] for the states reachable with the group level at one or two"""
    tb = dict(role.table())
    sub = "internalSubset" if doc else "externalSubset1"
    g = {}
    for s, es in tb.items():
        g[s] = []
        for t, kw, to, r, act in es:
            x = text(t, kw)
            if x is None or to is None and t in ("PROLOG_S",):
                continue
            n = {None: s, "subset": sub, "pop": "declClose"}.get(to, "declClose" if to and to.startswith("close") else to)
            g[s].append((x, n))
    g["declClose"] = [(">", sub)]
    g["externalSubset1"] = [(TEXT["COND_SECT_OPEN"], "condSect0")] + [e for e in g["internalSubset"] if e[0] != "]"]
    g["externalSubset0"] = [(TEXT["XML_DECL"], "externalSubset1"), (" ", "externalSubset1")]
    g["error"] = []
    return g


def paths(g, start):
    p = {start: ""}
    q = [start]
    while q:
        s = q.pop(0)
        for x, n in g.get(s, []):
            if n not in p:
                p[n] = p[s] + x
                q.append(n)
    return p


def completion(g, goal):
    c = {goal: ""}
    ch = True
    while ch:
        ch = False
        for s in g:
            for x, n in g[s]:
                if n in c and (s not in c or len(x + c[n]) < len(c[s])):
                    c[s] = x + c[n]
                    ch = True
    return c


def docs():
    out = []
    gi = edges(True)
    pi, ci = paths(gi, "prolog0"), completion(gi, "prolog2")
    ci["error"] = ""
    toks = tokens()
    tail = "<a>&n;</a>"
    for s in sorted(pi):
        for x in toks:
            out.append(pi[s] + x)
            out.append(pi[s] + x + ci.get(s, "") + tail)
        for x, n in gi[s]:
            out.append(pi[s] + x + ci.get(n, "") + tail)
            for y in toks[::2]:
                out.append(pi[s] + x + y + ci.get(n, "") + tail)
    ge = edges(False)
    pe, ce = paths(ge, "externalSubset0"), completion(ge, "externalSubset1")
    head = "<!DOCTYPE a SYSTEM 'e1' [<!ENTITY % p ''>]><a>&n;</a>\n%%%%e1\n"
    for s in sorted(pe):
        for x in toks:
            out.append(head + pe[s] + x + ce.get(s, ""))
        for x, n in ge[s]:
            out.append(head + pe[s] + x + ce.get(n, ""))
            for y in toks[1::3]:
                out.append(head + pe[s] + x + y + ce.get(n, ""))
    # nested groups: every sequence of closings at depths one to three
    for d in (1, 2, 3):
        for c in (")", ")?", ")*", ")+"):
            for e in (")", ")*"):
                out.append("<!DOCTYPE a [<!ELEMENT a " + "(" * d + "b," + "c" + e * (d - 1) + c + ">]><a/>")
                out.append("<!DOCTYPE a [<!ELEMENT a " + "(" * d + "b|c" + c * d + ">]><a/>")
                out.append("<!DOCTYPE a [<!ELEMENT a " + "(" * d + "b" + c * (d + 1) + ">]><a/>")
                out.append("<!DOCTYPE a [<!ELEMENT a " + "(" * (d + 1) + "b" + c * d + ">]><a/>")
    for d in (1, 2, 3):
        for e in (0, 1, 2, 3, 4):
            out.append("<!DOCTYPE a SYSTEM 'e1'><a>&n;</a>\n%%%%e1\n" + "<![INCLUDE[" * d + "<!ENTITY n 'x'>" + "]]>" * e)
            out.append("<!DOCTYPE a SYSTEM 'e1'><a>&n;</a>\n%%%%e1\n" + "<![INCLUDE[" * d + "<![IGNORE[<!ENTITY n 'y'>]]><!ENTITY n 'x'>" + "]]>" * e + "<!ENTITY m 'n'>")
    seen = set()
    return [d for d in out if not (d in seen or seen.add(d))]


def write(path):
    rx.write_if_changed(path, "\0".join(docs()))


if __name__ == "__main__":
    d = docs()
    print(len(d), sum(map(len, d)))
