"""Normalisation of strings in place (xmlparse.rs) under contract in Verus."""
import os, re
import rx, tok

FNS = ["normalizePublicId", "normalizeLines"]
# O = memory on entry, S0 = start of the string, Z = its terminator
REQ = ["S0 <= Z < O.len()", "O.len() <= isize::MAX"]
COMMON = ["S0 <= Z < O.len()", "O.len() <= isize::MAX", "O[Z] == 0", "forall|k: int| S0 <= k < Z ==> O[k] != 0", "heap.m@.len() == O.len()",
          "forall|k: int| s.pos <= k < O.len() ==> heap.m@[k] == O[k]", "forall|k: int| 0 <= k < S0 ==> heap.m@[k] == O[k]"]
ENS = ["RES.len() <= Z - S0", "final(heap).m@.len() == O.len()", "final(heap).m@.subrange(S0 as int, S0 + RES.len()) == RES",
       "final(heap).m@[S0 + RES.len()] == 0", "forall|k: int| 0 <= k < S0 || Z < k < O.len() ==> final(heap).m@[k] == O[k]"]
SPECS = dict(
    normalizePublicId=dict(
        S0="publicId__0.pos", RES="npub(O, S0 as int, Z, Seq::<i8>::empty())", dec={0: "Z - s.pos"},
        inv={0: ["S0 <= p.pos <= s.pos <= Z", "RES == npub(O, s.pos as int, Z, heap.m@.subrange(S0 as int, p.pos as int))"]}),
    normalizeLines=dict(
        S0="s__0.start", RES="nlines(O, S0 as int, Z, Seq::<i8>::empty())", dec={0: "Z - s.pos", 1: "Z - s.pos"},
        inv={0: ["S0 <= s.pos <= Z", "heap.m@ == O", "RES == nlines(O, s.pos as int, Z, heap.m@.subrange(S0 as int, s.pos as int))"],
             1: ["S0 <= p.pos <= s.pos <= Z", "RES == nlines(O, s.pos as int, Z, heap.m@.subrange(S0 as int, p.pos as int))"]},
        # the second loop is entered at a carriage return, and leaves at the terminator
        more={1: ["s.pos < Z"]}, ens={1: ["s.pos == Z"]}),
)


def request():
    return dict(functions=[dict(key=k, heap=True) for k in FNS], consts=[], enums=[], list=False)


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read() + open(os.path.join(rx.VERIF, "verus/heap.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        c = SPECS[k]

        def S(t):
            t = t.replace("RES", "(" + c["RES"] + ")")
            t = re.sub(r"\bZ\b", "zlen(O, S0 as int)", t)
            t = re.sub(r"\bO\b", "old(heap).m@", t)
            return re.sub(r"\bS0\b", c["S0"], t)
        b = f["body"].replace("'\\u{0}' as XML_Char", "0i8")
        b = re.sub(r"\bPtr\b", "HPtr", b)
        b = re.sub(r"\bnull(_mut)? \(\)", "hnull()", b)
        b = re.sub(r"\bptr_(eq|ne)\b", r"hptr_\1", b)
        ps = [dict(p, ty=p["ty"].replace("Ptr", "HPtr").replace("& mut [XML_Char]", "HSlice")) for p in f["params"]]
        ps.append(dict(name="heap", ty="&mut Heap", mut=False))

        def loops(j, c=c):
            d = dict(decreases=S(c["dec"].get(j, "0int")))
            inv = [S(i) for i in COMMON + c["inv"].get(j, [])]
            if j in c.get("more", {}):
                d.update(invariant=inv, invariant_except_break=[S(i) for i in c["more"][j]], ensures=[S(i) for i in c["ens"][j]])
            else:
                d["invariant"] = inv
            d["head"] = "proof { heap_push(); }"
            return d
        spec = dict(requires=[S(i) for i in ["S0 <= O.len()", "Z < O.len()", "O.len() <= isize::MAX"]], ensures=[S(i) for i in ENS],
                    pre=S("proof { heap_push(); zlen_at(O, S0 as int); }"), loops=loops, attrs=["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"])
        s += rx.fn_text(dict(f, body=b, params=ps), k, spec, "", "")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    x = rx.extract(request(), "norm")
    p = os.path.join(rx.BUILD, "norm.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=60)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
