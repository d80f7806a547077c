"""Content models of element declarations (xmlparse.rs: DTDScaffold, build_model), under contract in Verus."""
import os, re
import rx, decl

BUILD = ["in_group", "next_part", "build_model"]
QUANT = [(p + q, w) for p in ("CONTENT_ELEMENT", "GROUP_CLOSE") for q, w in (("", "NONE"), ("_OPT", "OPT"), ("_REP", "REP"), ("_PLUS", "PLUS"))]
# arms of doProlog: the first or the second that names the role
ARMS = dict([("quant_" + a, (a, 0)) for a, w in QUANT] + [("ELEMENT_NAME", ("ELEMENT_NAME", 0)), ("CONTENT_ANY", ("CONTENT_ANY", 0)), ("CONTENT_EMPTY", ("CONTENT_EMPTY", 0)), ("GROUP_OPEN", ("GROUP_OPEN", 0)), ("GROUP_SEQUENCE", ("GROUP_SEQUENCE", 0)), ("GROUP_CHOICE", ("GROUP_CHOICE", 0)), ("CONTENT_PCDATA", ("CONTENT_PCDATA", 0))]
            + [(a, (a, 1)) for a, w in QUANT])
FNS = BUILD + list(ARMS)


def request():
    return dict(functions=[dict(key=k, container="impl DTDScaffold", self_name="self_") for k in ("in_group", "next_part")] + [
                           dict(key="build_model", container="impl XML_ParserStruct", self_name="self_", keep_casts=["XML_Char"])]
                + [dict(key=k, name="doProlog", container="impl XML_ParserStruct", self_name="self_", arm=a, arm_n=n) for k, (a, n) in ARMS.items()],
                consts=["ASCII_*"], enums=["XML_Content_Type", "XML_Content_Quant", "XML_Error", "XML_ROLE"],
                structs=["ContentScaffold", "DTD", "XML_ParserStruct", "prolog_state", "XML_cp"], list=True)


INTS = {t: t for t in "u8 u16 u32 u64 usize i8 i16 i32 i64 isize".split()}
INTS.update(c_uint="u32", c_int="i32", c_ulong="u64", c_long="i64", c_ushort="u16", c_short="i16", c_uchar="u8", c_char="i8", size_t="usize")


def sizes(x, s):
    """the integer fields of the model have the types that they have in the source"""
    for st, fields in (("ContentScaffold", ("firstchild", "lastchild", "childcnt", "nextsib")), ("DTD", ("contentStringLen",)), ("XML_ParserStruct", ("m_groupSize",)), ("prolog_state", ("level",)), ("XML_cp", ("numchildren",))):
        fs = dict(x["structs"].get(st, {}).get("fields", []))
        for f in fields:
            ty = INTS.get(re.sub(r"^Cell<(\w+)>$", r"\1", fs.get(f, "")))
            if ty is None:
                raise rx.Undecided("type of %s.%s: %s" % (st, f, fs.get(f)))
            s = re.sub(r"\bpub %s: (usize|u32)\b" % f, "pub %s: %s" % (f, ty), s)
    return s


FIELDS = "type_0|quant|name|numchildren|children"


def clean(k, b):
    b = re.sub(r"\s+", " ", b)
    if k == "next_part":
        b = re.sub(r"(self_ \. \w+) \. try_reserve \((\w+)\) \. is_err \(\)", r"reserve_fails (& mut \1 , \2)", b)
        b = b.replace("{ zeroed () }", "zeroed ()")
        b = re.sub(r"(self_ \. \w+) \. last \(\) \. unwrap \(\)", r"last_of (& \1)", b)
        return b
    b = re.sub(r"\blet mut (\w+) : Ptr = null_mut \(\) ;", r"let mut \1 : NPtr = nnull () ;", b)
    b = re.sub(r"(self_ \. m_dtd \. scaffold) \. borrow \(\) \. ", r"\1 . ", b)
    b = re.sub(r"(self_ \. m_dtd \. scaffold) \. borrow \(\)", r"& \1", b)
    b = re.sub(r"(self_ \. m_dtd \. contentStringLen) \. get \(\)", r"\1", b)
    b = re.sub(r"\{ let layout = Layout :: from_size_align \((.*?) as usize , 1\) \. expect \(\"failed to create Layout\"\) ; alloc \(layout\) \}", r"mem . alloc (\1)", b)
    b = b.replace("size_of :: < XML_Content > ()", "size_node ()").replace("size_of :: < XML_Char > ()", "size_char ()").replace("> MAX as usize", "> u32 :: MAX as usize")
    b = re.sub(r"\bcast_XML_Char \(", "mem . cast (", b)
    b = re.sub(r"\(([^()]*(?:\([^()]*\))?)\) \. rd \(\)", r"* \1", b).replace("(* (ret))", "(* ret)")
    b = re.sub(r"\(\* ([^()]*(?:\([^()]*\))?)\) \. (%s) = null_mut \(\) ;" % FIELDS, lambda m: "mem . set_%s (%s , %s) ;" % (m.group(2), m.group(1), "nnull ()" if m.group(2) == "children" else "cnull ()"), b)
    b = re.sub(r"\(\* ([^()]*(?:\([^()]*\))?)\) \. (%s) = ([^;]*) ;" % FIELDS, r"mem . set_\2 (\1 , \3) ;", b)
    b = re.sub(r"\(\* ([^()]*(?:\([^()]*\))?)\) \. (%s)\b" % FIELDS, r"mem . node (\1) . \2", b)
    b = re.sub(r"\* (strpos) = \* (\w+) ;", r"mem . put (\1 , \2 . rd ()) ;", b)
    b = re.sub(r"\* s\b", "s . rd ()", b)
    b = re.sub(r"([\w.]+(?: \. \w+)*) \. try_into \(\) \. unwrap \(\)", r"to_u32 (\1)", b)
    b = re.sub(r"for _ in", "for j__ in", b)
    b = b.replace("return null_mut ()", "return nnull ()")
    return b


def cells(b, name):
    b = re.sub(r"(self_ \. m_dtd \. %s) \. get \(\)" % name, r"\1", b)
    while True:
        m = re.search(r"(self_ \. m_dtd \. %s) \. set \(" % name, b)
        if not m:
            return b
        e = decl.args_of(b, m.end())
        b = b[:m.start()] + m.group(1) + " = " + b[m.end():e - 1] + b[e:]


def clean_arm(k, b):
    b = re.sub(r"\s+", " ", b)
    if k.startswith("quant_"):
        return re.sub(r"\bquant = ", "* quant = ", b)
    for v in re.findall(r"\blet mut (\w+) = self_ \. m_dtd \. scaffold \. borrow_mut \(\) ;", b):
        b = re.sub(r"\blet mut %s = self_ \. m_dtd \. scaffold \. borrow_mut \(\) ;" % v, "", b)
        b = re.sub(r"\b%s \. next_part \(\)" % v, "next_part (& mut self_ . m_dtd . scaffold , the_tree ())", b)
        b = re.sub(r"\b%s \. " % v, "self_ . m_dtd . scaffold . ", b)
    b = b.replace("self_ . m_dtd . scaffold . borrow () . in_group ()", "in_group (& self_ . m_dtd . scaffold)")
    b = re.sub(r"(self_ \. m_dtd \. scaffold \. \w+) \. try_reserve \((\w+)\) \. is_err \(\)", r"reserve_fails (& mut \1 , \2)", b)
    b = re.sub(r"(self_ \. m_dtd \. scaffold \. \w+) \. last \(\) \. copied \(\) \. unwrap \(\)", r"* last_of (& \1)", b)
    for c in ("in_eldecl", "contentStringLen"):
        b = cells(b, c)
    b = b.replace("self_ . m_handlers . hasElementDecl ()", "self_ . hasElementDecl ()")
    b = re.sub(r"self_ \. m_handlers \. elementDecl \(\(\* self_ \. m_declElementType\) \. name , (\w+)\)", r"%s (self_ , self_ . m_declElementType . name , \1)" % ("report_one" if k.startswith("CONTENT") else "report_model"), b)
    b = re.sub(r"self_ \. getElementType \(", "get_element_type (self_ , ", b)
    b = re.sub(r"let mut (\w+) : Ptr = self_ \. build_model \(\)", r"before_the_model () ; let mut \1 : Built = call_build (self_)", b)
    b = b.replace("(eventEndPP) . rd () = ", "* eventEndPP = ")
    b = re.sub(r"\bhandleDefault = ", "* handleDefault = ", b).replace("! handleDefault", "! * handleDefault")
    b = re.sub(r"let mut (\w+) : Ptr = \{ let layout = Layout :: new :: < XML_Content > \(\) ; alloc \(layout\) \}", r"let mut \1 : One = one_node ()", b)
    b = re.sub(r"\(\(content\) \. rd \(\)\) \. ", "content . ", b)
    b = b.replace("content . name = null_mut ()", "content . name = cnull ()").replace("content . children = null_mut ()", "content . children = nnull ()")
    L = r"\{ let layout = Layout :: array :: < c_char > \((\w+(?: \. \w+)*) as usize\) \. expect \(\"failed to create array Layout\"\) ; "
    b = re.sub(L + r"realloc \((self_ \. m_groupConnector) , layout , layout \. size \(\)\) \}", r"conn_grow (& \2 , \1)", b)
    b = re.sub(L + r"alloc \(layout\) \}", r"conn_new (\1)", b)
    b = re.sub(r"\* (self_ \. m_groupConnector) \. offset \(([^()]*)\) = ([^;]*) ;", r"\1 . put (\2 , \3) ;", b)
    b = re.sub(r"\* (self_ \. m_groupConnector) \. offset \(([^()]*)\)", r"\1 . at (\2)", b)
    b = re.sub(r"\* (\w+) \. offset \(([^()]*)\)", r"\1 . offset (\2) . rd ()", b)
    b = re.sub(r"\(\* (el|enc)\) \. ", r"\1 . ", b)
    return b


def arm_of(k, f):
    """the contract of an arm, and what is proved behind it"""
    O, N = "old(self_)", "final(self_)"
    d, e = O + ".m_dtd", N + ".m_dtd"
    s, z = d + ".scaffold.scaffold@", e + ".scaffold.scaffold@"
    top, idx = d + ".scaffold.index@.last() as int", d + ".scaffold.index@"
    ok = "r == XML_Error::NONE"
    a = k.split("_")[0]
    inside = "%s.in_eldecl && %s.len() > 0" % (d, idx)
    req = ["eldecl_ok(*%s)" % O, "%s.contentStringLen < 0x1000_0000_0000_0000" % d, "*old(handleDefault)"]
    ens = [ok + " ==> eldecl_ok(*%s)" % N, "%s.m_prologState == %s.m_prologState" % (N, O)]
    quiet = "%s.log == %s.log" % (N, O)
    conn, conn1 = O + ".m_groupConnector.v@", N + ".m_groupConnector.v@"
    lvl = O + ".m_prologState.level"
    told = "*final(handleDefault) == !(%s)"
    end, loops = "", lambda j: dict(decreases="0int")
    now = "self_.m_dtd.scaffold.scaffold@"
    grow = "proof { part_added(%s.scaffold, %s, %s.tree@); } set_tree(self_, Ghost(grown(%s.scaffold, %s.tree@)));" % (d, now, O, d, O)
    if k == "ELEMENT_NAME":
        req += ["wf(buf) && next.mem == buf.mem && buf.lo <= next.pos <= buf.hi"]
        ens += [ok + " && %s.handler ==> %s.in_eldecl && %s.len() == 0 && %s.scaffold.index@.len() == 0 && %s.m_declElementType.name == name_of(Buf { mem: buf.mem, lo: buf.lo, hi: next.pos })" % (O, e, z, e, N), "!%s.handler ==> %s == %s" % (O, e, d), quiet, "same_groups(*%s, *%s)" % (O, N), ok + " ==> " + told % (O + ".handler")]
        end = "if self_.handler { let ghost none = Tree { ks: Seq::empty(), par: Seq::empty(), pos: Seq::empty() }; proof { reveal(wf_scaffold); reveal(leaves); reveal(total); } set_tree(self_, Ghost(none)); }"
    elif k in ("CONTENT_ANY", "CONTENT_EMPTY"):
        req += ["role == XML_ROLE::%s" % k]
        ens += [ok + " && %s.in_eldecl ==> !%s.in_eldecl" % (d, e), "!(%s.in_eldecl && %s.handler) ==> %s" % (d, O, quiet),
                ok + " && %s.in_eldecl && %s.handler ==> %s.log@.len() == %s.log@.len() + 1 && %s.log@ =~= %s.log@.push(final(self_).log@.last()) && (match %s.log@.last() { Decl::One(n, c) => n == %s.m_declElementType.name && c.type_0 == XML_Content_Type::%s && c.quant == XML_Content_Quant::NONE && c.name.none && c.numchildren == 0 && c.children.none, _ => false })" % (d, O, N, O, N, O, N, O, k.split("_")[1]),
                ok + " ==> " + told % ("%s.in_eldecl && %s.handler" % (d, O)), ok + " && %s.in_eldecl && %s.handler ==> *final(eventEndPP) == (Ptr { mem: buf.mem, pos: buf.lo })" % (d, O)]
    elif k == "GROUP_OPEN":
        req += ["groups_ok(*%s)" % O, "%s <= %s.m_groupSize" % (lvl, O)]
        ens += ["groups_ok(*%s)" % N, ok + " ==> %s < %s.len() && %s[%s as int] == 0 && (forall|i: int| 0 <= i < %s.len() && i != %s ==> #[trigger] %s[i] == %s[i])" % (lvl, conn1, conn1, lvl, conn, lvl, conn1, conn),
                ok + " && %s.in_eldecl ==> appended(%s.scaffold, %s) && %s.last().type_0 == XML_Content_Type::SEQ && %s.scaffold.index@ == %s.push(%s.len() as usize)" % (d, d, z, z, e, idx, s), "!%s.in_eldecl ==> %s == %s" % (d, e, d), "%s.in_eldecl == %s.in_eldecl && %s.contentStringLen == %s.contentStringLen" % (e, d, e, d), quiet,
                ok + " && %s.in_eldecl ==> %s.tree@ == grown(%s.scaffold, %s.tree@)" % (d, N, d, O), ok + " ==> " + told % ("%s.in_eldecl && %s.handler" % (d, O))]
        end = "if self_.m_dtd.in_eldecl { %s }" % grow
    elif k in ("GROUP_SEQUENCE", "GROUP_CHOICE"):
        mine, other = ("ASCII_COMMA", "ASCII_PIPE") if k == "GROUP_SEQUENCE" else ("ASCII_PIPE", "ASCII_COMMA")
        req += ["groups_ok(*%s)" % O, "%s < %s.m_groupSize" % (lvl, O)]
        ens += ["(r == XML_Error::SYNTAX) == (%s[%s as int] == %s)" % (conn, lvl, other), "r == XML_Error::SYNTAX || r == XML_Error::NONE", ok + " ==> %s == %s.update(%s as int, %s)" % (conn1, conn, lvl, mine), "groups_ok(*%s)" % N, quiet, "%s.tree == %s.tree" % (N, O)]
        if k == "GROUP_SEQUENCE":
            ens += ["%s == %s" % (e, d), ok + " ==> " + told % ("%s.in_eldecl && %s.handler" % (d, O))]
        else:
            ch = "%s && %s[%s as int] == 0 && %s[%s].type_0 != XML_Content_Type::MIXED" % (inside, conn, lvl, s, top)
            ens += ["%s.in_eldecl == %s.in_eldecl && %s.contentStringLen == %s.contentStringLen && %s.scaffold.index@ == %s" % (e, d, e, d, e, idx), ok + " && %s ==> retype(%s, %s, %s, XML_Content_Type::CHOICE)" % (ch, s, z, top), "!(%s && %s) ==> %s =~= %s" % (ok, ch, z, s), ok + " ==> " + told % ("%s && %s.handler" % (ch, O))]
            end = "proof { if %s.in_eldecl { let ghost k = %s.len() - 1; retyped(%s, %s, self_.tree@); } }" % (d, idx, s, now)
    elif k == "CONTENT_PCDATA":
        ens += ["%s.in_eldecl == %s.in_eldecl && %s.contentStringLen == %s.contentStringLen && %s.scaffold.index@ == %s" % (e, d, e, d, e, idx), "%s ==> retype(%s, %s, %s, XML_Content_Type::MIXED)" % (inside, s, z, top), "!(%s) ==> %s =~= %s" % (inside, z, s), quiet, ok, "%s.tree == %s.tree" % (N, O), told % ("%s && %s.handler" % (inside, O))]
        end = "proof { if %s { retyped(%s, %s, self_.tree@); } }" % (inside, s, now)
    elif a == "CONTENT":
        req += ["wf(buf) && next.mem == buf.mem && buf.lo + enc.min@ <= next.pos <= buf.hi", "1 <= enc.min@ <= 2"]
        nxt = "Buf { mem: buf.mem, lo: buf.lo, hi: (next.pos - (if quant == XML_Content_Quant::NONE { 0 } else { enc.min@ })) as usize }"
        ens += [ok + " && %s ==> appended(%s.scaffold, %s) && %s.last().type_0 == XML_Content_Type::NAME && %s.last().quant == quant && %s.last().name == name_of(%s) && %s.tree@ == grown(%s.scaffold, %s.tree@) && %s.contentStringLen == %s.contentStringLen + wlen(%s.last())" % (inside, d, z, z, z, z, nxt, N, d, O, e, d, z),
                "!(%s) ==> %s == %s" % (inside, e, d), "%s.in_eldecl == %s.in_eldecl && %s.scaffold.index@ == %s" % (e, d, e, idx), quiet, ok + " ==> " + told % ("%s && %s.handler" % (inside, O))]
        end = "if %s.in_eldecl && in_group(&self_.m_dtd.scaffold) { %s }" % ("self_.m_dtd", grow)
        loops = lambda j: dict(invariant=["is_string(name_2) && name_2 == el.name"], invariant_except_break=["nameLen <= zlen(name_2.mem@, name_2.pos as int) - name_2.pos"], ensures=["nameLen == zlen(name_2.mem@, name_2.pos as int) - name_2.pos + 1"], decreases="name_2.mem@.len() - nameLen", head="proof { zlen_at(name_2.mem@, name_2.pos as int); }")
    else:
        last = "%s.len() == 1" % idx
        ens += [ok + " && %s ==> requant(%s, %s, %s, quant) && %s.scaffold.index@ == %s.drop_last() && %s.in_eldecl == !(%s)" % (inside, s, z, top, e, idx, e, last), "!(%s) ==> %s == %s" % (inside, e, d),
                "%s.contentStringLen == if %s && %s.in_eldecl && %s { 0 } else { %s.contentStringLen }" % (e, ok, d, last, d), "!(%s && %s.in_eldecl && %s.handler) ==> %s" % (last, d, O, quiet), "%s.tree == %s.tree" % (N, O),
                ok + " && %s.in_eldecl && %s && %s.handler ==> %s.log@.len() == %s.log@.len() + 1 && %s.log@ =~= %s.log@.push(final(self_).log@.last()) && (match %s.log@.last() { Decl::Model(n, m, order) => n == %s.m_declElementType.name && same_tree(m, %s, %s.tree@, order), _ => false })" % (d, last, O, N, O, N, O, N, O, z, O),
                ok + " ==> " + told % ("%s && %s.handler" % (inside, O)), ok + " && %s.in_eldecl && %s && %s.handler ==> *final(eventEndPP) == (Ptr { mem: buf.mem, pos: buf.lo })" % (d, last, O)]
        end = "proof { if %s { retyped(%s, %s, self_.tree@); } }" % (inside, s, now)
    return dict(requires=req, ensures=ens, attrs=["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"], loops=loops), end


def spec_of(k, f):
    if k == "in_group":
        return dict(ensures=["r == (self_.index@.len() > 0)"])
    at = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
    if k == "next_part":
        O, N = "old(self_)", "final(self_)"
        return dict(requires=["wf_scaffold(%s.scaffold@, t@)" % O, "open_group(*%s)" % O],
                    ensures=["r.is_none() ==> %s.scaffold@ == %s.scaffold@ && %s.index@ == %s.index@" % (N, O, N, O), "r.is_some() ==> r->0 == %s.scaffold@.len() && %s.index@ == %s.index@ && appended(*%s, %s.scaffold@)" % (O, N, O, O, N)],
                    attrs=at, pre="proof { if self_.index@.len() > 0 { kids_of(self_.scaffold@, t@, self_.index@.last() as int); } }")
    S, T = "self_.m_dtd.scaffold.scaffold@", "t@"
    n = S + ".len()"
    base = ["mem.nodes@.len() == scaffold_len", "mem.chars@.len() >= self_.m_dtd.contentStringLen", "!ret.none && ret.i == 0",
            "1 <= found <= scaffold_len", "order@.len() == found", "at.len() == scaffold_len", "order@[0] == 0", "srcs(order@, at)", "perm(order@, scaffold_len as int)", "strpos.i <= self_.m_dtd.contentStringLen", "ats(order@, at)"]
    pend = "forall|k: int| %s <= k < found ==> (#[trigger] mem.nodes@[k]).numchildren == order@[k]"
    done = "forall|k: int| #![trigger mem.nodes@[k]] 0 <= k < i ==> done(*mem, %s, %s, order@, k, strpos.i as int)" % (S, T)
    args = "%s, %s, order@, at" % (S, T)

    def loops(j):
        if j == 0:
            return dict(invariant=base + ["i <= found", "i == 0 ==> reached(%s, at, 0, 0)" % T, "i > 0 ==> reached(%s, at, i - 1, %s.ks[order@[i - 1]].len() as int)" % (T, T), pend % "i", done,
                                          "!strpos.none && strpos.i == acc(%s, at, i as int, %s as int)" % (S, n)], decreases=None,
                        head="proof { if i > 0 { reached_next(%s, i - 1); } next_found(%s, i as int); acc_step(%s, at, order@[i as int], i as int, scaffold_len as int); acc_total(%s, %s, at, i + 1, scaffold_len as int); acc_total(%s, %s, at, i as int, scaffold_len as int); kids_of(%s, %s, order@[i as int]); let c = %s[order@[i as int]]; if named(c) { a_leaf(%s, %s, order@[i as int]); no_text(mem.chars@, strpos.i as int, c.name); } no_kids(order@, found as int, %s.ks[order@[i as int]]); } let ghost x = order@[i as int]; let ghost pos0 = strpos.i as int; let ghost c0 = found as int;" % (args, args, S, S, T, S, T, S, T, S, S, T, T))
        C = "%s[x]" % S
        same = ["mem.nodes@[i as int].type_0 == src.type_0 && mem.nodes@[i as int].quant == src.quant", "forall|k: int| i < k < found ==> (#[trigger] mem.nodes@[k]).numchildren == order@[k]", "!strpos.none"]
        if j == 1:
            return dict(invariant=["mem.nodes@.len() == scaffold_len", "mem.chars@.len() >= self_.m_dtd.contentStringLen", "s.mem == src.name.mem && src.name.pos <= s.pos <= zlen(s.mem@, src.name.pos as int)",
                                   "forall|k: int| #![trigger mem.nodes@[k]] 0 <= k < i ==> done(*mem, %s, %s, order@, k, pos0)" % (S, T),
                                   "!mem.nodes@[i as int].name.none && mem.nodes@[i as int].name.i == pos0 && mem.nodes@[i as int].numchildren == 0 && mem.nodes@[i as int].children.none",
                                   "text_at(mem.chars@, pos0, src.name, s.pos - src.name.pos)"] + same,
                        invariant_except_break=["strpos.i == pos0 + (s.pos - src.name.pos)"],
                        ensures=["strpos.i == pos0 + wlen(*src)", "text_at(mem.chars@, pos0, src.name, wlen(*src))"],
                        decreases="s.mem@.len() - s.pos", head="proof { one_char(mem.chars@, pos0, src.name, s.pos - src.name.pos); }")
        return dict(invariant=base + ["forall|k: int| #![trigger mem.nodes@[k]] 0 <= k < i ==> done(*mem, %s, %s, order@, k, strpos.i as int)" % (S, T), "found == c0 + j__ && order@[i as int] == x && i < c0", "reached(%s, at, i as int, j__ as int)" % T,
                                      "mem.nodes@[i as int].name.none && mem.nodes@[i as int].numchildren == src.childcnt && !mem.nodes@[i as int].children.none && mem.nodes@[i as int].children.i == c0",
                                      "kids_at(order@, c0, %s.ks[x].take(j__ as int))" % T, "j__ < src.childcnt ==> cn == %s.ks[x][j__ as int]" % T,
                                      "strpos.i == acc(%s, at, i + 1, %s as int)" % (S, n)] + same, decreases=None,
                    head="let ghost at0 = at; proof { one_kid(order@, c0, %s.ks[x], j__ as int); find(%s, i as int, j__ as int); at = at.update(cn as int, found as int); acc_same(%s, at0, at, i + 1, scaffold_len as int); } set_order(order, Ghost(order@.push(cn as int)));" % (T, args, S))
    return dict(requires=["wf_scaffold(%s, %s)" % (S, T), "leaves(%s, %s)" % (S, T), "%s >= 1" % n, "total(%s, %s as int) <= self_.m_dtd.contentStringLen < 0x1000_0000_0000_0000" % (S, n), "!old(mem).failed@"],
                ensures=["!r.none ==> r.i == 0 && same_tree(*final(mem), %s, %s, final(order)@)" % (S, T), "r.none ==> final(mem).failed@ || %s > u32::MAX" % n], attrs=at, loops=loops,
                pre="set_order(order, Ghost(first())); let ghost mut at = Seq::new(%s, |n: int| if n == 0 { 0int } else { -1 }); proof { start(self_.m_dtd.scaffold.scaffold@, at, self_.m_dtd.contentStringLen as int); }" % n)


def setter(f, ty):
    rest = " && ".join("final(self).nodes@[p.i as int].%s == old(self).nodes@[p.i as int].%s" % (g, g) for g in FIELDS.split("|") if g != f)
    return """    #[verifier::external_body]
    pub fn set_%s(&mut self, p: NPtr, v: %s)
        requires !p.none, p.i < old(self).nodes@.len(),
        ensures final(self).nodes@.len() == old(self).nodes@.len(), final(self).nodes@[p.i as int].%s == v, %s,
            forall|k: int| #![trigger final(self).nodes@[k]] 0 <= k < old(self).nodes@.len() && k != p.i ==> final(self).nodes@[k] == old(self).nodes@[k],
            final(self).chars == old(self).chars, kept(*old(self), *final(self)),
    { unimplemented!() }
""" % (f, ty, f, rest)


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    s += re.sub(r": C2RustUnnamed\w*", ": u32", rx.const_text(x["consts"]))
    for n in ("XML_Content_Type", "XML_Content_Quant", "XML_Error", "XML_ROLE"):
        s += rx.enum_text(n, x["enums"][n]["variants"])
    s += sizes(x, open(os.path.join(rx.VERIF, "verus/model.rs")).read()).replace("SETTERS\n", "".join(setter(f, ty) for f, ty in (("type_0", "XML_Content_Type"), ("quant", "XML_Content_Quant"), ("name", "CPtr"), ("numchildren", "u32"), ("children", "NPtr"))))
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        P = lambda n, ty: dict(name=n, mut=False, ty=ty)
        if k in ARMS:
            b = clean_arm(k, f["body"])
            if k.startswith("quant_"):
                g = dict(f, body=b, params=[P("quant", "&mut XML_Content_Quant")], ret="()")
                s += rx.fn_text(g, k, dict(ensures=["*final(quant) == XML_Content_Quant::" + dict(QUANT)[k[6:]]]), "", "")
                continue
            g = dict(f, params=[P("self_", "&mut Parser"), P("enc", "&Enc"), P("enc_type", "i32"), P("buf", "Buf"), P("next", "Ptr"), P("quant", "XML_Content_Quant"), P("role", "XML_ROLE"), P("handleDefault", "&mut bool"), P("eventEndPP", "&mut Ptr")], ret="XML_Error")
            sp, end = arm_of(k, g)
            b = b.strip()
            g["body"] = "{ %s ; behind_the_arm () ; XML_Error :: NONE }" % b
            s += rx.fn_text(g, "arm_" + k, sp, "", "").replace("behind_the_arm();", end).replace("the_tree()", "Ghost(self_.tree@)").replace("before_the_model();", "proof { retyped(old(self_).m_dtd.scaffold.scaffold@, self_.m_dtd.scaffold.scaffold@, self_.tree@); }")
            continue
        g = dict(f, body=clean(k, f["body"]))
        if k == "build_model":
            g["params"] = [P("self_", "&Parser"), P("mem", "&mut Mem"), P("t", "Ghost<Tree>"), P("order", "&mut Ghost<Seq<int>>")]
            g["ret"] = "NPtr"
        else:
            g["params"] = [P("self_", "&mut DTDScaffold" if k == "next_part" else "&DTDScaffold")] + ([P("t", "Ghost<Tree>")] if k == "next_part" else [])
        s += rx.fn_text(g, k, spec_of(k, g), "", "")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "model")
    p = os.path.join(rx.BUILD, "model.rs")
    rx.write_if_changed(p, text(x, sys.argv[1:] or FNS))
    r = rx.run_verus(p, timeout=300)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
