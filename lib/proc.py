"""What the processors of sections, comments, processing instructions and encodings do (xmlparse.rs), under contract in Verus."""
import os, re
import rx, decl

REP = ["reportDefault", "reportComment", "reportProcessingInstruction"]
SEC = ["doCdataSection", "doIgnoreSection"]
OPEN = ["ENTITY_REF", "START_TAG_NO_ATTS", "EMPTY_ELEMENT_NO_ATTS", "END_TAG"]
# arms of doContent that are functions of their own
ARMS = ["TRAILING_CR", "TRAILING_RSQB", "CHAR_REF", "DATA_NEWLINE", "DATA_CHARS", "CDATA_SECT_OPEN"]
CON = ["doContent"]
CARMS = ["content_" + a for a in ARMS]
SARMS = ["section_DATA_CHARS"]
FNS = REP + SARMS + SEC + CON + CARMS
PROCS = ["contentProcessor", "externalEntityContentProcessor", "prologProcessor", "epilogProcessor", "cdataSectionProcessor", "ignoreSectionProcessor", "internalEntityProcessor", "externalEntityInitProcessor", "externalEntityInitProcessor2", "externalEntityInitProcessor3", "prologInitProcessor", "errorProcessor"]
PARSER = "impl XML_ParserStruct"


def root_name(k):
    return ("x_" if k in CARMS + SARMS else "") + k


def request():
    return dict(functions=[dict(key=k, module="lib::xmlparse") for k in REP + SEC[1:]]
                + [dict(key="doCdataSection", module="lib::xmlparse", hide=["DATA_CHARS"]), dict(key="section_DATA_CHARS", name="doCdataSection", module="lib::xmlparse", arm="DATA_CHARS", arms=1)] + [dict(key=k, container=PARSER, self_name="parser", hide=OPEN + ARMS) for k in CON]
                + [dict(key="content_" + a, name="doContent", container=PARSER, self_name="parser", arm=a, arms=1) for a in ARMS], consts=["ASCII_*", "KW_*", "UNKNOWN_ENC", "NO_ENC", "ISO_8859_1_ENC", "US_ASCII_ENC", "UTF_8_ENC", "UTF_16_ENC", "UTF_16BE_ENC", "UTF_16LE_ENC", "UTF8_*"],
                enums=["XML_Convert_Result", "XML_TOK", "XML_STATE", "XML_Error", "XML_Parsing", "XML_ParamEntityParsing"], list=True)


def args_at(b, i):
    return decl.args_of(b, i)


SLOTS = [("m_eventPtr", "Event"), ("m_eventEndPtr", "EventEnd")]


def clean(k, b):
    b = re.sub(r"\s+", " ", b)
    if k in CON + CARMS:
        b = re.sub(r"\bparser \. (m_\w+)", r"(* parser) . \1", b)
        def call(m):
            f = "x_content_" + m.group(1) if m.group(1) in ARMS else "arm"
            return "match %s (tok , & enc , enc_type , parser , buf , next , nextPtr , haveMore , startTagLevel) { (Some (code) , n) => { next = n ; return code ; } (None , n) => { next = n ; } }" % f
        b = re.sub(r"\barm_(\w+) \(\) ;", call, b)
        b = b.replace("(* (* parser) . m_openInternalEntities) . inCdataSection =", "parser . i_inCdata =")
        b = re.sub(r"\(\* parser\) \. m_processor = Some \((\w+) as Processor\)", r"parser . m_processor = Some (Proc :: \1)", b)
        b = re.sub(r"(\w+) \. map_or \(null \(\) , \| (\w+) \| \2 \. as_ptr \(\)\)", r"map_ptr (\1)", b)
        b = re.sub(r"let mut (\w+) : \[XML_Char ; XML_ENCODE_MAX\] = \[0 ; XML_ENCODE_MAX\] ;", r"let mut \1 = char_buf () ;", b)
        b = b.replace("(* enc) . xmlTok (", "content_tok (& enc , ")
        b = re.sub(r"\bXmlEncode \(", "xml_encode (", b)
        # the address of the conversion buffer
        for v in set(re.findall(r"let (\w+) = \(\* parser\) \. m_dataBuf \. as_ptr \(\) ;", b)):
            b = re.sub(r"let %s = \(\* parser\) \. m_dataBuf \. as_ptr \(\) ;" % v, "", b)
            b = re.sub(r"\b%s\b" % v, "(* parser) . m_dataBuf . as_ptr ()", b)
        b = re.sub(r"\(& (\w+) \[\.\. (\w+)\]\)", r"(\1 . first (\2))", b)
        b = re.sub(r"(\w+) \. is_null \(\)", r"is_null (\1)", b)
    b = b.replace("arm_DATA_CHARS () ;", "x_section_DATA_CHARS (& enc , enc_type , parser , buf , next) ;")
    # event pointers that are chosen once
    slots = set(re.findall(r"\blet (?:mut )?(\w+) : Ptr = null_mut \(\) ;", b))
    for v in slots:
        b = re.sub(r"\blet (?:mut )?%s : Ptr = null_mut \(\) ;" % v, "let mut %s : Slot = slot_null () ;" % v, b)
        b = re.sub(r"\b%s = & mut \(\* \(\* parser\) \. m_openInternalEntities\) \. internalEventPtr" % v, "%s = Slot :: IntEvent" % v, b)
        b = re.sub(r"\b%s = & mut \(\* \(\* parser\) \. m_openInternalEntities\) \. internalEventEndPtr" % v, "%s = Slot :: IntEventEnd" % v, b)
        for f, s in SLOTS:
            b = re.sub(r"\b%s = & mut \(\* parser\) \. %s\b" % (v, f), "%s = Slot :: %s" % (v, s), b)
        b = re.sub(r"(?:\* %s|\(%s\) \. rd \(\)) = ([^;{}]*?) ?([;}])" % (v, v), r"parser . set_slot (%s , \1) \2" % v, b)
    b = re.sub(r"\((nextPtr|endPtr)\) \. rd \(\) = ", r"* \1 = ", b)
    b = re.sub(r"let (?:mut )?handlers = & (?:mut )?\(\* parser\) \. m_handlers ;", "", b)
    b = b.replace("(* parser) . m_handlers . ", "handlers . ")
    # a window into the conversion buffer
    wins = re.findall(r"let (?:mut )?(\w+) = \(& mut \(\* parser\) \. m_dataBuf \[\.\.\]\) \. into \(\) ;", b)
    b = re.sub(r"\(& mut \(\* parser\) \. m_dataBuf \[\.\.\]\) \. into \(\)", "win_all (& parser . m_dataBuf)", b)
    b = re.sub(r"\(\* enc\) \. utf8Convert \(& mut (\w+) , & mut (\w+)\)", r"convert_part (& enc . e , & mut \1 , & mut parser . m_dataBuf , & mut \2 , Ghost (text0))", b)
    for w in set(wins):
        b = re.sub(r"\b%s \. as_(?:mut_)?ptr \(\)" % w, "win_ptr (& parser . m_dataBuf , & %s)" % w, b)
    b = b.replace("(* parser) . m_dataBuf . as_ptr ()", "parser . m_dataBuf . ptr ()")
    b = re.sub(r"\. try_into \(\) \. unwrap \(\)", ". vinto ()", b)
    b = re.sub(r"& ExpatBufRef :: new \(", "span (", b)
    b = re.sub(r"\bExpatBufRef :: new \(", "span (", b)
    b = re.sub(r"& ExpatBufRef :: < XML_Char > :: from \(", "(", b)
    b = re.sub(r"let (\w+) : Buf = ([^;]+?) \. into \(\) ;", r"let \1 : Buf = \2 ;", b)
    b = re.sub(r"characterData \(& \[(\w+)\]\)", r"characterData (one (\1))", b)
    b = re.sub(r"characterData \(& (\w+)\)", r"characterData (\1)", b)
    b = re.sub(r"characterData \(& \[\]\)", "characterData (none_of ())", b)
    # the string being built is lent to a closure
    while True:
        m = re.search(r"\(\* parser\) \. (m_\w+) \. current_mut_slice \(\| (\w+) \| ", b)
        if not m:
            break
        e = args_at(b, m.end())
        body = b[m.end():e - 1].strip()
        if not body.startswith("{"):
            body = "{ %s ; }" % body
        body = re.sub(r"normalizeLines \(%s\)" % m.group(2), "normalizeLines (& mut %s)" % m.group(2), body)
        b = b[:m.start()] + "{ let mut %s = parser . %s . take () ; %s parser . %s . put (%s) ; }" % (m.group(2), m.group(1), body, m.group(1), m.group(2)) + b[e:]
    while True:
        m = re.search(r"\bhandlers \. (\w+) \(", b)
        if not m:
            break
        e = args_at(b, m.end())
        a = b[m.end():e - 1].strip().rstrip(",").strip()
        b = b[:m.start()] + "h_%s (%s)" % (m.group(1), a + " , parser" if a else "parser") + b[e:]
    b = re.sub(r"\(\* enc\) \.", "enc .", b)
    b = re.sub(r"\benc \. xmlTok \(", "xml_tok (& enc , ", b)
    b = re.sub(r"store_c_string \(enc ,", "store_c_string (& enc ,", b)
    b = b.replace("(* parser) .", "parser .")
    b = re.sub(r"\b(start_buf) \. unwrap \(\)", r"(* \1) . unwrap ()", b)
    if k == "content_TRAILING_RSQB":
        b = re.sub(r"convert_part \((.*?) , Ghost \(text0\)\)", r"convert_short (\1)", b)
    return b


def spec_of(k, f):
    at = ["loop_isolation(false)", "allow_complex_invariants", "spinoff_prover"]
    ps = [p["name"] for p in f["params"]]
    A = lambda i: ps[i] + ("__0" if f["params"][i].get("mut") and not f["params"][i]["ty"].startswith("&") else "")
    O, N = "old(parser)", "final(parser)"
    if k in REP:
        t, b = A(1), A(2)
        K = "enc_of(*%s, %s).e.kind" % (O, t)
        S = "%s, %s.mem@, %s.lo as int, %s.hi as int" % (K, b, b, b)
        S2 = S[len(K) + 2:]
        tok = {"reportComment": "token_text(%s, XML_TOK::COMMENT, %s)" % (K, S2), "reportProcessingInstruction": "token_text(%s, XML_TOK::PI, %s)" % (K, S2)}.get(k, "chars(%s)" % S)
        req = ["inv(*%s)" % O, "callable(*%s)" % O, tok, "%s.lo < %s.hi" % (b, b),
               "ev_of(*%s, %s).mem == %s.mem && ev_of(*%s, %s).pos <= %s.lo" % (O, t, b, O, t, b), "pnull(end_of(*%s, %s)) || (end_of(*%s, %s).mem == %s.mem && end_of(*%s, %s).pos <= %s.hi)" % (O, t, O, t, b, O, t, b)]
        log = {"reportDefault": O + ".log@ + texts(What::Default, out8(%s))" % S, "reportComment": "comment_log(%s, %s.log@)" % (S, O), "reportProcessingInstruction": "pi_log(%s, %s.log@)" % (S, O)}[k]
        ens = ["%s%s.log@ == %s" % ("" if k == "reportDefault" else "r != 0 ==> ", N, log), "kept(*%s, *%s)" % (O, N), "callable(*%s)" % N,
               "ev_of(*%s, %s).mem == %s.mem && ev_of(*%s, %s).pos <= %s.hi" % (N, t, b, N, t, b), "ordered(*%s, other(%s)) " % (N, t)]
        pool = "%s.m_tempPool.t@ == Seq::<i8>::empty()"
        if k == "reportDefault":
            req += ["app_flags(%s.log@).default" % O]
            ens += ["%s.m_tempPool == %s.m_tempPool && %s.m_temp2Pool == %s.m_temp2Pool" % (N, O, N, O)]
            B = ps[2]
            ghost = "let ghost text0 = %s.lo as int; proof { strings(); whole_chars(%s, %s); start(%s, %s.mem@, text0); }" % (b, K, b, K, b)
            I = "%s, %s.mem@, %s.lo as int" % (K, b, b)
            inv = ["wf(%s)" % B, "%s.mem == %s.mem && %s.hi == %s.hi && %s.lo <= %s.lo" % (B, b, B, b, b, B), "!same8(%s)" % K, "inv(*parser)", "kept(*%s, *parser)" % O, "parser.m_tempPool == %s.m_tempPool && parser.m_temp2Pool == %s.m_temp2Pool" % (O, O),
                   "chars(%s, %s.mem@, %s.lo as int, %s.hi as int)" % (K, b, B, b), "upto(%s, %s.lo as int)" % (I, B),
                   "parser.log@ == %s.log@ + texts(What::Default, out8(%s, %s.lo as int))" % (O, I, B),
                   "ordered(*parser, other(%s))" % t, "ev_of(*parser, %s).mem == %s.mem && ev_of(*parser, %s).pos <= %s.lo" % (t, b, t, B)]
            return dict(requires=req, ensures=ens, attrs=at, pre=ghost,
                        loops=lambda j: dict(invariant=inv[:2] + inv[2:], invariant_except_break=[], ensures=["%s.lo == %s.hi" % (B, b), "callable(*parser)"], decreases="%s.hi - %s.lo" % (b, B), head="proof { whole_chars(%s, %s); }" % (K, B)))
        req += [pool % O]
        ens += ["r != 0 ==> " + pool % N, "%s.m_temp2Pool == %s.m_temp2Pool" % (N, O)]
        return dict(requires=req, ensures=ens, attrs=at, pre="proof { strings(); reveal(chars); }")
    if k in SEC:
        t, sb, nx, more = ps[1] + ("__0" if f["params"][1].get("mut") else ""), ps[2], ps[3], A(4)
        b = "(old(%s)->0)" % sb
        e = "enc_of(*%s, %s)" % (O, t)
        fn = {"doCdataSection": "cdata", "doIgnoreSection": "ignore"}[k]
        D = "%s(%s, %s.mem@, %s.lo as int, %s.hi as int, %s, %s.log@)" % (fn, e, b, b, b, more, O)
        req = ["inv(*%s)" % O, "old(%s).is_some() && wf(%s) && %s.mem@.len() > 0 && %s.hi - %s.lo <= i32::MAX" % (sb, b, b, b, b), "ordered(*%s, other(%s))" % (O, t)]
        if k == "doIgnoreSection":
            req += ["%s.m_parsingStatus.parsing != XML_Parsing::SUSPENDED" % O]
        ens = ["did(%s, *%s, *%s, %s, %s, *final(%s), *old(%s), *final(%s), r)" % (D, O, N, t, b, sb, nx, nx), "%s.m_tempPool == %s.m_tempPool && %s.m_temp2Pool == %s.m_temp2Pool" % (N, O, N, O)]
        ens += ["ordered(*%s, other(%s))" % (N, t)]

        def loops(j):
            if j == 0:
                return dict(invariant=["wf(buf) && buf.mem == %s.mem && %s.lo <= buf.lo && buf.hi == %s.hi" % (b, b, b), "inv(*parser)", "kept(*%s, *parser)" % O, "enc == " + e, "%s.is_none()" % sb, "*%s == *old(%s)" % (nx, nx),
                                       "parser.m_tempPool == %s.m_tempPool && parser.m_temp2Pool == %s.m_temp2Pool" % (O, O),
                                       "ordered(*parser, other(%s))" % t, "ev_of(*parser, %s).mem == buf.mem && ev_of(*parser, %s).pos == buf.lo" % (t, t),
                                       "cdata(%s, buf.mem@, buf.lo as int, buf.hi as int, %s, parser.log@) == %s" % (e, more, D)], decreases="buf.hi - buf.lo",
                            head="let ghost l0 = parser.log@; let ghost text0 = buf.lo as int; proof { start(enc.e.kind, buf.mem@, text0); cdata_at(enc, buf.mem@, text0, buf.hi as int, %s, l0); }" % more + "")
            I = "enc.e.kind, buf.mem@, text0"
            return dict(invariant=["wf(buf) && buf.mem == %s.mem && text0 <= buf.lo <= next.pos <= buf.hi && buf.hi == %s.hi && next.mem == buf.mem" % (b, b), "inv(*parser)", "kept(*%s, *parser)" % O, "!same8(enc.e.kind)",
                                   "parser.m_tempPool == %s.m_tempPool && parser.m_temp2Pool == %s.m_temp2Pool" % (O, O), "%s.is_none()" % sb, "*%s == *old(%s)" % (nx, nx),
                                   "ordered(*parser, other(%s))" % t, "ordered(*parser, %s) && end_of(*parser, %s) == next" % (t, t), "ev_of(*parser, %s).mem == buf.mem" % t,
                                   "chars(enc.e.kind, buf.mem@, buf.lo as int, next.pos as int)", "upto(%s, buf.lo as int)" % I,
                                   "parser.log@ == l0 + texts(What::Chars, out8(%s, buf.lo as int))" % I],
                        ensures=["buf.lo == next.pos"], decreases="next.pos - buf.lo",
                        head="")
        return dict(requires=req, ensures=ens, attrs=at, loops=loops, pre="proof { strings(); }")
    if k in CON:
        base, t, b, nx, more = ps[1] , ps[2], A(3), ps[4], ps[5]
        base, t, more = A(1), A(2), A(5)
        e = "enc_of(*%s, %s)" % (O, t)
        I = "enc, %s == EncodingType::Internal" % t
        D = "content(%s, %s == EncodingType::Internal, %s.mem@, %s.lo as int, %s.hi as int, %s, %s as int, world(*%s))" % (e, t, b, b, b, more, base, O)
        pool = "%s.m_tempPool.t@ == Seq::<i8>::empty()"
        req = ["inv(*%s)" % O, "wf(%s) && %s.mem@.len() > 0 && %s.hi - %s.lo <= i32::MAX && %s.mem@.len() <= isize::MAX" % (b, b, b, b, b), "ordered(*%s, other(%s))" % (O, t), pool % O, "%s >= 0" % base]
        ens = ["r != XML_Error::NO_MEMORY ==> content_did(%s, *%s, *%s, %s, %s, *final(%s), r)" % (D, O, N, t, b, nx)]

        def loops(j):
            common = ["steady(*%s, *parser)" % O, "ordered(*parser, other(%s))" % t, pool % "parser", "enc == " + e]
            if j == 0:
                return dict(invariant=["wf(buf) && buf.mem == %s.mem && %s.lo <= buf.lo && buf.hi == %s.hi" % (b, b, b), "inv(*parser)"] + common + [
                                       "ev_of(*parser, %s).mem == buf.mem && ev_of(*parser, %s).pos == buf.lo" % (t, t),
                                       "content(%s, buf.mem@, buf.lo as int, buf.hi as int, %s, %s as int, world(*parser)) == %s" % (I, more, base, D)], decreases="buf.hi - buf.lo",
                            head="let ghost w0 = world(*parser); let ghost l0 = parser.log@; let ghost text0 = buf.lo as int; proof { start(enc.e.kind, buf.mem@, text0); content_at(%s, buf.mem@, text0, buf.hi as int, %s, %s as int, w0); token_in_place(%s, buf.mem@, text0, buf.hi as int, %s, %s as int, w0); }" % (I, more, base, I, more, base))
            U = "enc.e.kind, buf.mem@, text0"
            return dict(invariant=["wf(buf) && buf.mem == %s.mem && text0 <= buf.lo <= next.pos <= buf.hi && buf.hi == %s.hi && next.mem == buf.mem" % (b, b), "inv(*parser)"] + common + ["!same8(enc.e.kind)",
                                   "ev_of(*parser, %s).mem == buf.mem && ev_of(*parser, %s).pos <= buf.lo" % (t, t),
                                   "chars(enc.e.kind, buf.mem@, buf.lo as int, next.pos as int)", "upto(%s, buf.lo as int)" % U,
                                   "world(*parser) == (World { log: l0 + texts(What::Chars, out8(%s, buf.lo as int)), ..w0 })" % U],
                        ensures=["buf.lo == next.pos", "end_of(*parser, %s).mem == buf.mem && end_of(*parser, %s).pos == buf.lo" % (t, t)], decreases="next.pos - buf.lo", head="")
        return dict(requires=req, ensures=ens, attrs=at, loops=loops, pre="proof { strings(); }")
    if k in SARMS:
        I = "enc.e.kind, buf__0.mem@, buf__0.lo as int"
        same = "parser.m_tempPool == old(parser).m_tempPool && parser.m_temp2Pool == old(parser).m_temp2Pool"
        loops = lambda j: dict(invariant=["wf(buf) && buf.mem == buf__0.mem && buf__0.lo <= buf.lo <= next.pos <= buf.hi && buf.hi == buf__0.hi && next == next__0 && next.mem == buf.mem", "inv(*parser)", "kept(*old(parser), *parser)", "ordered(*parser, other(enc_type))",
                same, "!same8(enc.e.kind)",
                "eventPP == (if enc_type == EncodingType::Internal { Slot::IntEvent } else { Slot::Event }) && eventEndPP == (if enc_type == EncodingType::Internal { Slot::IntEventEnd } else { Slot::EventEnd })",
                "ev_of(*parser, enc_type).mem == buf.mem && ev_of(*parser, enc_type).pos <= next.pos", "end_of(*parser, enc_type).mem == buf.mem && end_of(*parser, enc_type).pos <= next.pos", "chars(enc.e.kind, buf.mem@, buf.lo as int, next.pos as int)", "upto(%s, buf.lo as int)" % I,
                "parser.log@ == old(parser).log@ + texts(What::Chars, out8(%s, buf.lo as int))" % I],
                ensures=["buf.lo == next.pos"], decreases="next.pos - buf.lo", head="")
        return dict(requires=["wf(buf__0) && next__0.mem == buf__0.mem && buf__0.lo < next__0.pos <= buf__0.hi", "inv(*old(parser))", "callable(*old(parser))", "*enc == enc_of(*old(parser), enc_type)", "chars(%s, next__0.pos as int)" % I,
                              "ev_of(*old(parser), enc_type).mem == buf__0.mem && ev_of(*old(parser), enc_type).pos == buf__0.lo && end_of(*old(parser), enc_type) == next__0"],
                    ensures=["final(parser).log@ == chars_log(%s, next__0.pos as int, old(parser).log@, false)" % I, "kept(*old(parser), *final(parser))", same.replace("parser.", "final(parser).").replace("old(final(parser))", "old(parser)").replace("old(final(parser).", "old(parser)."), "ordered(*final(parser), other(enc_type))"],
                    attrs=at, loops=loops, pre="proof { strings(); start(%s); whole_chars(enc.e.kind, Buf { mem: buf.mem, lo: buf.lo, hi: next.pos }); } let ghost text0 = buf.lo as int;" % I)
    if k in CARMS:
        O, N = "old(parser)", "final(parser)"
        D = "token(*enc, enc_type == EncodingType::Internal, buf__0.mem@, buf__0.lo as int, buf__0.hi as int, haveMore, startTagLevel as int, world(*old(parser)))"
        I = "enc.e.kind, buf__0.mem@, buf__0.lo as int"
        loops = lambda j: dict(invariant=["wf(buf) && buf.mem == buf__0.mem && buf__0.lo <= buf.lo <= next.pos <= buf.hi && buf.hi == buf__0.hi && next == next__0 && next.mem == buf.mem", "inv(*parser)", "steady(*old(parser), *parser)", "ordered(*parser, other(enc_type))",
                "parser.m_tempPool.t@ == Seq::<i8>::empty()", "!same8(enc.e.kind)",
                "eventPP == (if enc_type == EncodingType::Internal { Slot::IntEvent } else { Slot::Event }) && eventEndPP == (if enc_type == EncodingType::Internal { Slot::IntEventEnd } else { Slot::EventEnd })",
                "ev_of(*parser, enc_type).mem == buf.mem && ev_of(*parser, enc_type).pos <= buf.lo", "chars(enc.e.kind, buf.mem@, buf.lo as int, next.pos as int)", "upto(%s, buf.lo as int)" % I,
                "world(*parser) == (World { log: old(parser).log@ + texts(What::Chars, out8(%s, buf.lo as int)), ..world(*old(parser)) })" % I],
                ensures=["buf.lo == next.pos", "callable(*parser)"], decreases="next.pos - buf.lo", head="")
        pre = "proof { strings(); %s start(%s); %s } let ghost text0 = buf.lo as int;" % ("token_is_chars(%s);" % D[6:-1] if k == "content_DATA_CHARS" else "reveal(token);", I, "whole_chars(enc.e.kind, Buf { mem: buf.mem, lo: buf.lo, hi: next.pos });" if k in ("content_DATA_CHARS", "content_DATA_NEWLINE", "content_CHAR_REF") else "if !haveMore { whole_chars(enc.e.kind, buf); }" if "TRAILING" in k else "")
        return dict(requires=["arm_pre(*old(parser), tok, *enc, enc_type, buf__0, next__0)", "tok == XML_TOK::" + k[8:]], ensures=["arm_did(%s, *old(parser), *final(parser), enc_type, buf__0, r, *final(nextPtr))" % D], attrs=at, loops=loops, pre=pre)
    raise KeyError(k)


TY = {"XML_Parser": "&mut Parser", "& mut Option < Buf >": "&mut Option<Buf>"}




def emit(k, f):
    b = clean(k, f["body"])
    g = dict(f, body=b)
    g["params"] = [dict(p, ty=TY.get(p["ty"], p["ty"])) for p in f["params"]]
    if k in CARMS + SARMS:
        P = lambda n, ty, m=False: dict(name=n, mut=m, ty=ty)
        g["params"] = [P("tok", "XML_TOK"), P("enc", "&Enc"), P("enc_type", "EncodingType"), P("parser", "&mut Parser"), P("buf", "Buf", True), P("next", "Ptr", True), P("nextPtr", "Ptr"), P("haveMore", "bool"), P("startTagLevel", "c_int")]
        g["ret"] = "(Option<XML_Error>, Ptr)"
        slots = "let mut eventPP : Slot = if enc_type . is_internal () { Slot :: IntEvent } else { Slot :: Event } ; let mut eventEndPP : Slot = if enc_type . is_internal () { Slot :: IntEventEnd } else { Slot :: EventEnd } ;"
        b = re.sub(r"\breturn ((?:(?!\breturn\b)[^;{}])+?) ;", r"return (Some (\1) , next) ;", b)
        b = re.sub(r"(?:\* |\()(event(?:End)?PP)\)?(?: \. rd \(\))? = ([^;{}]*?) ?([;}])", r"parser . set_slot (\1 , \2) \3", b)
        g["body"] = "{ %s { %s } behind_the_arm () ; (None , next) }" % (slots, b)
        if k in SARMS:
            g["params"], g["ret"] = g["params"][1:6], "()"
            g["body"] = "{ %s { %s } behind_the_arm () ; }" % (slots, b)
    if k in CON:
        g["params"][0] = dict(g["params"][0], name="parser", ty="&mut Parser", mut=False)
    for p in g["params"]:
        if p["name"] in ("nextPtr", "endPtr"):
            p["ty"] = "&mut Ptr"
        if p["ty"].startswith("&mut"):
            p["mut"] = False
    t = rx.fn_text(g, root_name(k), spec_of(k, g), "", "")
    t = t.replace("behind_the_arm();", "assert(buf.mem == buf__0.mem && buf.hi == buf__0.hi && buf.lo <= next.pos);")
    return t


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\n" + open(os.path.join(rx.VERIF, "verus/prelude.rs")).read()
    for n in ("XML_Convert_Result", "XML_TOK", "XML_STATE", "XML_Error", "XML_Parsing", "XML_ParamEntityParsing"):
        s += rx.enum_text(n, x["enums"][n]["variants"])
    s += re.sub(r": C2RustUnnamed\w*", ": u32", re.sub(r"(\w+_ENC): C2RustUnnamed\w*", r"\1: i32", rx.const_text(x["consts"])))
    s += open(os.path.join(rx.VERIF, "verus/conv.rs")).read()
    h = open(os.path.join(rx.VERIF, "verus/heap.rs")).read()
    s += h[h.index("// position of the terminator"):h.index("// ---- public identifiers")]
    s += h[h.index("// ---- ends of lines"):h.index("pub proof fn heap_push")]
    d = open(os.path.join(rx.VERIF, "verus/decl.rs")).read()
    i = d.index("pub fn call_finder")
    j = d.index("// ---- detection of the encoding")
    s += d[:i] + d[d.index("\n}\n", i) + 3:j] + "pub type XML_Bool = bool;\n"
    s += open(os.path.join(rx.VERIF, "verus/proc.rs")).read().replace("PROCS", ", ".join(PROCS))
    s += open(os.path.join(rx.VERIF, "verus/content.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        s += emit(k, f)
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    import sys
    x = rx.extract(request(), "proc")
    p = os.path.join(rx.BUILD, "proc.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=200, extra=sys.argv[1:])
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided))
