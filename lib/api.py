"""The input functions of the parser (xmlparse.rs) under contract in Verus: buffer, indices, status."""
import os, re
import rx

METH = ["getBuffer", "parseBuffer", "parse", "stopParser", "resumeParser"]
POS = ["XML_GetCurrentByteIndex", "XML_GetCurrentByteCount", "XML_GetCurrentLineNumber", "XML_GetCurrentColumnNumber"]
WRAP = {"XML_Parse": "parse", "XML_ParseBuffer": "parseBuffer", "XML_GetBuffer": "getBuffer", "XML_ResumeParser": "resumeParser", "XML_StopParser": "stopParser"}
CAPI = POS + list(WRAP) + ["XML_GetParsingStatus", "XML_SetParamEntityParsing"]
FNS = METH + CAPI


def request():
    return dict(functions=[dict(key=k, container="impl XML_ParserStruct", self_name="self_", free=METH + ["startParsing"]) for k in METH] + [dict(key=k, module="lib::xmlparse") for k in CAPI],
                consts=["XML_CONTEXT_BYTES", "INIT_BUFFER_SIZE"], enums=["XML_Parsing", "XML_Status", "XML_Error"], structs=["XML_ParserStruct"], list=True)


E, S, F = "XML_Status::ERROR", "XML_Status::SUSPENDED", "XML_Status::OK"
O, N = "old(self_)", "final(self_)"


def frame(*names):
    return ["%s.%s == %s.%s" % (N, n, O, n) for n in names]


FIX = ["is_child_parser", "m_isParamEntity", "none", "m_paramEntityParsing"]
INPUT = ["m_buffer", "m_bufferStart", "m_bufferEnd", "m_parseEndByteIndex", "m_parseEndIdx", "m_positionIdx", "m_position", "m_processor", "calls"]
ST = "m_parsingStatus.parsing"


def refused(fn_ok):
    """the parser is asked at the wrong time: an error, and nothing changes"""
    return ["%s.%s == XML_Parsing::SUSPENDED ==> %s && %s.m_errorCode == XML_Error::SUSPENDED" % (O, ST, fn_ok, N),
            "%s.%s == XML_Parsing::FINISHED ==> %s && %s.m_errorCode == XML_Error::FINISHED" % (O, ST, fn_ok, N),
            "(%s.%s == XML_Parsing::SUSPENDED || %s.%s == XML_Parsing::FINISHED) ==> %s && %s.m_parsingStatus == %s.m_parsingStatus" % (
                O, ST, O, ST, " && ".join(frame(*INPUT)), N, O)]


ASK = "(%s.%s == XML_Parsing::INITIALIZED || %s.%s == XML_Parsing::PARSING)" % (O, ST, O, ST)
RUN = "%s.calls@.len() == %s.calls@.len() + 1" % (N, O)


def ran(text, last, cond):
    """the processor got `text`, what it left is still there, the answer says how it ended"""
    c = "%s.calls@.last()" % N
    alive = "%s && %s.m_processor != Some(Proc::errorProcessor)" % (cond, O)
    dead = "%s && %s.m_processor == Some(Proc::errorProcessor)" % (cond, O)
    return [
        "%s && %s ==> %s.calls@ == %s.calls@.push(%s) && %s.text == %s && %s.last == %s" % (alive, RUN, N, O, c, c, text, c, last),
        "%s && %s ==> 0 <= %s.used <= %s.text.len() && pending(*%s) == %s.text.subrange(%s.used, %s.text.len() as int)" % (alive, RUN, c, c, N, c, c, c),
        # lines and columns are counted on over what was used up
        "%s && r != %s && %s.%s != XML_Parsing::FINISHED ==> %s.m_position == counted(%s.m_position, %s.text.subrange(0, %s.used))" % (alive, E, N, ST, N, O, c, c),
        "%s && !(%s) ==> r == %s && %s.m_errorCode != XML_Error::NONE" % (alive, RUN, E, N),
        "%s ==> r == %s && %s.calls == %s.calls" % (dead, E, N, O),
        "%s ==> (r == %s) == (%s.m_errorCode != XML_Error::NONE)" % (cond, E, N),
        "%s && r == %s && %s ==> %s.m_processor == Some(Proc::errorProcessor) && %s.m_eventEndPtr == %s.m_eventPtr" % (cond, E, RUN, N, N, N),
        "%s && r == %s ==> %s.%s == XML_Parsing::SUSPENDED" % (cond, S, N, ST),
        "%s && r != %s ==> %s && (r == %s) == (%s.%s == XML_Parsing::SUSPENDED)" % (cond, E, RUN, S, N, ST),
        "%s && r == %s ==> %s.%s == XML_Parsing::FINISHED || (!%s && %s.%s == XML_Parsing::PARSING)" % (cond, F, N, ST, last, N, ST),
    ]


NOBODY = "parser.none"


def capi_spec(k):
    o, n = "old(parser)", "final(parser)"
    at = ["loop_isolation(false)", "spinoff_prover"]
    if k in WRAP:
        sp = spec_of(WRAP[k])
        q = lambda e: e.replace("self_", "parser")
        bad = {"XML_GetBuffer": "r.null"}.get(k, "r == " + E)
        refuse = {"XML_Parse": "!%s.none && !(len >= 0 && (!s.null || len == 0))" % o, "XML_ParseBuffer": "!%s.none && len < 0" % o}.get(k)
        if k == "XML_GetBuffer":
            # the result is the address of the space
            conv = lambda e: q(e).replace("r.is_some()", "!r.null").replace("r.is_none()", "r.null").replace("r->0.lo", "r.pos").replace("r->0.hi", "%s.m_buffer@.len()" % n)
        else:
            conv = q
        ok = "!%s.none" % o + (" && !(%s)" % refuse if refuse else "")
        req = [q(e) for e in sp["requires"] if e != "len >= 0"]
        req = [("len >= 0 ==> " + e) if k == "XML_ParseBuffer" and "len" in e.replace(".len()", "") else e for e in req]
        return dict(requires=req, attrs=at, ensures=["%s.none ==> %s && *%s == *%s" % (o, bad, n, o), "%s.none == %s.none" % (n, o)] + (
            ["%s ==> %s && %s.m_errorCode == XML_Error::INVALID_ARGUMENT && *%s == (Parser { m_errorCode: XML_Error::INVALID_ARGUMENT, ..*%s })" % (refuse, bad, n, n, o)] if refuse else []) +
            ["%s ==> (%s)" % (ok, conv(e)) for e in sp["ensures"]])
    if k == "XML_GetCurrentByteIndex":
        return dict(requires=["posinv(*%s)" % o], attrs=at, ensures=["*%s == *%s" % (n, o), "%s.none ==> r == -1" % o,
                    # the event is at this index of all that was handed over: as far from its end as in the buffer
                    "!%s.none && !%s.m_eventPtr.null ==> r == %s.m_parseEndByteIndex - (%s.m_bufferEnd - %s.m_eventPtr.pos) && r >= 0" % (o, o, o, o, o),
                    "!%s.none && %s.m_eventPtr.null ==> r == -1" % (o, o)])
    if k == "XML_GetCurrentByteCount":
        return dict(requires=["posinv(*%s)" % o], attrs=at, ensures=["*%s == *%s" % (n, o),
                    "r == if %s.none || %s.m_eventPtr.null || %s.m_eventEndPtr.null { 0 } else { %s.m_eventEndPtr.pos - %s.m_eventPtr.pos }" % (o, o, o, o, o)])
    if k in POS:
        v = "place(*%s).lineNumber" % o if "Line" in k else "place(*%s).columnNumber" % o
        return dict(requires=["posinv(*%s)" % o], attrs=at, pre="proof { counting(); }", ensures=[
            "%s.none ==> r == 0 && *%s == *%s" % (o, n, o),
            "!%s.none ==> r == %s" % (o, v if "Column" in k else "(if %s == u64::MAX { 0 } else { (%s + 1) as u64 })" % (v, v)),
            # asking changes nothing that can be seen later
            "place(*%s) == place(*%s) && posinv(*%s) && (inv(*%s) ==> inv(*%s))" % (n, o, n, o, n),
            "*%s == (Parser { m_position: %s.m_position, m_positionIdx: %s.m_positionIdx, ..*%s })" % (n, n, n, o)])
    if k == "XML_GetParsingStatus":
        return dict(ensures=["*final(parser) == *old(parser)", "*final(status) == if old(parser).none { *old(status) } else { old(parser).m_parsingStatus }"], attrs=at)
    if k == "XML_SetParamEntityParsing":
        c = "%s.none || %s.%s == XML_Parsing::PARSING || %s.%s == XML_Parsing::SUSPENDED" % (o, o, ST, o, ST)
        return dict(ensures=["r == if %s { 0i32 } else { 1i32 }" % c, "*%s == if %s { *%s } else { Parser { m_paramEntityParsing: peParsing, ..*%s } }" % (n, c, o, o)], attrs=at)
    raise KeyError(k)


def spec_of(k):
    if k in CAPI:
        return capi_spec(k)
    at = ["loop_isolation(false)", "spinoff_prover"]
    stream = "%s.m_parseEndByteIndex + len <= i64::MAX" % O
    if k == "getBuffer":
        ok = "r.is_some()"
        return dict(
            requires=["inv(*%s)" % O],
            ensures=["inv(*%s)" % N, "pending(*%s) == pending(*%s)" % (N, O)] + frame("m_parseEndByteIndex", "m_processor", "m_position", "m_parsingStatus", "calls", *FIX) + [
                "r.is_some() ==> r->0.lo == %s.m_bufferEnd && r->0.hi == %s.m_buffer@.len() && r->0.hi - r->0.lo >= len && len >= 0" % (N, N),
                "r.is_none() ==> %s.m_errorCode != XML_Error::NONE" % N,
                "tail_of(held(*%s), held(*%s))" % (N, O),
                "r.is_some() ==> %s && %s.m_errorCode == %s.m_errorCode" % (ASK, N, O),
                "r.is_none() && %s ==> %s.m_errorCode == XML_Error::NO_MEMORY" % (ASK, N),
                "len < 0 ==> r.is_none() && %s.m_errorCode == XML_Error::NO_MEMORY" % N,
                "len >= 0 && %s.%s == XML_Parsing::SUSPENDED ==> %s.m_errorCode == XML_Error::SUSPENDED" % (O, ST, N),
                "len >= 0 && %s.%s == XML_Parsing::FINISHED ==> %s.m_errorCode == XML_Error::FINISHED" % (O, ST, N),
                # an event that is still asked about is where it was, or known to be gone
                "%s.m_eventPtr.null || (%s.m_eventPtr == %s.m_eventPtr && %s)" % (N, N, O, " && ".join(frame("m_buffer@", "m_bufferStart", "m_bufferEnd", "m_positionIdx"))),
                "r.is_none() ==> " + " && ".join(frame("m_eventPtr", "m_positionIdx", "m_bufferStart", "m_bufferEnd")),
                ],
            pre="proof { buffers(); }", attrs=at,
            loops=lambda j: dict(invariant=["bufferSize > 0", "*self_ == *%s" % O, "neededSize <= i32::MAX + 1024"], decreases="i32::MAX - bufferSize", head="proof { buffers(); }"))
    if k == "parseBuffer":
        text = "%s.m_buffer@.subrange(%s.m_bufferStart as int, %s.m_bufferEnd + len)" % (O, O, O)
        return dict(
            requires=["inv(*%s)" % O, "len >= 0", "%s.m_bufferEnd + len <= %s.m_buffer@.len()" % (O, O), stream],
            ensures=["inv(*%s)" % N] + refused("r == " + E) + frame(*FIX) + ran(text, "(isFinal != 0)", ASK) + [
                "%s && r != %s ==> held(*%s) == %s.m_buffer@.subrange(0, %s.m_bufferEnd + len)" % (ASK, E, N, O, O),
                "%s && r != %s ==> %s.m_parseEndByteIndex == %s.m_parseEndByteIndex + len" % (ASK, E, N, O),
                "%s && r == %s && %s.%s == XML_Parsing::PARSING ==> %s.m_positionIdx == Some(%s.m_bufferStart)" % (ASK, F, N, ST, N, N)],
            attrs=at, pre="proof { buffers(); }")
    if k == "parse":
        text = "(pending(*%s) + s.m@.subrange(0, len as int))" % O
        ok = "len >= 0 && (!s.null || len == 0)"
        c = "%s && %s && (len > 0 || isFinal != 0)" % (ASK, ok)
        return dict(
            requires=["inv(*%s)" % O, "!s.null ==> len <= s.m@.len()", stream],
            ensures=["inv(*%s)" % N] + ["%s ==> (%s)" % (ok, e) for e in refused("r == " + E)] + frame(*FIX) + ran(text, "(isFinal != 0)", c) + [
                "!(%s) ==> r == %s && *%s == *%s" % (ok, E, N, O),
                "%s && len == 0 && isFinal == 0 && r == %s ==> pending(*%s) == pending(*%s) && %s.calls == %s.calls && %s.%s == XML_Parsing::PARSING" % (ASK, F, N, O, N, O, N, ST),
                "%s && r != %s ==> tail_of(held(*%s), held(*%s) + s.m@.subrange(0, len as int))" % (c, E, N, O),
                "%s && r != %s ==> %s.m_parseEndByteIndex == %s.m_parseEndByteIndex + len" % (c, E, N, O)],
            attrs=at, pre="proof { buffers(); }")
    if k == "resumeParser":
        c = "%s.%s == XML_Parsing::SUSPENDED" % (O, ST)
        return dict(
            requires=["inv(*%s)" % O],
            ensures=["inv(*%s)" % N, "!(%s) ==> r == %s && %s.m_errorCode == XML_Error::NOT_SUSPENDED && %s && %s.m_parsingStatus == %s.m_parsingStatus" % (c, E, N, " && ".join(frame(*INPUT)), N, O)] +
            frame(*(FIX + ["m_parseEndByteIndex"])) + ran("pending(*%s)" % O, "%s.m_parsingStatus.finalBuffer" % O, c),
            attrs=at, pre="proof { buffers(); }")
    if k == "stopParser":
        return dict(
            # it is called by a handler, or to end a suspended parser
            requires=["inv(*%s) || %s.%s != XML_Parsing::SUSPENDED" % (O, O, ST)],
            ensures=frame(*(INPUT + FIX + ["m_eventPtr", "m_eventEndPtr"])) + [
                "%s.m_parsingStatus.finalBuffer == %s.m_parsingStatus.finalBuffer" % (N, O),
                "r == %s || r == %s" % (E, F),
                "r == %s ==> %s.m_errorCode == %s.m_errorCode && %s.%s == (if resumable { XML_Parsing::SUSPENDED } else { XML_Parsing::FINISHED })" % (F, N, O, N, ST),
                "r == %s ==> %s.%s == %s.%s" % (E, N, ST, O, ST),
                "r == %s <==> %s.%s == XML_Parsing::INITIALIZED || %s.%s == XML_Parsing::FINISHED || (resumable && (%s.%s == XML_Parsing::SUSPENDED || %s.m_isParamEntity))" % (E, O, ST, O, ST, O, ST, O),
                "r == %s ==> %s.m_errorCode == (match %s.%s { XML_Parsing::INITIALIZED => XML_Error::NOT_STARTED, XML_Parsing::FINISHED => XML_Error::FINISHED, XML_Parsing::SUSPENDED => XML_Error::SUSPENDED, XML_Parsing::PARSING => XML_Error::SUSPEND_PE })" % (E, N, O, ST)],
            attrs=at)


def body_of(k, b):
    b = re.sub(r"\s+", " ", b)
    b = b.replace("self_ . m_processor . expect (\"non-null function pointer\") (", "call_processor (")
    b = re.sub(r"self_ \. m_processor \. (expect \(\"[^\"]*\"\)|unwrap \(\)) \(", "call_processor (", b)
    b = re.sub(r"Some \(errorProcessor as Processor\)", "Some (Proc::errorProcessor)", b)
    b = re.sub(r"\(\* self_ \. m_encoding\) \. updatePosition", "update_position", b)
    if k in CAPI:
        b = re.sub(r"\( ?\* parser ?\)", "parser", b)
        for m in METH:
            b = re.sub(r"parser \. %s \(" % m, "%s (parser , " % m, b)
        b = b.replace("parser . is_null ()", "parser . none").replace("parser . buffer_index (", "parser . m_buffer . index_of (")
        b = re.sub(r"ExpatBufRef :: new \(", "part_at (& parser . m_buffer , ", b)
        b = re.sub(r"(parser \. \w+) >= (\w+)", r"\1 . ge (\2)", b)
        b = re.sub(r"\(parser \. m_encoding\) \. updatePosition|\( ?\* parser \. m_encoding ?\) \. updatePosition", "update_position", b)
        b = re.sub(r"cfg ! \(feature = \"mozilla\"\)", "false", b)
        b = re.sub(r" as \* (mut|const) \w+", "", b)
        b = re.sub(r"if ! !? ?status \. is_null \(\) \{ \{ vpanic \(\) \} \} ;?", "", b)
        b = re.sub(r"\(status\) \. rd \(\) =", "* status =", b)
        b = b.replace("ptr :: null", "null")
    b = b.replace(". try_into () . unwrap ()", ". vinto ()")
    b = re.sub(r"\bnull(_mut)? \(\)", "bnull ()", b)
    b = re.sub(r"\bPtr\b", "BPtr", b)
    b = re.sub(r" as (XML_Status|XML_Error)\b", "", b)
    # ranges of the buffer
    b = re.sub(r"(\w+) \[\.\. ([^\[\]]*?)\] \. copy_from_slice \(from_raw_parts \((\w+) , ([^()]*?)\)\)", r"self_ . m_buffer . fill (& \1 , \2 , & \3 , \4)", b)
    b = re.sub(r"self_ \. m_buffer \[((?:[^\[\]]|\[[^\[\]]*\])*?) \.\. ((?:[^\[\]]|\[[^\[\]]*\])*?)\] \. into \(\)", r"self_ . m_buffer . part (\1 , \2)", b)
    b = re.sub(r"& mut self_ \. m_buffer \[([^\[\]]*?) \.\.\]", r"self_ . m_buffer . part_from (\1)", b)
    b = re.sub(r"copy_within \(((?:[^(),]|\((?:[^()]|\([^()]*\))*\))*?) \.\. ((?:[^(),]|\((?:[^()]|\([^()]*\))*\))*?) , ", r"copy_within (Range { lo: \1 , hi: \2 } , ", b)
    return b


def text(x, keys=FNS):
    s = "use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\npub type c_int = i32;\npub type c_char = i8;\n"
    for n in ("XML_Parsing", "XML_Status", "XML_Error"):
        s += rx.enum_text(n, x["enums"][n]["variants"])
    s += rx.const_text(x["consts"])
    s += open(os.path.join(rx.VERIF, "verus/api.rs")).read()
    for k in keys:
        f = x["functions"][k]
        if "error" in f:
            raise rx.Undecided(f["error"])
        ps = []
        for p in f["params"]:
            if p["name"] == "status":
                p = dict(p, ty="&mut XML_ParsingStatus", mut=False)
            elif p["name"] == "self":
                p = dict(name="self_", ty="&mut Parser", mut=False)
            elif p["ty"] == "Ptr":
                p = dict(p, ty="Src")
            elif re.sub(r"\s", "", p["ty"]) == "XML_Parser":
                p = dict(p, ty="&mut Parser", mut=False)
            elif re.sub(r"\s", "", p["ty"]) == "*mutXML_ParsingStatus":
                p = dict(p, ty="&mut XML_ParsingStatus", mut=False)
            elif re.sub(r"\s", "", p["ty"]) == "*constc_char":
                p = dict(p, ty="Src")
            ps.append(dict(p, mut=False) if k in CAPI else p)
        ret = f["ret"].replace("Option < & mut [c_char] >", "Option<Part>")
        ret = re.sub(r"\bPtr\b|\* mut c_void", "BPtr", ret)
        s += rx.fn_text(dict(f, body=body_of(k, f["body"]), params=ps, ret=ret), k, spec_of(k), "", "")
    return s + "}\nfn main() {}\n"


if __name__ == "__main__":
    x = rx.extract(request(), "api")
    p = os.path.join(rx.BUILD, "api.rs")
    rx.write_if_changed(p, text(x))
    r = rx.run_verus(p, timeout=100)
    print(r.ok, r.verified, r.errors, r.time)
    for f in r.failures:
        print(f["fn"], f["detail"])
    print("\n".join(r.undecided[:6]))
