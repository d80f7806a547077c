"""What each property is decided by."""
import rx, tok, val, norm, role, api, conv, pool, decl, proc, unk, chunk, model
from check import verus_proof, kani_proof, fn_shape, Native


def _tok(which):
    def build():
        x = rx.extract(tok.request(), "tok")
        keys = tok.SCAN + tok.TOP + (tok.AUX if which == "c01" else [])
        return (tok.c01_text(x) if which == "c01" else tok.c02_text(x)), fn_shape(x, keys)
    return build


def _pieces():
    x = rx.extract(tok.request(), "tok")
    return chunk.text(x), fn_shape(x, tok.SCAN + tok.TOP)


def _val(keys):
    def build():
        x = rx.extract(val.request(), "val")
        return val.text(x, keys), fn_shape(x, keys)
    return build


def _norm(keys=norm.FNS):
    def build():
        x = rx.extract(norm.request(), "norm")
        return norm.text(x, keys), fn_shape(x, keys)
    return build


def _role():
    x = rx.extract(role.request(), "role")
    return role.text(x), fn_shape(x, role.FNS)


def _conv():
    x = rx.extract(conv.request(), "conv")
    return conv.text(x), fn_shape(x, list(x["functions"]))


def _decl(keys):
    def build():
        x = rx.extract(decl.request(), "decl")
        return decl.text(x, keys), fn_shape(x, keys)
    return build


def _proc(keys):
    def build():
        x = rx.extract(proc.request(), "proc")
        return proc.text(x, keys), {proc.root_name(k): v for k, v in fn_shape(x, keys).items()}
    return build


def _unk():
    x = rx.extract(unk.request(), "unk")
    return unk.text(x), fn_shape(x, unk.FNS)


def _model():
    x = rx.extract(model.request(), "model")
    s = fn_shape(x, model.FNS)
    return model.text(x), dict((("arm_" + k) if k in model.ARMS and not k.startswith("quant_") else k, v) for k, v in s.items())


def _pool():
    x = rx.extract(pool.request(), "pool")
    s = fn_shape(x, pool.FNS)
    return pool.text(x), dict(s, **{k + "_rent": v for k, v in s.items()})


def _api(keys):
    def build():
        x = rx.extract(api.request(), "api")
        return api.text(x, keys), fn_shape(x, keys)
    return build


def smoke_fns(fns):
    """Adds `false` to the postconditions of the named functions."""
    import re

    def f(text):
        for n in fns:
            m = re.search(r"pub fn %s[<(].*?\n\{" % n, text, re.S)
            if not m:
                return None
            h = m.group(0)
            h2 = h.replace("    ensures\n", "    ensures\n        false,\n", 1) if "    ensures\n" in h else h[:-1] + "    ensures\n        false,\n{"
            text = text.replace(h, h2, 1)
        return text, fns
    return f


TOKTRUST = [
    "the extraction: syn-based, mechanical; byte pointers become (memory, index) pairs, ExpatBufRef becomes the Buf model of verus/prelude.rs",
    "contract of the character encodings (verus/enc.rs), discharged for the crate's own encodings by C04",
    "vstd and the Verus/Z3 tool chain",
]

ENC = ["enc_utf8", "enc_utf8_ns", "enc_iutf8", "enc_iutf8_ns", "enc_latin1", "enc_latin1_ns", "enc_ascii", "enc_ascii_ns", "enc_le", "enc_le_ns",
       "enc_ile", "enc_ile_ns", "enc_be", "enc_be_ns"]
ENCFNS = [i + "::" + f for i in ("Utf8EncodingImpl", "Latin1EncodingImpl", "AsciiEncodingImpl", "Little2EncodingImpl", "Big2EncodingImpl")
          for f in ("MINBPC", "byte_type", "byte_to_ascii", "is_name_char", "is_nmstrt_char", "is_invalid_char", "is_name_char_minbpc", "is_nmstrt_char_minbpc", "char_matches")]

VALH = ["value_check", "value_utf8", "value_utf16"]
KANI_MODULES = {"enc": ENC, "val": VALH}
C_ORACLE = "the companion's oracle is the C library (libexpat 2.6.1) installed in the sandbox; where it is absent the companion does nothing"

def proc_sections():
    return verus_proof("proc_sections", _proc(proc.FNS), [proc.root_name(k) for k in proc.FNS], 300, smoke_fns(["doContent", "reportDefault"]))


PROCTRUST = [
    "model of the parser and of the application behind its handlers (verus/proc.rs): what the application does next is an unknown function of what it has been told",
    "contracts of the string pools, converters, line normalisation, names and scanners as discharged by C05, C14, C06, C01 and C02",
]
APITRUST = [
    "model of the parser's input state (verus/api.rs): pointers into the buffer are indices, a null parser is one with `none` set",
    "contract of the processors (call_processor in verus/api.rs): they leave the buffer alone, use up a part of their text, report events inside it",
    "Vec::try_reserve_exact reserves exactly what it is asked for; copy_within, resize, copy_from_slice do what their documentation says",
]
POSF = ["getBuffer", "parseBuffer", "parse", "resumeParser"]
BUFS = ["getBuffer", "parseBuffer", "parse", "XML_Parse", "XML_ParseBuffer", "XML_GetBuffer"]
STATES = ["parseBuffer", "stopParser", "resumeParser", "XML_ResumeParser", "XML_StopParser", "XML_GetParsingStatus", "XML_SetParamEntityParsing"]
PROPS = {
    "C01": dict(
        title="Scanning never leaves the text, panics or stalls", drv="tokenizer-safety",
        proofs=[lambda: verus_proof("tok_safety", _tok("c01"), tok.SCAN + tok.TOP + tok.AUX, 120, smoke_fns(["contentTok", "scanLit", "prologTok"]))],
        native=[Native("tok", prop="tokenizer-safety")], trusted=TOKTRUST,
        assumptions=["the text is at most isize::MAX bytes; an ignored section at most i32::MAX bytes", "usize is 64 bits"]),
    "C02": dict(
        title="Tokens are those of the XML grammar", drv="tokenizer-grammar",
        proofs=[lambda: verus_proof("tok_grammar", _tok("c02"), tok.SCAN + tok.TOP, 150, smoke_fns(["contentTok", "scanAtts", "prologTok"]))],
        native=[Native("tok", prop="tokenizer-grammar")], trusted=TOKTRUST,
        assumptions=["the text is at most isize::MAX bytes", "usize is 64 bits"]),
    "C03": dict(
        title="What is reported does not depend on the division into pieces", drv="pieces",
        proofs=[lambda: verus_proof("tok_pieces", _pieces, tok.SCAN + tok.TOP, 240, smoke_fns(["contentTok", "prologTok"])),
                lambda: verus_proof("decl_detect", _decl(decl.NAMES + decl.DET), decl.DET, 250, smoke_fns(["initScan"])),
                lambda: verus_proof("api_pieces", _api(BUFS), BUFS, 31, smoke_fns(["getBuffer", "parse", "parseBuffer"])),
                proc_sections],
        native=[Native("parse", prop="pieces")], trusted=TOKTRUST + PROCTRUST + APITRUST,
        assumptions=["an encoding's answers depend on the bytes at the place only (its functions are given nothing else, C04), so a text that is moved has the same tokens",
                     "the processors of content, prolog and entities leave an unfinished token for the next piece (exercised; proved for sections)", C_ORACLE]),
    "C04": dict(
        title="Characters are those of XML 1.0 in every encoding", drv="encoding-classes",
        proofs=[lambda: kani_proof("enc_contract", "enc", ENC, ENCFNS)],
        native=[Native("tok", prop="encoding-classes")],
        trusted=["the port of the crate to Kani's toolchain (lib/kani.py): feature attributes dropped, two library functions renamed",
                 "reference classification native/refenc.rs and name tables native/names.rs (from the JDK's XML 1.0 tables)", "Kani/CBMC"],
        assumptions=["name tests are specified for well-formed sequences only (the scanners ask only then, C02)"]),
    "C06": dict(
        title="References to characters and predefined entities stand for the right text", drv="charrefs",
        proofs=[lambda: verus_proof("val_refs", _val(["charRefNumber", "predefinedEntityName"]), ["charRefNumber", "predefinedEntityName"], 100, smoke_fns(["charRefNumber", "predefinedEntityName"])),
                lambda: kani_proof("val_chars", "val", VALH, ["checkCharRefNumber", "XmlUtf8Encode", "XmlUtf16Encode"])],
        native=[Native("parse", prop="charrefs")], trusted=TOKTRUST + ["contract of checkCharRefNumber in the Verus text, discharged by value_check (Kani)"],
        assumptions=["charRefNumber is asked only for text the tokenizer reported as CHAR_REF (its result is C02's)", C_ORACLE]),
    "C12": dict(
        title="Line, column and byte positions are those of the text", drv="positions",
        proofs=[lambda: verus_proof("val_pos", _val(["updatePosition"]), ["updatePosition"], 90, smoke_fns(["updatePosition"])),
                lambda: verus_proof("api_pos", _api(api.POS + POSF), api.POS + POSF, 33, smoke_fns(api.POS))],
        native=[Native("parse", prop="positions")], trusted=TOKTRUST + APITRUST,
        assumptions=["the text between two positions holds complete characters (tokens and events end at character boundaries, C02)", "fewer than 2^64 lines and columns", C_ORACLE]),
    "C14": dict(
        title="Line ends, attribute values and public identifiers are normalised", drv="normalize",
        proofs=[lambda: verus_proof("norm_strings", _norm(), norm.FNS, 30, smoke_fns(norm.FNS)),
                lambda: verus_proof("val_pub", _val(["isPublicId"]), ["isPublicId"], 90, smoke_fns(["isPublicId"])),
                proc_sections],
        native=[Native("parse", prop="normalize")], trusted=TOKTRUST + PROCTRUST + ["model of a string rewritten in place (verus/heap.rs): one memory, pointers are indices"],
        assumptions=["the string is zero-terminated inside its memory (the callers store the zero)", C_ORACLE]),
    "C09": dict(
        title="The document type declaration follows the grammar", drv="prolog",
        proofs=[lambda: verus_proof("roles", _role, role.FNS, 230, smoke_fns(["doctype1", "attlist2", "element7", "externalSubset1"]))],
        native=[Native("parse", prop="prolog")], trusted=TOKTRUST + ["the state's function pointer becomes an enumeration of the state functions (text substitution)"],
        assumptions=["fewer than 2^32 - 1 groups and conditional sections are open at a time", "a token DECL_OPEN or POUND_NAME is as long as C02 says", C_ORACLE]),
    "C10": dict(
        title="All input reaches the parser once, in order, however it is handed over", drv="buffers",
        proofs=[lambda: verus_proof("api_buffers", _api(BUFS), BUFS, 31, smoke_fns(["getBuffer", "parse", "parseBuffer"]))],
        native=[Native("parse", prop="buffers")], trusted=APITRUST + ["the mechanical extraction", "vstd and the Verus/Z3 tool chain"],
        assumptions=["fewer than 2^63 bytes are handed over in all", "no input function is called from inside a handler", C_ORACLE]),
    "C11": dict(
        title="Stopping, suspending and resuming follow the parsing states and lose nothing", drv="states",
        proofs=[lambda: verus_proof("api_states", _api(STATES), STATES, 31, smoke_fns(["stopParser", "resumeParser", "parseBuffer"])),
                proc_sections],
        native=[Native("parse", prop="states")], trusted=APITRUST + PROCTRUST + ["the mechanical extraction", "vstd and the Verus/Z3 tool chain"],
        assumptions=["a resumable stop is asked for inside a handler only (as the interface demands)", C_ORACLE]),
    "C05": dict(
        title="Text reaches the application whole, in its own encoding", drv="text",
        proofs=[lambda: verus_proof("conv_text", _conv, conv.FNS, 90, smoke_fns(["Utf8_utf8Convert", "Little2_utf8Convert"])),
                lambda: verus_proof("pool_text", _pool, pool.FNS, 120, smoke_fns(["append", "copy_c_string_n"])),
                proc_sections],
        native=[Native("parse", prop="text")],
        trusted=TOKTRUST + PROCTRUST + ["model of bumpalo's vector (verus/pool.rs): capacity, growth and contents as its documentation says", "rental: the closure is applied to the pool's current string"],
        assumptions=["text handed to the converters was accepted by the scanners (C02), so UTF-8 has its trail bytes", C_ORACLE]),
    "C07": dict(
        title="The encoding of a document is found as XML prescribes", drv="encodings",
        proofs=[lambda: verus_proof("decl_enc", _decl(decl.NAMES + decl.DET), decl.NAMES + decl.DET, 250, smoke_fns(["initScan", "findEncoding"]))],
        native=[Native("parse", prop="encodings")],
        trusted=TOKTRUST + ["contracts of minBytesPerChar, nameMatchesAscii and utf8Convert as discharged by C04, C06 and C05", "the scanners called after the detection are uninterpreted (C01, C02)"],
        assumptions=["fewer than 2^63 bytes", C_ORACLE]),
    "C08": dict(
        title="XML declarations and text declarations are read as XML prescribes", drv="xmldecl",
        proofs=[lambda: verus_proof("decl_xml", _decl(decl.NAMES + decl.DECL), decl.DECL, 240, smoke_fns(["parsePseudoAttribute", "doParseXmlDecl"]))],
        native=[Native("parse", prop="xmldecl")],
        trusted=TOKTRUST + ["contracts of minBytesPerChar, nameMatchesAscii and utf8Convert as discharged by C04, C06 and C05"],
        assumptions=["the declaration was accepted by the scanners as a processing instruction (C02)", "an encoding named by the application agrees with ASCII on the characters of a declaration", C_ORACLE]),
    "C16": dict(
        title="An encoding described by the application works as described",
        proofs=[lambda: verus_proof("unk_encoding", _unk, unk.FNS, 200, smoke_fns(["initialize", "utf8Convert", "is_name_char"])),
                lambda: kani_proof("unk_tables", "val", ["value_latin1", "value_pages"], ["Latin1EncodingTable::types", "nmstrtPages", "namePages"])],
        native=[Native("parse", prop="unknown")],
        trusted=TOKTRUST + ["the application's conversion function is a function of the bytes of the character", "the tables of name characters mean what C04 establishes through the built-in encodings"],
        assumptions=["text handed to the converters was accepted by the scanners (C02)", "the application's table has 256 entries", C_ORACLE]),
    "C19": dict(
        title="Content models are handed over as they are declared",
        proofs=[lambda: verus_proof("models", _model, [("arm_" + k) if k in model.ARMS and not k.startswith("quant_") else k for k in model.FNS], 180, smoke_fns(["next_part", "build_model", "arm_CONTENT_ELEMENT", "arm_GROUP_CLOSE"]))],
        native=[Native("parse", prop="models")],
        trusted=["the extraction: syn-based, mechanical; match arms of doProlog become functions of what they use, a RefCell's borrow becomes the value",
                 "model of the memory for a content model (verus/model.rs): one block, nodes in front, characters behind", "model of the parser state the arms touch; a handler leaves the declaration being read alone",
                 "vstd and the Verus/Z3 tool chain"],
        assumptions=["names are zero-terminated strings kept until the parser is freed (C05)", "fewer than 2^60 bytes of names in one declaration", "the group level grows by one per group (C09)", C_ORACLE]),
}
