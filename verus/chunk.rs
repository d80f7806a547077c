// What more text changes about a token: nothing, once the token is recognised; data may be continued.
// (ext_* lemmas: made mechanically from verus/tokspec.rs, lib/chunk.py)

pub open spec fn sized<E: XmlEncodingImpl>(e: &E) -> bool { e.bpc() == 1 || e.bpc() == 2 }
// whole units lie between the two positions
pub open spec fn even<E: XmlEncodingImpl>(e: &E, a: int, b: int) -> bool { e.bpc() == 2 ==> (b - a) % 2 == 0 }

// ---- data: it ends where the text ends, or where it would end in longer text, or can be continued from its end
pub proof fn data_content<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, h2: int)
    requires sized(e), hi <= h2, i <= hi,
    ensures ({ let r = sp_content_more(e, m, i, hi); let r2 = sp_content_more(e, m, i, h2);
        &&& r.t == XML_TOK::INVALID || r.t == XML_TOK::DATA_CHARS
        &&& r.t == XML_TOK::INVALID ==> r2 == r && r.n > i
        &&& r.t == XML_TOK::DATA_CHARS ==> i <= r.n <= hi && even(e, i, r.n) && sp_content_more(e, m, r.n, h2) == r2 }),
    decreases hi - i,
{
    reveal(sp_content_more);
    e.law_lead(m, i);
    @sp_content_more:data_content@
}
pub proof fn data_cdata<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, h2: int)
    requires sized(e), hi <= h2, i <= hi,
    ensures ({ let r = sp_cdata_more(e, m, i, hi);
        r.t == XML_TOK::DATA_CHARS && i <= r.n <= hi && even(e, i, r.n) && sp_cdata_more(e, m, r.n, h2) == sp_cdata_more(e, m, i, h2) }),
    decreases hi - i,
{
    reveal(sp_cdata_more);
    e.law_lead(m, i);
    @sp_cdata_more:data_cdata@
}
pub proof fn data_space<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, h2: int)
    requires sized(e), hi <= h2, i <= hi,
    ensures ({ let r = sp_psp(e, m, i, hi);
        r.t == XML_TOK::PROLOG_S && i <= r.n <= hi && even(e, i, r.n) && sp_psp(e, m, r.n, h2) == sp_psp(e, m, i, h2) }),
    decreases hi - i,
{
    reveal(sp_psp);
    e.law_lead(m, i);
    @sp_psp:data_space@
}

// data continued from its end is one token again, and nothing else comes of it
pub proof fn rest_content<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int)
    requires sized(e), i <= whole_units(e, i, hi0),
    ensures ({ let r = sp_content_more(e, m, i, whole_units(e, i, hi0)); r.n > i ==> sp_content_tok(e, m, i, hi0) == r }),
{
    reveal(sp_content_more);
    reveal(sp_content_tok);
    e.law_lead(m, i);
    data_content(e, m, i, whole_units(e, i, hi0), hi0);
}
pub proof fn rest_cdata<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int)
    requires sized(e), i <= whole_units(e, i, hi0),
    ensures ({ let r = sp_cdata_more(e, m, i, whole_units(e, i, hi0)); r.n > i ==> sp_cdata_tok(e, m, i, hi0) == r }),
{
    reveal(sp_cdata_more);
    reveal(sp_cdata_tok);
    e.law_lead(m, i);
    data_cdata(e, m, i, whole_units(e, i, hi0), hi0);
}
pub proof fn rest_space<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int)
    requires sized(e), i <= whole_units(e, i, hi0),
    ensures ({ let r = sp_psp(e, m, i, whole_units(e, i, hi0)); r.n > i ==> sp_prolog_tok(e, m, i, hi0) == r }),
{
    reveal(sp_psp);
    reveal(sp_prolog_tok);
    e.law_lead(m, i);
}

// ---- the tokenizers: the same text with more behind it
pub open spec fn kept(r: R, r2: R, data: XML_TOK) -> bool { r.t.d() >= 0 && r.t != data ==> r2 == r }

pub proof fn more_content<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int, h20: int)
    requires sized(e), i <= hi0 <= h20,
    ensures ({ let r = sp_content_tok(e, m, i, hi0); let r2 = sp_content_tok(e, m, i, h20);
        &&& kept(r, r2, XML_TOK::DATA_CHARS)
        &&& r.t == XML_TOK::DATA_CHARS ==> i < r.n <= hi0 && (r2 == r || sp_content_tok(e, m, r.n, h20) == r2) }),
{
    reveal(sp_content_tok);
    e.law_lead(m, i);
    let r = sp_content_tok(e, m, i, hi0);
    let hi = whole_units(e, i, hi0);
    let h2 = whole_units(e, i, h20);
    if r.t.d() >= 0 { @sp_content_tok:more_content:data_content@ }
    if r.t == XML_TOK::DATA_CHARS { assert(r.n <= hi); rest_content(e, m, r.n, h20); data_content(e, m, r.n, h2, h2); }
}
pub proof fn more_cdata<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int, h20: int)
    requires sized(e), i <= hi0 <= h20,
    ensures ({ let r = sp_cdata_tok(e, m, i, hi0); let r2 = sp_cdata_tok(e, m, i, h20);
        &&& kept(r, r2, XML_TOK::DATA_CHARS)
        &&& r.t == XML_TOK::DATA_CHARS ==> i < r.n <= hi0 && (r2 == r || sp_cdata_tok(e, m, r.n, h20) == r2) }),
{
    reveal(sp_cdata_tok);
    e.law_lead(m, i);
    let r = sp_cdata_tok(e, m, i, hi0);
    let hi = whole_units(e, i, hi0);
    let h2 = whole_units(e, i, h20);
    if r.t.d() >= 0 { @sp_cdata_tok:more_cdata:data_cdata@ }
    if r.t == XML_TOK::DATA_CHARS { assert(r.n <= hi); rest_cdata(e, m, r.n, h20); data_cdata(e, m, r.n, h2, h2); }
}
pub proof fn more_prolog<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int, h20: int)
    requires sized(e), i <= hi0 <= h20,
    ensures ({ let r = sp_prolog_tok(e, m, i, hi0); let r2 = sp_prolog_tok(e, m, i, h20);
        &&& kept(r, r2, XML_TOK::PROLOG_S)
        &&& r.t == XML_TOK::PROLOG_S ==> i < r.n <= hi0 && (r2 == r || sp_prolog_tok(e, m, r.n, h20) == r2) }),
{
    reveal(sp_prolog_tok);
    e.law_lead(m, i);
    let r = sp_prolog_tok(e, m, i, hi0);
    let hi = whole_units(e, i, hi0);
    let h2 = whole_units(e, i, h20);
    if r.t.d() >= 0 { @sp_prolog_tok:more_prolog:data_space@ }
    if r.t == XML_TOK::PROLOG_S { assert(r.n <= hi); rest_space(e, m, r.n, h20); data_space(e, m, r.n, h2, h2); }
}
pub proof fn more_ignored<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int, h20: int)
    requires sized(e), i <= hi0 <= h20,
    ensures kept(sp_ignore_tok(e, m, i, hi0), sp_ignore_tok(e, m, i, h20), XML_TOK::NONE),
{
    reveal(sp_ignore_tok);
    if sp_ignore_tok(e, m, i, hi0).t.d() >= 0 { ext_ign(e, m, 0, i, whole_units(e, i, hi0), whole_units(e, i, h20)); }
}
