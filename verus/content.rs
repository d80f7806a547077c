// ---- content
// what the parts of content that are under contracts of their own change: the history, the depth, the processor, the tags and tables
pub struct World { pub log: Seq<Ev>, pub level: c_int, pub processor: Option<Proc>, pub in_cdata: bool, pub rest: int }
pub open spec fn world(p: Parser) -> World { World { log: p.log@, level: p.m_tagLevel, processor: p.m_processor, in_cdata: p.i_inCdata, rest: p.rest@ } }
pub open spec fn trailing(t: XML_TOK) -> bool { t == XML_TOK::TRAILING_CR || t == XML_TOK::TRAILING_RSQB }
pub open spec fn token_of_content(t: XML_TOK) -> bool {
    t == XML_TOK::DATA_NEWLINE || t == XML_TOK::DATA_CHARS || t == XML_TOK::COMMENT || t == XML_TOK::PI || t == XML_TOK::XML_DECL
        || t == XML_TOK::ENTITY_REF || t == XML_TOK::START_TAG_NO_ATTS || t == XML_TOK::START_TAG_WITH_ATTS || t == XML_TOK::EMPTY_ELEMENT_NO_ATTS || t == XML_TOK::EMPTY_ELEMENT_WITH_ATTS || t == XML_TOK::END_TAG
        || t == XML_TOK::CHAR_REF || t == XML_TOK::CDATA_SECT_OPEN
}
#[verifier::external_body]
pub fn content_tok(e: &Enc, s: XML_STATE, b: Buf, next: &mut Ptr) -> (r: XML_TOK)
    requires wf(b), s == XML_STATE::CONTENT,
    ensures (r, final(next).pos as int) == tokf(*e, s, b.mem@, b.lo as int, b.hi as int) || (!token_of_content(r) && r != XML_TOK::INVALID),
        r == tokf(*e, s, b.mem@, b.lo as int, b.hi as int).0,
        token_of_content(r) ==> final(next).mem == b.mem && b.lo < final(next).pos <= b.hi && token_text(e.e.kind, r, b.mem@, b.lo as int, final(next).pos as int),
        r == XML_TOK::INVALID ==> final(next).mem == b.mem && b.lo <= final(next).pos <= b.hi,
        r == XML_TOK::NONE <== b.lo == b.hi,
        s == XML_STATE::CONTENT && !token_of_content(r) ==> trailing(r) || r == XML_TOK::NONE || r == XML_TOK::INVALID || r == XML_TOK::PARTIAL || r == XML_TOK::PARTIAL_CHAR,
        trailing(r) ==> b.lo < b.hi && b.hi - b.lo <= 4 && chars(e.e.kind, b.mem@, b.lo as int, b.hi as int),
        !token_of_content(r) ==> *final(next) == *old(next) || (final(next).mem == b.mem && b.lo <= final(next).pos <= b.hi),
{ unimplemented!() }
// the rest
pub open spec fn steady(p: Parser, q: Parser) -> bool {
    fixed(q) == (Fixed { processor: q.m_processor, level: q.m_tagLevel, in_cdata: q.i_inCdata, rest: q.rest@, ..fixed(p) }) && inv(q)
}
pub struct COut { pub w: World, pub res: XML_Error, pub next: Option<int>, pub at: Option<int> }
pub open spec fn cout(w: World, res: XML_Error) -> COut { COut { w, res, next: None, at: None } }
// an element or an entity reference: None, and the content goes on behind it, or a result
pub uninterp spec fn arm_of(t: XML_TOK, e: Enc, internal: bool, m: Seq<i8>, lo: int, n: int, hi: int, more: bool, base: int, w: World) -> (World, Option<(XML_Error, Option<int>)>);
pub open spec fn arm_pre(p: Parser, t: XML_TOK, e: Enc, et: EncodingType, b: Buf, n: Ptr) -> bool {
    &&& wf(b) && b.lo <= b.hi && b.hi - b.lo <= i32::MAX && 0 < b.mem@.len() <= isize::MAX && inv(p) && callable(p) && p.m_tempPool.t@ == Seq::<i8>::empty()
    &&& t == tokf(e, XML_STATE::CONTENT, b.mem@, b.lo as int, b.hi as int).0 && e == enc_of(p, et)
    &&& ev_of(p, et).mem == b.mem && ev_of(p, et).pos == b.lo && end_of(p, et) == n
    &&& (if trailing(t) { b.lo < b.hi && b.hi - b.lo <= 4 && chars(e.e.kind, b.mem@, b.lo as int, b.hi as int) && n.mem == b.mem && b.lo <= n.pos <= b.hi }
        else { token_of_content(t) && n.mem == b.mem && b.lo < n.pos <= b.hi && n.pos == tokf(e, XML_STATE::CONTENT, b.mem@, b.lo as int, b.hi as int).1 && token_text(e.e.kind, t, b.mem@, b.lo as int, n.pos as int) })
}
pub open spec fn arm_did(s: Step, p: Parser, q: Parser, et: EncodingType, b: Buf, r: (Option<XML_Error>, Ptr), next: Ptr) -> bool {
    &&& steady(p, q) && q.m_tempPool.t@ == Seq::<i8>::empty() && world(q) == s.w && ordered(q, other(et))
    &&& (match s.done {
        Some(o) => world(q) == o.w && r.0 == Some(o.res) && (match o.next { Some(n) => next.mem == b.mem && next.pos == n, None => true }) && (match o.at { Some(n) => ev_of(q, et).mem == b.mem && ev_of(q, et).pos == n, None => true }),
        None => r.0.is_none() && r.1.mem == b.mem && r.1.pos == s.n && b.lo < s.n <= b.hi,
    })
}
#[verifier::external_body]
pub fn arm(t: XML_TOK, e: &Enc, et: EncodingType, parser: &mut Parser, b: Buf, n: Ptr, next: &mut Ptr, more: bool, base: c_int) -> (r: (Option<XML_Error>, Ptr))
    requires arm_pre(*old(parser), t, *e, et, b, n), element_or_entity(t),
    ensures arm_did(token(*e, et == EncodingType::Internal, b.mem@, b.lo as int, b.hi as int, more, base as int, world(*old(parser))), *old(parser), *final(parser), et, b, r, *final(next)),
{ unimplemented!() }
// a text of four bytes fits into the conversion buffer
pub fn convert_short(enc: &ENCODING, from: &mut Buf, v: &mut Arr, w: &mut Win) -> (r: XML_Convert_Result)
    requires
        !same8(enc.kind), chars(enc.kind, old(from).mem@, old(from).lo as int, old(from).hi as int), old(w).lo == 0, old(w).hi == old(v)@.len(), 4 * (old(from).hi - old(from).lo) <= old(v)@.len(),
    ensures
        final(v)@.len() == old(v)@.len(), final(w).hi == old(w).hi, final(w).lo <= old(w).hi, final(from).lo == final(from).hi, final(from).hi == old(from).hi, final(from).mem == old(from).mem,
        final(v)@.subrange(0, final(w).lo as int) == out8(enc.kind, old(from).mem@, old(from).lo as int, old(from).hi as int),
{
    let ghost f0 = *from;
    proof { whole_chars(enc.kind, f0); reveal(chars); out_len(enc.kind, f0.mem@, f0.lo as int, f0.hi as int); }
    let r = convert_arr(enc, from, v, w);
    r
}
pub proof fn token_is_chars(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World)
    requires tokf(e, XML_STATE::CONTENT, m, lo, hi).0 == XML_TOK::DATA_CHARS,
    ensures token(e, internal, m, lo, hi, more, base, w) == on(w, chars_log(e.e.kind, m, lo, tokf(e, XML_STATE::CONTENT, m, lo, hi).1, w.log, false), tokf(e, XML_STATE::CONTENT, m, lo, hi).1),
{ reveal(token); }
// the tokens that doContent itself deals with
pub proof fn token_in_place(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World)
    ensures ({
        let s = token(e, internal, m, lo, hi, more, base, w);
        let (t, n) = tokf(e, XML_STATE::CONTENT, m, lo, hi);
        let stay = stop(COut { next: Some(lo), ..cout(w, XML_Error::NONE) });
        let r = if base > 0 { balanced(w.level, base) } else { XML_Error::NO_ELEMENTS };
        &&& t == XML_TOK::NONE || t == XML_TOK::PARTIAL || t == XML_TOK::PARTIAL_CHAR ==> (more ==> s == stay)
        &&& t == XML_TOK::NONE && !more ==> s == stop(COut { next: if r == XML_Error::NONE { Some(lo) } else { None }, at: Some(lo), ..cout(w, r) })
        &&& t == XML_TOK::INVALID ==> s == stop(COut { at: Some(n), ..cout(w, XML_Error::INVALID_TOKEN) })
        &&& t == XML_TOK::PARTIAL && !more ==> s == stop(COut { at: Some(lo), ..cout(w, XML_Error::UNCLOSED_TOKEN) })
        &&& t == XML_TOK::PARTIAL_CHAR && !more ==> s == stop(COut { at: Some(lo), ..cout(w, XML_Error::PARTIAL_CHAR) })
        &&& t == XML_TOK::XML_DECL ==> s == stop(COut { at: Some(lo), ..cout(w, XML_Error::MISPLACED_XML_PI) })
        &&& t == XML_TOK::PI ==> s == on(w, pi_log(e.e.kind, m, lo, n, w.log), n)
        &&& t == XML_TOK::COMMENT ==> s == on(w, comment_log(e.e.kind, m, lo, n, w.log), n)

    }),
{ reveal(token); }
pub uninterp spec fn charref(k: Kind, m: Seq<i8>, i: int) -> int;
pub open spec fn element_or_entity(t: XML_TOK) -> bool {
    t == XML_TOK::ENTITY_REF || t == XML_TOK::START_TAG_NO_ATTS || t == XML_TOK::START_TAG_WITH_ATTS || t == XML_TOK::EMPTY_ELEMENT_NO_ATTS || t == XML_TOK::EMPTY_ELEMENT_WITH_ATTS || t == XML_TOK::END_TAG
}
// the end of the text is reached and nothing is left open but what was open at its beginning
pub open spec fn balanced(level: c_int, base: int) -> XML_Error {
    if base == 0 { XML_Error::NO_ELEMENTS } else if level != base { XML_Error::ASYNC_ENTITY } else { XML_Error::NONE }
}
#[verifier::opaque]
pub open spec fn content(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World) -> COut
    decreases if lo < hi { hi - lo } else { 0 }
{
    let s = token(e, internal, m, lo, hi, more, base, w);
    match s.done {
        Some(o) => o,
        None => if app_status(s.w.log) == XML_Parsing::SUSPENDED { COut { next: Some(s.n), at: Some(s.n), ..cout(s.w, XML_Error::NONE) } }
            else if app_status(s.w.log) == XML_Parsing::FINISHED { cout(s.w, XML_Error::ABORTED) }
            else if lo < s.n && s.n <= hi { content(e, internal, m, s.n, hi, more, base, s.w) }
            else { cout(s.w, XML_Error::NONE) },
    }
}
pub open spec fn content_step(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World) -> COut
{
    let s = token(e, internal, m, lo, hi, more, base, w);
    match s.done {
        Some(o) => o,
        None => if app_status(s.w.log) == XML_Parsing::SUSPENDED { COut { next: Some(s.n), at: Some(s.n), ..cout(s.w, XML_Error::NONE) } }
            else if app_status(s.w.log) == XML_Parsing::FINISHED { cout(s.w, XML_Error::ABORTED) }
            else if lo < s.n && s.n <= hi { content(e, internal, m, s.n, hi, more, base, s.w) }
            else { cout(s.w, XML_Error::NONE) },
    }
}
pub proof fn content_at(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World)
    ensures content(e, internal, m, lo, hi, more, base, w) == content_step(e, internal, m, lo, hi, more, base, w),
{ reveal_with_fuel(content, 2); }
// one token of content: what it does to the world, where the text goes on, or the result
pub struct Step { pub w: World, pub n: int, pub done: Option<COut> }
pub open spec fn on(w: World, log: Seq<Ev>, n: int) -> Step { Step { w: World { log, ..w }, n, done: None } }
pub open spec fn stop(o: COut) -> Step { Step { w: o.w, n: 0, done: Some(o) } }
#[verifier::opaque]
pub open spec fn token(e: Enc, internal: bool, m: Seq<i8>, lo: int, hi: int, more: bool, base: int, w: World) -> Step {
    let (t, n) = tokf(e, XML_STATE::CONTENT, m, lo, hi);
    let k = e.e.kind;
    if (t == XML_TOK::TRAILING_CR || t == XML_TOK::TRAILING_RSQB || t == XML_TOK::NONE || t == XML_TOK::PARTIAL || t == XML_TOK::PARTIAL_CHAR) && more {
        stop(COut { next: Some(lo), ..cout(w, XML_Error::NONE) })
    } else if t == XML_TOK::TRAILING_CR || t == XML_TOK::TRAILING_RSQB {
        let w2 = World { log: chars_log(k, m, lo, hi, w.log, t == XML_TOK::TRAILING_CR), ..w };
        let r = balanced(w.level, base);
        stop(COut { next: if r == XML_Error::NONE { Some(hi) } else { None }, at: if r != XML_Error::NONE && t == XML_TOK::TRAILING_RSQB { Some(hi) } else { None }, ..cout(w2, r) })
    } else if t == XML_TOK::NONE {
        let r = if base > 0 { balanced(w.level, base) } else { XML_Error::NO_ELEMENTS };
        stop(COut { next: if r == XML_Error::NONE { Some(lo) } else { None }, at: Some(lo), ..cout(w, r) })
    }
    else if t == XML_TOK::INVALID { stop(COut { at: Some(n), ..cout(w, XML_Error::INVALID_TOKEN) }) }
    else if t == XML_TOK::PARTIAL { stop(COut { at: Some(lo), ..cout(w, XML_Error::UNCLOSED_TOKEN) }) }
    else if t == XML_TOK::PARTIAL_CHAR { stop(COut { at: Some(lo), ..cout(w, XML_Error::PARTIAL_CHAR) }) }
    else if t == XML_TOK::XML_DECL { stop(COut { at: Some(lo), ..cout(w, XML_Error::MISPLACED_XML_PI) }) }
    else if element_or_entity(t) {
        let (w2, x) = arm_of(t, e, internal, m, lo, n, hi, more, base, w);
        match x { Some(y) => stop(COut { next: y.1, ..cout(w2, y.0) }), None => Step { w: w2, n, done: None } }
    }
    else if t == XML_TOK::CHAR_REF {
        let c = charref(k, m, lo);
        if c < 0 { stop(COut { at: Some(lo), ..cout(w, XML_Error::BAD_CHAR_REF) }) }
        else { on(w, if app_flags(w.log).chars { w.log + texts(What::Chars, enc8(c as u32)) } else { defaulted(k, m, lo, n, w.log) }, n) }
    }
    else if t == XML_TOK::DATA_NEWLINE || t == XML_TOK::DATA_CHARS { on(w, chars_log(k, m, lo, n, w.log, t == XML_TOK::DATA_NEWLINE), n) }
    else if t == XML_TOK::PI { on(w, pi_log(k, m, lo, n, w.log), n) }
    else if t == XML_TOK::COMMENT { on(w, comment_log(k, m, lo, n, w.log), n) }
    else if t == XML_TOK::CDATA_SECT_OPEN {
        let l = if app_flags(w.log).start_cdata { w.log.push(Ev::StartCdata) } else { defaulted(k, m, lo, n, w.log) };
        let o = cdata(e, m, n, hi, more, l);
        let w2 = World { log: o.log, ..w };
        if o.res != XML_Error::NONE { stop(COut { w: w2, res: o.res, next: None, at: o.at }) }
        else {
            match o.rest {
                Some(i) => Step { w: w2, n: i, done: None },
                None => stop(COut { next: o.next, ..cout(if internal { World { in_cdata: true, ..w2 } } else { World { processor: Some(Proc::cdataSectionProcessor), ..w2 } }, XML_Error::NONE) }),
            }
        }
    }
    else { on(w, defaulted(k, m, lo, n, w.log), n) }
}
pub open spec fn content_did(o: COut, p: Parser, q: Parser, t: EncodingType, b: Buf, next: Ptr, r: XML_Error) -> bool {
    &&& world(q) == o.w && r == o.res
    &&& (match o.next { Some(n) => next.mem == b.mem && next.pos == n, None => true })
    &&& (match o.at { Some(n) => ev_of(q, t).mem == b.mem && ev_of(q, t).pos == n, None => true })
    &&& steady(p, q)
}
pub fn map_ptr(b: Option<Buf>) -> (r: Ptr) ensures b.is_some() ==> r.mem == b->0.mem && r.pos == b->0.lo, b.is_none() ==> pnull(r), { match b { Some(x) => x.as_ptr(), None => null() } }
pub fn char_buf() -> (r: Arr) { Arr::zeroed(4) }
// (C06)
#[verifier::external_body]
pub fn xml_encode(n: c_int, v: &mut Arr) -> (r: c_int)
    requires 0 <= n <= 0x10ffff,
    ensures 0 < r <= 4, final(v)@.len() == 4, final(v)@.subrange(0, r as int) == enc8(n as u32),
{ unimplemented!() }
impl Enc {
    // (C06)
    #[verifier::external_body]
    pub fn charRefNumber(&self, b: Buf) -> (r: c_int)
        requires wf(b),
        ensures r == charref(self.e.kind, b.mem@, b.lo as int), r <= 0x10ffff,
    { unimplemented!() }
}
impl Arr { pub fn first(&self, n: usize) -> (r: Buf) requires n <= self@.len(), ensures r.mem@ == self@, r.lo == 0, r.hi == n, { Buf { mem: Ghost(self.v@), lo: 0, hi: n } } }
#[verifier::external_body]
pub fn h_startCDataSection(p: &mut Parser) -> (r: bool)
    requires callable(*old(p)),
    ensures r == app_flags(old(p).log@).start_cdata, told(*old(p), *final(p), if r { old(p).log@.push(Ev::StartCdata) } else { old(p).log@ }), !r ==> *final(p) == *old(p),
{ unimplemented!() }
