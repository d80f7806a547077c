// The parser as its processors see it: one encoding per text, two pairs of event pointers, string
// pools, the status, and the application behind the handlers. What the application has been told is
// the ghost history `log`; what it does next - which handlers it has set, whether it has stopped or
// suspended the parser - is an unknown function of that history.
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum EncId { Of(EncP), Init(i32, bool), Unknown, Other(usize) }
#[derive(Clone, Copy)]
pub struct Enc { pub e: ENCODING, pub id: EncId }
impl Enc {
    #[verifier::external_body]
    pub fn minBytesPerChar(&self) -> (r: c_int) ensures r == step(self.e.kind), { unimplemented!() }
    // (C05: the converter of such an encoding copies)
    #[verifier::external_body]
    pub fn isUtf8(&self) -> (r: bool) ensures r == same8(self.e.kind), { unimplemented!() }
    // (C06)
    #[verifier::external_body]
    pub fn nameLength(&self, p: Ptr) -> (r: c_int) ensures r == name_stop(self.e.kind, p.mem@, p.pos as int) - p.pos, { unimplemented!() }
    #[verifier::external_body]
    pub fn skipS(&self, p: Ptr) -> (r: Ptr) ensures r.mem == p.mem, r.pos == blank_stop(self.e.kind, p.mem@, p.pos as int), { unimplemented!() }
}
pub uninterp spec fn name_stop(k: Kind, m: Seq<i8>, i: int) -> int;
pub uninterp spec fn blank_stop(k: Kind, m: Seq<i8>, i: int) -> int;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum EncodingType { Normal, Internal }
impl EncodingType { pub fn is_internal(&self) -> (r: bool) ensures r == (*self == EncodingType::Internal), { *self == EncodingType::Internal } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Slot { Null, Event, EventEnd, IntEvent, IntEventEnd }
pub fn slot_null() -> (r: Slot) ensures r == Slot::Null, { Slot::Null }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Proc { PROCS }

// ---- the application
pub enum What { Chars, Default }
pub enum Ev { Text(What, i8), Comment(Seq<i8>), Pi(Seq<i8>, Seq<i8>), EndCdata, StartCdata, XmlDecl(Option<Seq<i8>>, Option<Seq<i8>>, int), Unknown(Seq<i8>), Release(int), Ran(Proc, int, int) }
pub struct Flags { pub chars: bool, pub default: bool, pub comment: bool, pub pi: bool, pub end_cdata: bool, pub start_cdata: bool, pub xml_decl: bool, pub unknown: bool }
pub uninterp spec fn app_flags(log: Seq<Ev>) -> Flags;
pub uninterp spec fn app_status(log: Seq<Ev>) -> XML_Parsing;
pub open spec fn texts(w: What, s: Seq<i8>) -> Seq<Ev> { Seq::new(s.len(), |i: int| Ev::Text(w, s[i])) }
pub proof fn texts_join(w: What, a: Seq<i8>, b: Seq<i8>)
    ensures texts(w, a) + texts(w, b) == texts(w, a + b),
{ assert(texts(w, a) + texts(w, b) =~= texts(w, a + b)); }
pub struct StringPool { pub t: Ghost<Seq<i8>> }
#[derive(Clone, Copy)]
pub struct Str { pub t: Ghost<Seq<i8>> }
impl Str { pub fn as_ptr(&self) -> (r: Ptr) ensures r.mem@ == self.t@, r.pos == 0, { Ptr { mem: self.t, pos: 0 } } }
// (C05: string_pool.rs)
impl StringPool {
    #[verifier::external_body]
    pub fn store_c_string(&mut self, enc: &Enc, b: Buf) -> (r: bool)
        requires wf(b), readable(enc.e.kind, b),
        ensures r && whole(enc.e.kind, b) ==> final(self).t@ == (old(self).t@ + out_of(enc.e.kind, b)).push(0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_string_cells(&mut self) -> (r: Str) ensures r.t@ == old(self).t@, final(self).t@ == Seq::<i8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_string(&mut self) -> (r: Str) ensures r.t@ == old(self).t@, final(self).t@ == Seq::<i8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).t@ == Seq::<i8>::empty(), { unimplemented!() }
    // current_mut_slice lends the string that is being built
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Arr) ensures r@ == old(self).t@, final(self).t@ == old(self).t@, { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, a: Arr) requires a@.len() == old(self).t@.len(), ensures final(self).t@ == a@, { unimplemented!() }
}
impl Arr { pub fn as_ptr(&self) -> (r: Ptr) ensures r.mem@ == self@, r.pos == 0, { self.ptr() } }
// a C string
pub open spec fn cs(m: Seq<i8>, i: int) -> Seq<i8> { m.subrange(i, zlen(m, i)) }
pub open spec fn lines(s: Seq<i8>) -> Seq<i8> { nlines(s, 0, zlen(s, 0), Seq::empty()) }
// (C12: normalizeLines)
#[verifier::external_body]
pub fn normalizeLines(s: &mut Arr)
    requires zlen(old(s)@, 0) < old(s)@.len(),
    ensures final(s)@.len() == old(s)@.len(), lines(old(s)@).len() < final(s)@.len(), final(s)@.subrange(0, lines(old(s)@).len() as int) == lines(old(s)@), final(s)@[lines(old(s)@).len() as int] == 0,
{ unimplemented!() }
#[derive(Clone, Copy)]
pub struct XML_ParsingStatus { pub parsing: XML_Parsing, pub finalBuffer: bool }
pub struct Parser {
    pub m_eventPtr: Ptr, pub m_eventEndPtr: Ptr, pub i_eventPtr: Ptr, pub i_eventEndPtr: Ptr,
    pub m_encoding: Enc, pub m_internalEncoding: Enc, pub m_ns: bool, pub m_protocolEncodingName: Ptr,
    pub dtd_standalone: bool, pub m_paramEntityParsing: XML_ParamEntityParsing, pub m_parsingStatus: XML_ParsingStatus,
    pub m_processor: Option<Proc>, pub m_tagLevel: c_int, pub is_child_parser: bool, pub i_inCdata: bool, pub rest: Ghost<int>, pub m_dataBuf: Arr, pub m_tempPool: StringPool, pub m_temp2Pool: StringPool,
    pub log: Ghost<Seq<Ev>>,
}
impl Parser {
    pub fn encoding(&self, t: EncodingType) -> (r: Enc) ensures r == enc_of(*self, t), { if t.is_internal() { self.m_internalEncoding } else { self.m_encoding } }
    pub fn set_slot(&mut self, s: Slot, p: Ptr)
        requires s != Slot::Null,
        ensures same_but_slots(*old(self), *final(self)),
            final(self).m_eventPtr == (if s == Slot::Event { p } else { old(self).m_eventPtr }), final(self).m_eventEndPtr == (if s == Slot::EventEnd { p } else { old(self).m_eventEndPtr }),
            final(self).i_eventPtr == (if s == Slot::IntEvent { p } else { old(self).i_eventPtr }), final(self).i_eventEndPtr == (if s == Slot::IntEventEnd { p } else { old(self).i_eventEndPtr }),
    { match s { Slot::Event => { self.m_eventPtr = p; } Slot::EventEnd => { self.m_eventEndPtr = p; } Slot::IntEvent => { self.i_eventPtr = p; } _ => { self.i_eventEndPtr = p; } } }
}
// what the section processors and the application leave alone
pub struct Fixed { pub enc: Enc, pub int: Enc, pub ns: bool, pub protocol: Ptr, pub standalone: bool, pub pe: XML_ParamEntityParsing, pub last: bool, pub processor: Option<Proc>, pub level: c_int, pub child: bool, pub in_cdata: bool, pub rest: int }
pub open spec fn fixed(p: Parser) -> Fixed {
    Fixed { enc: p.m_encoding, int: p.m_internalEncoding, ns: p.m_ns, protocol: p.m_protocolEncodingName, standalone: p.dtd_standalone, pe: p.m_paramEntityParsing, last: p.m_parsingStatus.finalBuffer, processor: p.m_processor, level: p.m_tagLevel, child: p.is_child_parser, in_cdata: p.i_inCdata, rest: p.rest@ }
}
pub open spec fn same_but_slots(p: Parser, q: Parser) -> bool {
    fixed(q) == fixed(p) && q.log == p.log && q.m_parsingStatus == p.m_parsingStatus && q.m_dataBuf == p.m_dataBuf && q.m_tempPool == p.m_tempPool && q.m_temp2Pool == p.m_temp2Pool
}
pub open spec fn enc_of(p: Parser, t: EncodingType) -> Enc { if t == EncodingType::Internal { fixed(p).int } else { fixed(p).enc } }
pub open spec fn ev_of(p: Parser, t: EncodingType) -> Ptr { if t == EncodingType::Internal { p.i_eventPtr } else { p.m_eventPtr } }
pub open spec fn end_of(p: Parser, t: EncodingType) -> Ptr { if t == EncodingType::Internal { p.i_eventEndPtr } else { p.m_eventEndPtr } }
pub open spec fn other(t: EncodingType) -> EncodingType { if t == EncodingType::Internal { EncodingType::Normal } else { EncodingType::Internal } }
pub open spec fn pnull(p: Ptr) -> bool { p.mem@.len() == 0 }
// the two ends of an event are in order: what the position functions (C10, C12) rely on in a handler
pub open spec fn in_order(a: Ptr, b: Ptr) -> bool { pnull(a) || pnull(b) || (a.mem == b.mem && a.pos <= b.pos) }
pub open spec fn ordered(p: Parser, t: EncodingType) -> bool { in_order(ev_of(p, t), end_of(p, t)) }
pub open spec fn callable(p: Parser) -> bool { ordered(p, EncodingType::Normal) && ordered(p, EncodingType::Internal) }
pub open spec fn inv(p: Parser) -> bool { p.m_dataBuf@.len() == 1024 && p.m_parsingStatus.parsing == app_status(p.log@) }
// what a handler can change while a callback runs: its handlers and the status (both are functions of the history), and,
// through XML_DefaultCurrent, the start of the event and the conversion buffer
pub open spec fn moved_on(a: Ptr, b: Ptr, end: Ptr) -> bool { b == a || (!pnull(a) && !pnull(end) && b.mem == a.mem && a.pos <= b.pos <= end.pos) }
pub open spec fn told(p: Parser, q: Parser, log: Seq<Ev>) -> bool {
    &&& fixed(q) == fixed(p) && q.log@ == log && q.m_parsingStatus.parsing == app_status(log) && q.m_tempPool == p.m_tempPool && q.m_temp2Pool == p.m_temp2Pool
    &&& q.m_eventEndPtr == p.m_eventEndPtr && q.i_eventEndPtr == p.i_eventEndPtr
    &&& q.m_dataBuf@.len() == p.m_dataBuf@.len()
    &&& moved_on(p.m_eventPtr, q.m_eventPtr, p.m_eventEndPtr) && moved_on(p.i_eventPtr, q.i_eventPtr, p.i_eventEndPtr)
}
pub fn h_hasCharacterData(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).chars, { flag(p, 0) }
pub fn h_hasDefault(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).default, { flag(p, 1) }
pub fn h_hasComment(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).comment, { flag(p, 2) }
pub fn h_hasProcessingInstruction(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).pi, { flag(p, 3) }
pub fn h_hasXmlDecl(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).xml_decl, { flag(p, 4) }
pub fn h_hasUnknownEncoding(p: &Parser) -> (r: bool) ensures r == app_flags(p.log@).unknown, { flag(p, 5) }
#[verifier::external_body]
pub fn flag(p: &Parser, n: i32) -> (r: bool)
    ensures n == 0 ==> r == app_flags(p.log@).chars, n == 1 ==> r == app_flags(p.log@).default, n == 2 ==> r == app_flags(p.log@).comment,
        n == 3 ==> r == app_flags(p.log@).pi, n == 4 ==> r == app_flags(p.log@).xml_decl, n == 5 ==> r == app_flags(p.log@).unknown,
{ unimplemented!() }
// text is reported in parts; a part is not lost when the handler is unset between two of them (there is no handler then)
#[verifier::external_body]
pub fn h_default(at: Ptr, n: c_int, p: &mut Parser) -> (r: bool)
    requires callable(*old(p)), n >= 0, at.pos + n <= at.mem@.len(),
    ensures r == app_flags(old(p).log@).default, told(*old(p), *final(p), old(p).log@ + texts(What::Default, at.mem@.subrange(at.pos as int, at.pos + n))),
{ unimplemented!() }
#[verifier::external_body]
pub fn h_characterData(b: Buf, p: &mut Parser) -> (r: bool)
    requires callable(*old(p)), wf(b), b.hi - b.lo <= i32::MAX,
    ensures r == app_flags(old(p).log@).chars, told(*old(p), *final(p), old(p).log@ + texts(What::Chars, b.mem@.subrange(b.lo as int, b.hi as int))),
{ unimplemented!() }
#[verifier::external_body]
pub fn h_comment(s: Ptr, p: &mut Parser) -> (r: bool)
    requires callable(*old(p)), s.pos <= zlen(s.mem@, s.pos as int) < s.mem@.len(),
    ensures r == app_flags(old(p).log@).comment, told(*old(p), *final(p), if r { old(p).log@.push(Ev::Comment(cs(s.mem@, s.pos as int))) } else { old(p).log@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn h_processingInstruction(s: Ptr, d: Ptr, p: &mut Parser) -> (r: bool)
    requires callable(*old(p)), s.pos <= zlen(s.mem@, s.pos as int) < s.mem@.len(), d.pos <= zlen(d.mem@, d.pos as int) < d.mem@.len(),
    ensures r == app_flags(old(p).log@).pi, told(*old(p), *final(p), if r { old(p).log@.push(Ev::Pi(cs(s.mem@, s.pos as int), cs(d.mem@, d.pos as int))) } else { old(p).log@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn h_endCDataSection(p: &mut Parser) -> (r: bool)
    requires callable(*old(p)),
    ensures r == app_flags(old(p).log@).end_cdata, told(*old(p), *final(p), if r { old(p).log@.push(Ev::EndCdata) } else { old(p).log@ }), !r ==> *final(p) == *old(p),
{ unimplemented!() }
pub fn win_all(a: &Arr) -> (r: Win) requires a@.len() <= i32::MAX, ensures r.lo == 0, r.hi == a@.len(), { Win { lo: 0, hi: a.v.len() } }
pub fn win_ptr(a: &Arr, w: &Win) -> (r: Ptr) ensures r.mem@ == a@, r.pos == w.lo, { Ptr { mem: Ghost(a.v@), pos: w.lo } }
pub fn span(a: Ptr, b: Ptr) -> (r: Buf) requires a.mem == b.mem, ensures r.mem == a.mem, r.lo == a.pos, r.hi == b.pos, { Buf { mem: a.mem, lo: a.pos, hi: b.pos } }
pub fn one(c: i8) -> (r: Buf) ensures r.mem@ == seq![c], r.lo == 0, r.hi == 1, r.mem@.subrange(0, 1) == seq![c], { let ghost m = seq![c]; proof { assert(m.subrange(0, 1) =~= m); } Buf { mem: Ghost(m), lo: 0, hi: 1 } }
pub fn none_of() -> (r: Buf) ensures r.mem@ == Seq::<i8>::empty(), r.lo == 0, r.hi == 0, { Buf { mem: Ghost(Seq::empty()), lo: 0, hi: 0 } }
pub trait VInto<T> { spec fn fits(&self) -> bool; spec fn val(&self) -> T; fn vinto(self) -> (r: T) where Self: Sized requires self.fits(), ensures r == self.val(); }
impl VInto<i32> for usize { open spec fn fits(&self) -> bool { *self <= i32::MAX } open spec fn val(&self) -> i32 { *self as i32 } fn vinto(self) -> (r: i32) { self as i32 } }
impl VInto<isize> for usize { open spec fn fits(&self) -> bool { *self <= isize::MAX } open spec fn val(&self) -> isize { *self as isize } fn vinto(self) -> (r: isize) { self as isize } }
impl VInto<i32> for isize { open spec fn fits(&self) -> bool { i32::MIN <= *self <= i32::MAX } open spec fn val(&self) -> i32 { *self as i32 } fn vinto(self) -> (r: i32) { self as i32 } }

// ---- tokens (C01, C02: the scanners return whole tokens inside the text, the same for the same text)
pub uninterp spec fn tokf(e: Enc, s: XML_STATE, m: Seq<i8>, lo: int, hi: int) -> (XML_TOK, int);
pub open spec fn finished(t: XML_TOK) -> bool {
    t == XML_TOK::CDATA_SECT_CLOSE || t == XML_TOK::DATA_NEWLINE || t == XML_TOK::DATA_CHARS || t == XML_TOK::IGNORE_SECT || t == XML_TOK::COMMENT || t == XML_TOK::PI || t == XML_TOK::XML_DECL || t == XML_TOK::PROLOG_S || t == XML_TOK::BOM
}
#[verifier::external_body]
pub fn xml_tok(e: &Enc, s: XML_STATE, b: Buf, next: &mut Ptr) -> (r: XML_TOK)
    requires wf(b),
    ensures (r, final(next).pos as int) == tokf(*e, s, b.mem@, b.lo as int, b.hi as int) || (!finished(r) && r != XML_TOK::INVALID),
        r == tokf(*e, s, b.mem@, b.lo as int, b.hi as int).0,
        finished(r) ==> final(next).mem == b.mem && b.lo < final(next).pos <= b.hi && token_text(e.e.kind, r, b.mem@, b.lo as int, final(next).pos as int),
        r == XML_TOK::INVALID ==> final(next).mem == b.mem && b.lo <= final(next).pos <= b.hi,
        r == XML_TOK::NONE <== b.lo == b.hi,
        !finished(r) ==> *final(next) == *old(next) || (final(next).mem == b.mem && b.lo <= final(next).pos <= b.hi),
{ unimplemented!() }
// a text of whole characters
#[verifier::opaque]
pub open spec fn chars(k: Kind, m: Seq<i8>, i: int, j: int) -> bool {
    &&& 0 <= i <= j <= m.len() <= isize::MAX && j - i <= i32::MAX
    &&& bound(k, m, i, j) && (is16(k) ==> (j - i) % 2 == 0) && (k == Kind::Utf8 ==> wf8(m, i, j))
}
pub open spec fn token_text(k: Kind, t: XML_TOK, m: Seq<i8>, i: int, j: int) -> bool {
    let s = step(k);
    &&& chars(k, m, i, j)
    &&& (t == XML_TOK::COMMENT ==> i + 4 * s <= j - 3 * s && chars(k, m, i + 4 * s, j - 3 * s))
    &&& (t == XML_TOK::PI ==> ({
        let a = i + 2 * s;
        let b = name_stop(k, m, a);
        let c = blank_stop(k, m, b);
        a <= b <= c <= j - 2 * s && b - a <= i32::MAX && chars(k, m, a, b) && chars(k, m, c, j - 2 * s)
    }))
}
pub open spec fn comment_of(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8> { lines(out8(k, m, i + 4 * step(k), j - 3 * step(k)).push(0)) }
pub open spec fn target_of(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8> { let s = out8(k, m, i + 2 * step(k), name_stop(k, m, i + 2 * step(k))).push(0); cs(s, 0) }
pub open spec fn data_of(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8> { lines(out8(k, m, blank_stop(k, m, name_stop(k, m, i + 2 * step(k))), j - 2 * step(k)).push(0)) }
// what the default handler gets
pub open spec fn defaulted(k: Kind, m: Seq<i8>, i: int, j: int, log: Seq<Ev>) -> Seq<Ev> { if app_flags(log).default { log + texts(What::Default, out8(k, m, i, j)) } else { log } }
pub open spec fn comment_log(k: Kind, m: Seq<i8>, i: int, j: int, log: Seq<Ev>) -> Seq<Ev> { if app_flags(log).comment { log.push(Ev::Comment(comment_of(k, m, i, j))) } else { defaulted(k, m, i, j, log) } }
pub open spec fn pi_log(k: Kind, m: Seq<i8>, i: int, j: int, log: Seq<Ev>) -> Seq<Ev> { if app_flags(log).pi { log.push(Ev::Pi(target_of(k, m, i, j), data_of(k, m, i, j))) } else { defaulted(k, m, i, j, log) } }
pub open spec fn chars_log(k: Kind, m: Seq<i8>, i: int, j: int, log: Seq<Ev>, newline: bool) -> Seq<Ev> {
    if app_flags(log).chars { log + texts(What::Chars, if newline { seq![10i8] } else { out8(k, m, i, j) }) } else { defaulted(k, m, i, j, log) }
}
// ---- sections
pub struct Out { pub log: Seq<Ev>, pub res: XML_Error, pub rest: Option<int>, pub next: Option<int>, pub at: Option<int> }
pub open spec fn after(log: Seq<Ev>) -> XML_Error { if app_status(log) == XML_Parsing::FINISHED { XML_Error::ABORTED } else { XML_Error::NONE } }
pub open spec fn out(log: Seq<Ev>, res: XML_Error) -> Out { Out { log, res, rest: None, next: None, at: None } }
#[verifier::opaque]
pub open spec fn cdata(e: Enc, m: Seq<i8>, lo: int, hi: int, more: bool, log: Seq<Ev>) -> Out
    decreases if lo < hi { hi - lo } else { 0 }
{
    let (t, n) = tokf(e, XML_STATE::CDATA_SECTION, m, lo, hi);
    let k = e.e.kind;
    if t == XML_TOK::CDATA_SECT_CLOSE {
        let l = if app_flags(log).end_cdata { log.push(Ev::EndCdata) } else { defaulted(k, m, lo, n, log) };
        Out { rest: Some(n), next: Some(n), ..out(l, after(l)) }
    } else if t == XML_TOK::DATA_NEWLINE || t == XML_TOK::DATA_CHARS {
        let l = chars_log(k, m, lo, n, log, t == XML_TOK::DATA_NEWLINE);
        if app_status(l) == XML_Parsing::SUSPENDED { Out { next: Some(n), ..out(l, XML_Error::NONE) } }
        else if app_status(l) == XML_Parsing::FINISHED { out(l, XML_Error::ABORTED) }
        else if lo < n && n <= hi { cdata(e, m, n, hi, more, l) }
        else { out(l, XML_Error::NONE) }
    }
    else if t == XML_TOK::INVALID { Out { at: Some(n), ..out(log, XML_Error::INVALID_TOKEN) } }
    else if (t == XML_TOK::PARTIAL_CHAR || t == XML_TOK::PARTIAL || t == XML_TOK::NONE) && more { Out { next: Some(lo), ..out(log, XML_Error::NONE) } }
    else if t == XML_TOK::PARTIAL_CHAR { Out { at: Some(lo), ..out(log, XML_Error::PARTIAL_CHAR) } }
    else if t == XML_TOK::PARTIAL || t == XML_TOK::NONE { Out { at: Some(lo), ..out(log, XML_Error::UNCLOSED_CDATA_SECTION) } }
    else { out(log, XML_Error::UNEXPECTED_STATE) }
}
pub open spec fn cdata_step(e: Enc, m: Seq<i8>, lo: int, hi: int, more: bool, log: Seq<Ev>) -> Out
{
    let (t, n) = tokf(e, XML_STATE::CDATA_SECTION, m, lo, hi);
    let k = e.e.kind;
    if t == XML_TOK::CDATA_SECT_CLOSE {
        let l = if app_flags(log).end_cdata { log.push(Ev::EndCdata) } else { defaulted(k, m, lo, n, log) };
        Out { rest: Some(n), next: Some(n), ..out(l, after(l)) }
    } else if t == XML_TOK::DATA_NEWLINE || t == XML_TOK::DATA_CHARS {
        let l = chars_log(k, m, lo, n, log, t == XML_TOK::DATA_NEWLINE);
        if app_status(l) == XML_Parsing::SUSPENDED { Out { next: Some(n), ..out(l, XML_Error::NONE) } }
        else if app_status(l) == XML_Parsing::FINISHED { out(l, XML_Error::ABORTED) }
        else if lo < n && n <= hi { cdata(e, m, n, hi, more, l) }
        else { out(l, XML_Error::NONE) }
    }
    else if t == XML_TOK::INVALID { Out { at: Some(n), ..out(log, XML_Error::INVALID_TOKEN) } }
    else if (t == XML_TOK::PARTIAL_CHAR || t == XML_TOK::PARTIAL || t == XML_TOK::NONE) && more { Out { next: Some(lo), ..out(log, XML_Error::NONE) } }
    else if t == XML_TOK::PARTIAL_CHAR { Out { at: Some(lo), ..out(log, XML_Error::PARTIAL_CHAR) } }
    else if t == XML_TOK::PARTIAL || t == XML_TOK::NONE { Out { at: Some(lo), ..out(log, XML_Error::UNCLOSED_CDATA_SECTION) } }
    else { out(log, XML_Error::UNEXPECTED_STATE) }
}
pub proof fn cdata_at(e: Enc, m: Seq<i8>, lo: int, hi: int, more: bool, log: Seq<Ev>)
    ensures cdata(e, m, lo, hi, more, log) == cdata_step(e, m, lo, hi, more, log),
{ reveal_with_fuel(cdata, 2); }
pub open spec fn ignore(e: Enc, m: Seq<i8>, lo: int, hi: int, more: bool, log: Seq<Ev>) -> Out {
    let (t, n) = tokf(e, XML_STATE::IGNORE_SECTION, m, lo, hi);
    if t == XML_TOK::IGNORE_SECT { let l = defaulted(e.e.kind, m, lo, n, log); Out { rest: Some(n), next: Some(n), ..out(l, after(l)) } }
    else if t == XML_TOK::INVALID { Out { at: Some(n), ..out(log, XML_Error::INVALID_TOKEN) } }
    else if (t == XML_TOK::PARTIAL_CHAR || t == XML_TOK::PARTIAL || t == XML_TOK::NONE) && more { Out { next: Some(lo), ..out(log, XML_Error::NONE) } }
    else if t == XML_TOK::PARTIAL_CHAR { Out { at: Some(lo), ..out(log, XML_Error::PARTIAL_CHAR) } }
    else if t == XML_TOK::PARTIAL || t == XML_TOK::NONE { Out { at: Some(lo), ..out(log, XML_Error::SYNTAX) } }
    else { out(log, XML_Error::UNEXPECTED_STATE) }
}
// a call did what `o` says
pub open spec fn did(o: Out, p: Parser, q: Parser, t: EncodingType, b: Buf, start: Option<Buf>, next0: Ptr, next: Ptr, r: XML_Error) -> bool {
    &&& q.log@ == o.log && r == o.res
    &&& (match o.rest { Some(n) => start == Some(Buf { lo: n as usize, ..b }) && b.lo < n <= b.hi, None => start.is_none() })
    &&& (match o.next { Some(n) => next.mem == b.mem && next.pos == n, None => next == next0 })
    // an error is found at this place
    &&& (match o.at { Some(n) => ev_of(q, t).mem == b.mem && ev_of(q, t).pos == n, None => true })
    &&& kept(p, q)
}
// what no processor of a section touches
pub open spec fn kept(p: Parser, q: Parser) -> bool {
    fixed(q) == fixed(p) && inv(q)
}
// ---- lemmas
pub proof fn whole_chars(k: Kind, b: Buf)
    requires chars(k, b.mem@, b.lo as int, b.hi as int),
    ensures wf(b), whole(k, b), readable(k, b), b.hi - b.lo <= i32::MAX,
{ reveal(chars); }
// the characters from i up to j, where j..hi are characters again
#[verifier::opaque]
pub open spec fn upto(k: Kind, m: Seq<i8>, i: int, j: int) -> bool { bound(k, m, i, j) && 0 <= i <= j <= m.len() }
pub proof fn start(k: Kind, m: Seq<i8>, i: int)
    requires 0 <= i <= m.len(),
    ensures upto(k, m, i, i), out8(k, m, i, i) == Seq::<i8>::empty(), texts(What::Chars, Seq::<i8>::empty()) == Seq::<Ev>::empty(), texts(What::Default, Seq::<i8>::empty()) == Seq::<Ev>::empty(),
{
    reveal(upto);
    reveal_with_fuel(bound, 2); reveal_with_fuel(text8, 2);
    assert(out8(k, m, i, i) =~= Seq::<i8>::empty());
    assert(texts(What::Chars, Seq::<i8>::empty()) =~= Seq::<Ev>::empty());
    assert(texts(What::Default, Seq::<i8>::empty()) =~= Seq::<Ev>::empty());
}
// a character of one byte or more becomes four bytes at most
pub proof fn out_len(k: Kind, m: Seq<i8>, i: int, j: int)
    requires bound(k, m, i, j), 0 <= i <= j <= m.len(), !same8(k),
    ensures text8(k, m, i, j).len() <= 4 * (j - i),
    decreases j - i,
{
    if i < j { reveal_with_fuel(bound, 3); reveal_with_fuel(text8, 2); out_len(k, m, i + clen(k, m, i), j); }
}
// one conversion: the next part of the text that began at i
pub fn convert_part(enc: &ENCODING, from: &mut Buf, v: &mut Arr, w: &mut Win, Ghost(i): Ghost<int>) -> (r: XML_Convert_Result)
    requires
        !same8(enc.kind), chars(enc.kind, old(from).mem@, old(from).lo as int, old(from).hi as int), upto(enc.kind, old(from).mem@, i, old(from).lo as int),
        old(w).lo == 0, old(w).hi == old(v)@.len(), old(v)@.len() >= 4,
    ensures
        final(v)@.len() == old(v)@.len(), final(w).hi == old(w).hi, final(w).lo <= old(w).hi,
        final(from).mem == old(from).mem, final(from).hi == old(from).hi, old(from).lo <= final(from).lo <= old(from).hi,
        upto(enc.kind, old(from).mem@, i, final(from).lo as int), chars(enc.kind, old(from).mem@, final(from).lo as int, old(from).hi as int),
        out8(enc.kind, old(from).mem@, i, old(from).lo as int) + final(v)@.subrange(0, final(w).lo as int) == out8(enc.kind, old(from).mem@, i, final(from).lo as int),
        r == XML_Convert_Result::COMPLETED || r == XML_Convert_Result::INPUT_INCOMPLETE ==> final(from).lo == final(from).hi,
        r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> old(from).lo < final(from).lo < old(from).hi,
{
    let ghost f0 = *from;
    let ghost hi = f0.hi as int;
    proof { whole_chars(enc.kind, f0); reveal(upto); even_bound(enc.kind, f0.mem@, i, f0.lo as int); }
    let r = convert_arr(enc, from, v, w);
    proof { part(enc.kind, f0.mem@, i, f0, *from, v@.len() as int, v@.subrange(0, w.lo as int), r, What::Chars); }
    r
}
pub proof fn zlen_is(m: Seq<i8>, i: int, n: int)
    requires 0 <= i <= n < m.len(), m[n] == 0, forall|j: int| i <= j < n ==> m[j] != 0,
    ensures zlen(m, i) == n,
    decreases n - i,
{ if i < n { zlen_is(m, i + 1, n); } }
pub proof fn push_nonzero(o: Seq<i8>, c: i8)
    requires c != 0, forall|j: int| 0 <= j < o.len() ==> o[j] != 0,
    ensures forall|j: int| 0 <= j < o.push(c).len() ==> #[trigger] o.push(c)[j] != 0,
{ assert forall|j: int| 0 <= j < o.push(c).len() implies #[trigger] o.push(c)[j] != 0 by { if j < o.len() { assert(o.push(c)[j] == o[j]); } } }
pub proof fn lines_nonzero(m: Seq<i8>, i: int, n: int, o: Seq<i8>)
    requires 0 <= i, n <= m.len(), forall|j: int| i <= j < n ==> m[j] != 0, forall|j: int| 0 <= j < o.len() ==> o[j] != 0,
    ensures forall|j: int| 0 <= j < nlines(m, i, n, o).len() ==> #[trigger] nlines(m, i, n, o)[j] != 0,
    decreases n - i,
{
    reveal_with_fuel(nlines, 2);
    if i < n {
        if m[i] == 0xd {
            push_nonzero(o, 0xa);
            let k = if i + 1 < n && m[i + 1] == 0xa { i + 2 } else { i + 1 };
            lines_nonzero(m, k, n, o.push(0xa));
            assert(nlines(m, i, n, o) == nlines(m, k, n, o.push(0xa)));
        } else {
            push_nonzero(o, m[i]);
            lines_nonzero(m, i + 1, n, o.push(m[i]));
            assert(nlines(m, i, n, o) == nlines(m, i + 1, n, o.push(m[i])));
        }
    }
}
pub proof fn z_first(m: Seq<i8>, i: int, z: int)
    requires 0 <= i <= z < m.len(), m[z] == 0,
    ensures i <= zlen(m, i) <= z,
    decreases z - i,
{ if i < z && m[i] != 0 { z_first(m, i + 1, z); } }
// a stored string ends
pub proof fn strings()
    ensures
        forall|s: Seq<i8>| zlen(#[trigger] s.push(0), 0) < s.len() + 1 && 0 <= zlen(s.push(0), 0),
        forall|a: Seq<i8>, t: Seq<i8>| #![trigger lines(t), a.subrange(0, lines(t).len() as int)] zlen(t, 0) < t.len() && lines(t).len() < a.len() && a.subrange(0, lines(t).len() as int) == lines(t) && a[lines(t).len() as int] == 0 ==> cs(a, 0) == lines(t) && 0 <= zlen(a, 0) < a.len(),
        forall|a: Seq<i8>| #[trigger] (Seq::<i8>::empty() + a) == a,
        forall|l: Seq<Ev>, w: What, a: Seq<i8>, b: Seq<i8>| #[trigger] ((l + texts(w, a)) + texts(w, b)) == l + texts(w, a + b),
        forall|l: Seq<Ev>, w: What| #[trigger] (l + texts(w, Seq::<i8>::empty())) == l,
{
    assert forall|l: Seq<Ev>, w: What, a: Seq<i8>, b: Seq<i8>| #[trigger] ((l + texts(w, a)) + texts(w, b)) == l + texts(w, a + b) by { assert(((l + texts(w, a)) + texts(w, b)) =~= l + texts(w, a + b)); }
    assert forall|l: Seq<Ev>, w: What| #[trigger] (l + texts(w, Seq::<i8>::empty())) == l by { assert(l + texts(w, Seq::<i8>::empty()) =~= l); }
    assert forall|s: Seq<i8>| zlen(#[trigger] s.push(0), 0) < s.len() + 1 && 0 <= zlen(s.push(0), 0) by { z_first(s.push(0), 0, s.len() as int); }
    assert forall|a: Seq<i8>, t: Seq<i8>| #![trigger lines(t), a.subrange(0, lines(t).len() as int)] zlen(t, 0) < t.len() && lines(t).len() < a.len() && a.subrange(0, lines(t).len() as int) == lines(t) && a[lines(t).len() as int] == 0 implies cs(a, 0) == lines(t) && 0 <= zlen(a, 0) < a.len() by {
        zlen_at(t, 0);
        lines_nonzero(t, 0, zlen(t, 0), Seq::empty());
        let n = lines(t).len() as int;
        assert forall|j: int| 0 <= j < n implies a[j] != 0 by { assert(a.subrange(0, n)[j] == a[j]); }
        zlen_is(a, 0, n);
    }
    assert forall|a: Seq<i8>| #[trigger] (Seq::<i8>::empty() + a) == a by { assert(Seq::<i8>::empty() + a =~= a); }
}
// one more part of a text
pub proof fn part(k: Kind, m: Seq<i8>, i: int, f0: Buf, f1: Buf, room: int, o: Seq<i8>, r: XML_Convert_Result, w: What)
    requires conv_rel(k, f0, f1, room, o, r), bound(k, m, i, f0.lo as int), f0.mem@ == m, i <= f0.lo <= f0.hi, chars(k, m, f0.lo as int, f0.hi as int), room >= 4, !same8(k),
    ensures
        f0.lo <= f1.lo <= f0.hi, bound(k, m, i, f1.lo as int), chars(k, m, f1.lo as int, f0.hi as int),
        out8(k, m, i, f0.lo as int) + o == out8(k, m, i, f1.lo as int),
        texts(w, out8(k, m, i, f0.lo as int)) + texts(w, o) == texts(w, out8(k, m, i, f1.lo as int)),
        r == XML_Convert_Result::COMPLETED || r == XML_Convert_Result::INPUT_INCOMPLETE ==> f1.lo == f0.hi,
        r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> f0.lo < f1.lo < f0.hi,
{
    reveal(chars);
    let (a, b, hi) = (f0.lo as int, f1.lo as int, f0.hi as int);
    pieces(k, m, i, a, b);
    join_bounds(k, m, i, a, b);
    if b < hi { split(k, m, a, b, hi); reveal_with_fuel(bound, 2); reveal_with_fuel(text8, 2); bits(); } else { reveal_with_fuel(bound, 2); }
    even_bound(k, m, a, b);
    texts_join(w, out8(k, m, i, a), o);
}
pub proof fn join_bounds(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), bound(k, m, j, l), i <= j <= l,
    ensures bound(k, m, i, l),
    decreases j - i,
{ reveal_with_fuel(bound, 3); if i < j { join_bounds(k, m, i + clen(k, m, i), j, l); } }
pub proof fn even_bound(k: Kind, m: Seq<i8>, i: int, j: int)
    requires bound(k, m, i, j), i <= j,
    ensures is16(k) ==> (j - i) % 2 == 0,
    decreases j - i,
{ reveal_with_fuel(bound, 3); if i < j { even_bound(k, m, i + clen(k, m, i), j); } }
