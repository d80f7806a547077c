// The parser as its input functions see it: the buffer, the indices into it, the parsing status.
// A pointer into the buffer is its index. The processor is called through `call_processor`, whose
// contract says what it may do to the parser; every call is recorded in `calls`.
pub type XML_Bool = bool;
pub type XML_Index = i64;
pub type XML_Size = u64;
pub type XML_ParamEntityParsing = u32;
#[derive(Clone, Copy)]
pub struct BPtr { pub pos: usize, pub null: bool }
pub fn bnull() -> (r: BPtr) ensures r.null, r.pos == 0, { BPtr { pos: 0, null: true } }
impl BPtr {
    pub fn add(self, n: usize) -> (r: BPtr) requires self.pos + n <= isize::MAX, ensures r.pos == self.pos + n, r.null == self.null, { BPtr { pos: self.pos + n, null: self.null } }
    pub fn wrapping_add(self, n: usize) -> (r: BPtr) requires self.pos + n <= isize::MAX, ensures r.pos == self.pos + n, r.null == self.null, { BPtr { pos: self.pos + n, null: self.null } }
    pub fn wrapping_offset_from(self, o: BPtr) -> (r: isize)
        requires self.pos <= isize::MAX, o.pos <= isize::MAX, ensures r == self.pos - o.pos,
    { self.pos as isize - o.pos as isize }
    pub fn is_null(&self) -> (r: bool) ensures r == self.null, { self.null }
    pub fn ge(&self, o: BPtr) -> (r: bool) ensures r == (self.pos >= o.pos), { self.pos >= o.pos }
}
// what the application hands over
pub struct Src { pub m: Vec<i8>, pub null: bool }
impl Src { pub fn is_null(&self) -> (r: bool) ensures r == self.null, { self.null } }
pub fn vpanic() requires false, {}
pub struct Range { pub lo: usize, pub hi: usize }
pub struct Part { pub lo: usize, pub hi: usize, pub t: Ghost<Seq<i8>> }
impl Part { pub fn as_mut_ptr(&self) -> (r: BPtr) ensures r.pos == self.lo, !r.null, { BPtr { pos: self.lo, null: false } } }
pub fn part_at(b: &BufVec, x: BPtr, y: BPtr) -> (r: Part)
    requires !x.null, !y.null, x.pos <= y.pos <= b@.len(),
    ensures r.lo == x.pos, r.hi == y.pos, r.t@ == b@.subrange(x.pos as int, y.pos as int),
{ b.part(x.pos, y.pos) }
pub struct BufVec { pub v: Vec<i8> }
pub open spec fn moved(m: Seq<i8>, lo: int, hi: int, d: int) -> Seq<i8> { m.subrange(0, d) + m.subrange(lo, hi) + m.subrange(d + (hi - lo), m.len() as int) }
pub open spec fn grown(m: Seq<i8>, n: int) -> Seq<i8> { m + Seq::new((n - m.len()) as nat, |i: int| 0i8) }
// Vec<i8>, in whose place it stands; its storage is as large as its content (try_reserve_exact is exact)
impl BufVec {
    pub open spec fn view(&self) -> Seq<i8> { self.v@ }
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { self.v.len() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap(), { self.v.capacity() }
    pub fn as_ptr(&self) -> (r: BPtr) ensures r.pos == 0, !r.null, { BPtr { pos: 0, null: false } }
    #[verifier::external_body]
    pub fn copy_within(&mut self, r: Range, d: usize)
        requires r.lo <= r.hi <= old(self)@.len(), d + (r.hi - r.lo) <= old(self)@.len(),
        ensures final(self)@ == moved(old(self)@, r.lo as int, r.hi as int, d as int), final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve_exact(&mut self, n: usize) -> (r: Result<(), ()>)
        requires old(self).cap() == old(self)@.len(),
        ensures final(self)@ == old(self)@, r.is_ok() ==> final(self).cap() == old(self)@.len() + n, r.is_err() ==> final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, x: i8)
        requires old(self)@.len() <= n <= old(self).cap(), x == 0,
        ensures final(self)@ == grown(old(self)@, n as int), final(self).cap() == old(self).cap(),
    { unimplemented!() }
    pub fn part(&self, a: usize, b: usize) -> (r: Part)
        requires a <= b <= self@.len(),
        ensures r.lo == a, r.hi == b, r.t@ == self@.subrange(a as int, b as int),
    { Part { lo: a, hi: b, t: Ghost(self@.subrange(a as int, b as int)) } }
    pub fn index_of(&self, x: BPtr) -> (r: Result<usize, ()>) ensures x.pos <= self@.len() ==> r == Ok::<usize, ()>(x.pos), { Ok(x.pos) }
    // the space from `a` on
    pub fn part_from(&self, a: usize) -> (r: Part)
        requires a <= self@.len(),
        ensures r.lo == a, r.hi == self@.len(),
    { Part { lo: a, hi: self.len(), t: Ghost(Seq::empty()) } }
    // &mut self[w][..n].copy_from_slice(from_raw_parts(s, k))
    #[verifier::external_body]
    pub fn fill(&mut self, w: &Part, n: usize, s: &Src, k: usize)
        requires w.lo + n <= w.hi <= old(self)@.len(), n == k, !s.null, k <= s.m@.len(),
        ensures final(self)@ == old(self)@.subrange(0, w.lo as int) + s.m@.subrange(0, n as int) + old(self)@.subrange(w.lo + n, old(self)@.len() as int), final(self).cap() == old(self).cap(),
    { unimplemented!() }
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b }, { if a < b { a } else { b } }
pub trait VInto<T> { spec fn fits(&self) -> bool; spec fn val(&self) -> T; fn vinto(self) -> (r: T) where Self: Sized requires self.fits(), ensures r == self.val(); }
impl VInto<i32> for usize { open spec fn fits(&self) -> bool { *self <= i32::MAX } open spec fn val(&self) -> i32 { *self as i32 } fn vinto(self) -> (r: i32) { self as i32 } }
impl VInto<usize> for i32 { open spec fn fits(&self) -> bool { *self >= 0 } open spec fn val(&self) -> usize { *self as usize } fn vinto(self) -> (r: usize) { self as usize } }

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Proc { errorProcessor, other }
#[derive(Clone, Copy)]
pub struct XML_ParsingStatus { pub parsing: XML_Parsing, pub finalBuffer: bool }
#[derive(Clone, Copy)]
pub struct Position { pub lineNumber: u64, pub columnNumber: u64 }
// what a processor was given, and how much it used up
pub struct Call { pub text: Seq<i8>, pub last: bool, pub used: int }
pub struct Parser {
    pub m_buffer: BufVec, pub m_bufferStart: usize, pub m_bufferEnd: usize, pub m_parseEndByteIndex: usize, pub m_parseEndIdx: usize,
    pub m_processor: Option<Proc>, pub m_errorCode: XML_Error, pub m_eventPtr: BPtr, pub m_eventEndPtr: BPtr, pub m_positionIdx: Option<usize>, pub m_position: Position,
    pub is_child_parser: bool, pub m_parsingStatus: XML_ParsingStatus, pub m_isParamEntity: bool, pub m_encoding: (),
    pub m_paramEntityParsing: XML_ParamEntityParsing,
    // the null pointer is a parser that is not there
    pub none: bool,
    pub calls: Ghost<Seq<Call>>,
}
pub open spec fn pending(p: Parser) -> Seq<i8> { p.m_buffer@.subrange(p.m_bufferStart as int, p.m_bufferEnd as int) }
// what is still there of all that was handed over, up to the end
pub open spec fn held(p: Parser) -> Seq<i8> { p.m_buffer@.subrange(0, p.m_bufferEnd as int) }
pub open spec fn tail_of(a: Seq<i8>, b: Seq<i8>) -> bool { a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[b.len() - a.len() + i]) }
// holds always, in handlers too
pub open spec fn posinv(p: Parser) -> bool {
    &&& p.m_bufferEnd <= p.m_buffer@.len() <= i32::MAX
    &&& p.m_bufferEnd <= p.m_parseEndByteIndex <= i64::MAX
    &&& (p.m_positionIdx.is_some() ==> p.m_positionIdx->0 <= p.m_bufferEnd)
    &&& (!p.m_eventPtr.null ==> p.m_parseEndIdx == p.m_bufferEnd && p.m_eventPtr.pos <= p.m_bufferEnd)
    &&& (!p.m_eventPtr.null && !p.m_eventEndPtr.null ==> p.m_eventPtr.pos <= p.m_eventEndPtr.pos <= p.m_bufferEnd)
}
// holds between calls
pub open spec fn inv(p: Parser) -> bool {
    &&& posinv(p)
    &&& p.m_bufferStart <= p.m_bufferEnd
    &&& p.m_buffer.cap() == p.m_buffer@.len()
    &&& p.m_processor.is_some()
    &&& (p.m_processor == Some(Proc::errorProcessor) ==> p.m_errorCode != XML_Error::NONE)
    &&& (p.m_parsingStatus.parsing == XML_Parsing::SUSPENDED ==> p.m_parseEndIdx == p.m_bufferEnd && p.m_positionIdx.is_some())
    // the position is that of the text not yet used up
    &&& (p.m_processor != Some(Proc::errorProcessor) && p.m_positionIdx.is_some() && p.m_parsingStatus.parsing != XML_Parsing::FINISHED ==> p.m_positionIdx->0 == p.m_bufferStart)
    &&& (p.m_processor != Some(Proc::errorProcessor) && !p.m_eventPtr.null ==> p.m_eventPtr.pos <= p.m_bufferStart)
}
// the position p after the text t (C12: updatePosition)
pub uninterp spec fn counted(p: Position, t: Seq<i8>) -> Position;
#[verifier::external_body]
pub fn update_position(b: Part, p: &mut Position)
    ensures *final(p) == counted(*old(p), b.t@),
{ unimplemented!() }
// two facts about counting: nothing counts for nothing, and what is counted in parts (not cut inside CR LF) is counted once
pub open spec fn whole_lines(a: Seq<i8>, b: Seq<i8>) -> bool { !(a.len() > 0 && a.last() == 13 && b.len() > 0 && b[0] == 10) }
#[verifier::external_body]
pub proof fn counting()
    ensures forall|p: Position, t: Seq<i8>| t.len() == 0 ==> #[trigger] counted(p, t) == p,
{}
// where the last event is
pub open spec fn place(p: Parser) -> Position {
    if p.m_positionIdx.is_some() && !p.m_eventPtr.null && p.m_eventPtr.pos >= p.m_positionIdx->0 { counted(p.m_position, p.m_buffer@.subrange(p.m_positionIdx->0 as int, p.m_eventPtr.pos as int)) } else { p.m_position }
}
// what every processor does: it uses up a part of its text, reports events inside it, may stop or suspend
#[verifier::external_body]
pub fn call_processor(p: &mut Parser, b: Part, start: &mut BPtr) -> (r: XML_Error)
    requires
        old(p).m_bufferStart <= b.lo <= b.hi <= old(p).m_bufferEnd, b.lo == old(start).pos, !old(start).null,
        b.t@ == old(p).m_buffer@.subrange(b.lo as int, b.hi as int),
        old(p).m_parsingStatus.parsing == XML_Parsing::PARSING, old(p).m_positionIdx.is_some(), old(p).m_processor != Some(Proc::errorProcessor) ==> old(p).m_positionIdx->0 <= b.lo,
    ensures
        b.lo <= final(start).pos <= b.hi, !final(start).null,
        final(p).m_buffer == old(p).m_buffer, final(p).m_bufferStart == old(p).m_bufferStart, final(p).m_bufferEnd == old(p).m_bufferEnd,
        final(p).m_parseEndByteIndex == old(p).m_parseEndByteIndex, final(p).m_parseEndIdx == old(p).m_parseEndIdx,
        final(p).m_parsingStatus.finalBuffer == old(p).m_parsingStatus.finalBuffer, final(p).m_parsingStatus.parsing != XML_Parsing::INITIALIZED,
        final(p).m_positionIdx.is_some(), old(p).m_positionIdx->0 <= final(p).m_positionIdx->0 <= b.hi,
        // handlers may ask for positions (XML_GetCurrentLineNumber); the count goes on from there
        forall|j: int| final(p).m_positionIdx->0 <= j <= b.hi ==> counted(final(p).m_position, #[trigger] old(p).m_buffer@.subrange(final(p).m_positionIdx->0 as int, j)) == counted(old(p).m_position, old(p).m_buffer@.subrange(old(p).m_positionIdx->0 as int, j)),
        r == XML_Error::NONE ==> final(p).m_positionIdx->0 <= final(start).pos && (final(p).m_eventPtr.null || final(p).m_eventPtr.pos <= final(start).pos),
        !final(p).m_eventPtr.null ==> final(p).m_eventPtr.pos <= b.hi,
        !final(p).m_eventPtr.null && !final(p).m_eventEndPtr.null ==> final(p).m_eventPtr.pos <= final(p).m_eventEndPtr.pos <= b.hi,
        final(p).none == old(p).none, final(p).m_paramEntityParsing == old(p).m_paramEntityParsing,
        final(p).is_child_parser == old(p).is_child_parser, final(p).m_isParamEntity == old(p).m_isParamEntity, final(p).m_processor.is_some(),
        old(p).m_processor == Some(Proc::errorProcessor) ==> r == old(p).m_errorCode && final(p).m_processor == old(p).m_processor && final(p).calls == old(p).calls && final(start).pos == b.lo && final(p).m_parsingStatus == old(p).m_parsingStatus,
        old(p).m_processor != Some(Proc::errorProcessor) ==> final(p).m_processor != Some(Proc::errorProcessor) && final(p).calls@ == old(p).calls@.push(Call { text: b.t@, last: old(p).m_parsingStatus.finalBuffer, used: final(start).pos - b.lo }),
{ unimplemented!() }
// namespaces: binds the prefix xml (setContext)
#[verifier::external_body]
pub fn startParsing(p: &mut Parser) -> (r: bool)
    ensures *final(p) == *old(p),
{ unimplemented!() }
pub proof fn buffers()
    ensures
        forall|m: Seq<i8>, lo: int, hi: int, d: int, a: int, b: int| 0 <= d <= lo <= hi <= m.len() && d <= a <= b <= d + (hi - lo) ==> #[trigger] moved(m, lo, hi, d).subrange(a, b) == m.subrange(a - d + lo, b - d + lo),
        forall|m: Seq<i8>, n: int, a: int, b: int| 0 <= a <= b <= m.len() <= n ==> #[trigger] grown(m, n).subrange(a, b) == m.subrange(a, b),
        forall|m: Seq<i8>, a: int, b: int, n: int| 0 <= a <= b <= m.len() && 0 <= n <= b - a ==> #[trigger] m.subrange(a, b).subrange(0, n) == m.subrange(a, a + n),
{
    assert forall|m: Seq<i8>, lo: int, hi: int, d: int, a: int, b: int| 0 <= d <= lo <= hi <= m.len() && d <= a <= b <= d + (hi - lo) implies #[trigger] moved(m, lo, hi, d).subrange(a, b) == m.subrange(a - d + lo, b - d + lo) by {
        assert(moved(m, lo, hi, d).subrange(a, b) =~= m.subrange(a - d + lo, b - d + lo));
    }
    assert forall|m: Seq<i8>, n: int, a: int, b: int| 0 <= a <= b <= m.len() <= n implies #[trigger] grown(m, n).subrange(a, b) == m.subrange(a, b) by { assert(grown(m, n).subrange(a, b) =~= m.subrange(a, b)); }
    assert forall|m: Seq<i8>, a: int, b: int, n: int| 0 <= a <= b <= m.len() && 0 <= n <= b - a implies #[trigger] m.subrange(a, b).subrange(0, n) == m.subrange(a, a + n) by { assert(m.subrange(a, b).subrange(0, n) =~= m.subrange(a, a + n)); }
}
