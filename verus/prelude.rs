// Memory model shared by all extracted functions.
//  Ptr       = *const c_char into one object: `mem` is the whole object, `pos` the address in it.
//  Buf       = ExpatBufRef: the span [lo, hi) of one object.
// Reading outside the object, moving a span outside itself and every explicit panic is a
// precondition, so Verus has to prove that it cannot happen.
// 64-bit target (the build this is checked for)
global size_of usize == 8;
pub type c_char = i8;
pub type c_uchar = u8;
pub type c_int = i32;
pub type c_uint = u32;
pub type c_long = i64;
pub type c_ulong = u64;
pub type c_ushort = u16;
pub type size_t = usize;
pub type XML_Char = i8;
pub type XML_Size = u64;

#[derive(Clone, Copy)]
pub struct Ptr { pub mem: Ghost<Seq<i8>>, pub pos: usize }

#[derive(Clone, Copy)]
pub struct Buf { pub mem: Ghost<Seq<i8>>, pub lo: usize, pub hi: usize }

// the null pointer points to no object
pub fn null() -> (r: Ptr) ensures r.mem@.len() == 0, r.pos == 0, { Ptr { mem: Ghost(Seq::empty()), pos: 0 } }

impl Ptr {
    pub open spec fn m(self) -> Seq<i8> { self.mem@ }

    // the only trusted primitive of the model: a load
    #[verifier::external_body]
    pub fn rd(self) -> (r: i8)
        requires self.pos < self.mem@.len(),
        ensures r == self.mem@[self.pos as int],
    { unimplemented!() }

    pub fn rd_u8(self) -> (r: u8)
        requires self.pos < self.mem@.len(),
        ensures r == self.mem@[self.pos as int] as u8,
    { self.rd() as u8 }

    pub fn offset(self, n: isize) -> (r: Ptr)
        requires self.pos <= self.mem@.len(), 0 <= self.pos + n <= self.mem@.len(), self.mem@.len() <= isize::MAX as int,
        ensures r.mem == self.mem, r.pos == self.pos + n,
    { Ptr { mem: self.mem, pos: (self.pos as isize + n) as usize } }

    pub fn wrapping_offset_from(self, o: Ptr) -> (r: isize)
        requires self.mem == o.mem, self.pos <= isize::MAX as int, o.pos <= isize::MAX as int,
        ensures r == self.pos - o.pos,
    { self.pos as isize - o.pos as isize }
}

pub fn ptr_eq(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos == b.pos), { a.pos == b.pos }
pub fn ptr_ne(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos != b.pos), { a.pos != b.pos }
pub fn ptr_lt(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos < b.pos), { a.pos < b.pos }
pub fn ptr_le(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos <= b.pos), { a.pos <= b.pos }
pub fn ptr_gt(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos > b.pos), { a.pos > b.pos }
pub fn ptr_ge(a: Ptr, b: Ptr) -> (r: bool) requires a.mem == b.mem, ensures r == (a.pos >= b.pos), { a.pos >= b.pos }

pub open spec fn wf(b: Buf) -> bool { b.lo <= b.hi && b.hi <= b.mem@.len() && b.mem@.len() <= isize::MAX as int }

impl Buf {
    pub fn len(&self) -> (r: usize) requires wf(*self), ensures r == self.hi - self.lo, { self.hi - self.lo }
    pub fn is_empty(&self) -> (r: bool) requires wf(*self), ensures r == (self.hi == self.lo), { self.hi == self.lo }
    pub fn as_ptr(&self) -> (r: Ptr) ensures r.mem == self.mem, r.pos == self.lo, { Ptr { mem: self.mem, pos: self.lo } }
    pub fn end(&self) -> (r: Ptr) ensures r.mem == self.mem, r.pos == self.hi, { Ptr { mem: self.mem, pos: self.hi } }
    pub fn clone(&self) -> (r: Buf) ensures r == *self, { *self }
    pub fn at(&self, i: usize) -> (r: i8)
        requires wf(*self), self.lo + i < self.hi,
        ensures r == self.mem@[self.lo + i],
    { (Ptr { mem: self.mem, pos: self.lo + i }).rd() }
    pub fn inc_start(&self, n: isize) -> (r: Buf)
        requires wf(*self), 0 <= n <= self.hi - self.lo,
        ensures wf(r), r.mem == self.mem, r.lo == self.lo + n, r.hi == self.hi,
    { Buf { mem: self.mem, lo: self.lo + n as usize, hi: self.hi } }
    pub fn dec_end(&self, n: usize) -> (r: Buf)
        requires wf(*self), n <= self.hi - self.lo,
        ensures wf(r), r.mem == self.mem, r.lo == self.lo, r.hi == self.hi - n,
    { Buf { mem: self.mem, lo: self.lo, hi: self.hi - n } }
    pub fn with_len(&self, n: usize) -> (r: Buf)
        requires wf(*self), n <= self.hi - self.lo,
        ensures wf(r), r.mem == self.mem, r.lo == self.lo, r.hi == self.lo + n,
    { Buf { mem: self.mem, lo: self.lo, hi: self.lo + n } }
    pub fn with_start(&self, p: Ptr) -> (r: Buf)
        requires wf(*self), p.mem == self.mem, self.lo <= p.pos <= self.hi,
        ensures wf(r), r.mem == self.mem, r.lo == p.pos, r.hi == self.hi,
    { Buf { mem: self.mem, lo: p.pos, hi: self.hi } }
    pub fn with_end(&self, p: Ptr) -> (r: Buf)
        requires wf(*self), p.mem == self.mem, self.lo <= p.pos <= self.hi,
        ensures wf(r), r.mem == self.mem, r.lo == self.lo, r.hi == p.pos,
    { Buf { mem: self.mem, lo: self.lo, hi: p.pos } }
}

// an explicit panic of the code: has to be unreachable
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ unimplemented!() }
