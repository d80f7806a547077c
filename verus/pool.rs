// The string pool (string_pool.rs). Trusted: bumpalo's vector (its capacity, growth and contents).
pub struct BVec { pub v: Vec<i8>, pub cap: Ghost<int> }
impl View for BVec { type V = Seq<i8>; open spec fn view(&self) -> Seq<i8> { self.v@ } }
// (a vector is never larger than the address space allows)
pub open spec fn wfv(b: BVec) -> bool { b@.len() <= b.cap@ <= isize::MAX / 4 }
pub struct Last { pub i: Ghost<int> }
impl BVec {
    #[verifier::external_body]
    pub fn new_in(b: &Bump) -> (r: BVec) ensures r@ == Seq::<i8>::empty(), wfv(r), { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve(&mut self, n: usize) -> (r: Result<(), ()>)
        requires wfv(*old(self)),
        ensures wfv(*final(self)), final(self)@ == old(self)@, r.is_ok() ==> final(self).cap@ >= old(self)@.len() + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve_exact(&mut self, n: usize) -> (r: Result<(), ()>)
        requires wfv(*old(self)),
        ensures wfv(*final(self)), final(self)@ == old(self)@, r.is_ok() ==> final(self).cap@ >= old(self)@.len() + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires wfv(*self), ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) requires wfv(*self), ensures r == self.cap@, { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, c: i8)
        requires wfv(*old(self)), n <= old(self).cap@,
        ensures wfv(*final(self)), final(self).cap == old(self).cap, final(self)@.len() == n,
            final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| c) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        requires wfv(*old(self)),
        ensures wfv(*final(self)), final(self).cap == old(self).cap, final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ },
    { unimplemented!() }
    // (push reserves when there is no room; here it is asked for before)
    #[verifier::external_body]
    pub fn push(&mut self, c: i8)
        requires wfv(*old(self)), old(self)@.len() < old(self).cap@,
        ensures wfv(*final(self)), final(self).cap == old(self).cap, final(self)@ == old(self)@.push(c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) requires wfv(*old(self)), ensures wfv(*final(self)), final(self)@ == Seq::<i8>::empty(), { unimplemented!() }
    // .pop().expect(..), .last().expect(..), *.last_mut().expect(..) = c
    #[verifier::external_body]
    pub fn pop_some(&mut self) -> (r: i8)
        requires wfv(*old(self)), old(self)@.len() > 0,
        ensures wfv(*final(self)), final(self)@ == old(self)@.drop_last(), r == old(self)@.last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_some(&self) -> (r: i8) requires self@.len() > 0, ensures r == self@.last(), { unimplemented!() }
    #[verifier::external_body]
    pub fn set_last(&mut self, c: i8)
        requires wfv(*old(self)), old(self)@.len() > 0,
        ensures wfv(*final(self)), final(self)@ == old(self)@.drop_last().push(c),
    { unimplemented!() }
    // into_bump_slice and its variants
    #[verifier::external_body]
    pub fn into_slice(self) -> (r: Str) ensures r.t@ == self@, { unimplemented!() }
}
// a finished string: it lies in the arena, and nothing refers to it but what it was handed to
pub struct Str { pub t: Ghost<Seq<i8>> }
pub struct Bump { pub x: u8 }
pub struct RentedBumpVec(pub BVec);
// RefCell::replace
pub struct VecCell { pub v: RentedBumpVec }
impl VecCell {
    #[verifier::external_body]
    pub fn replace(&mut self, n: RentedBumpVec) -> (r: RentedBumpVec) ensures r == old(self).v, final(self).v == n, { unimplemented!() }
}
pub struct StringPool { pub bump: Bump, pub current_bump_vec: VecCell }
impl View for StringPool { type V = Seq<i8>; open spec fn view(&self) -> Seq<i8> { self.current_bump_vec.v.0@ } }
pub open spec fn wfp(p: StringPool) -> bool { wfv(p.current_bump_vec.v.0) }

// an encoding of which all is known that the converters are proved to do (verus/conv.rs)
pub struct ENCODING { pub kind: Kind }
impl Copy for ENCODING {}
impl Clone for ENCODING { fn clone(&self) -> Self { *self } }
// ExpatBufRefMut into the vector itself: the part [lo, hi)
pub struct Win { pub lo: usize, pub hi: usize }
impl Win {
    pub fn over(v: &BVec, lo: usize) -> (r: Win) requires wfv(*v), lo <= v@.len(), ensures r.lo == lo, r.hi == v@.len(), { Win { lo, hi: v.len() } }
    pub fn len(&self) -> (r: usize) requires self.lo <= self.hi, ensures r == self.hi - self.lo, { self.hi - self.lo }
}
#[verifier::external_body]
pub fn convert_into(enc: &ENCODING, from: &mut Buf, v: &mut BVec, w: &mut Win) -> (r: XML_Convert_Result)
    requires wf(*old(from)), wfv(*old(v)), old(w).lo <= old(w).hi <= old(v)@.len(), readable(enc.kind, *old(from)),
    ensures wfv(*final(v)), final(v).cap == old(v).cap, final(v)@.len() == old(v)@.len(), final(v)@.subrange(0, old(w).lo as int) == old(v)@.subrange(0, old(w).lo as int),
        final(w).hi == old(w).hi, old(w).lo <= final(w).lo <= old(w).hi,
        conv_rel(enc.kind, *old(from), *final(from), old(w).hi - old(w).lo, final(v)@.subrange(old(w).lo as int, final(w).lo as int), r),
{ unimplemented!() }
// what the scanners (C01, C02) let through
pub open spec fn readable(k: Kind, b: Buf) -> bool { (k == Kind::Utf8 ==> wf8(b.mem@, b.lo as int, b.hi as int)) && (k == Kind::Other ==> bound(k, b.mem@, b.lo as int, b.hi as int)) }
// where the whole characters of a text end
pub open spec fn stop(k: Kind, m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    if i >= hi || !complete(k, m, i, hi) { i } else { stop(k, m, i + clen(k, m, i), hi) }
}
pub open spec fn out8(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8> { if same8(k) { m.subrange(i, j) } else { text8(k, m, i, j) } }
// the text of a span, in the internal encoding: all of it but a character that is cut off
pub open spec fn whole8(k: Kind, b: Buf) -> Seq<i8> { out8(k, b.mem@, b.lo as int, stop(k, b.mem@, b.lo as int, limit(k, b))) }

pub proof fn join(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), i <= j <= l, l <= m.len(), 0 <= i, bound(k, m, j, l) || same8(k),
    ensures text8(k, m, i, j) + text8(k, m, j, l) == text8(k, m, i, l), out8(k, m, i, j) + out8(k, m, j, l) == out8(k, m, i, l), bound(k, m, j, l) ==> bound(k, m, i, l),
    decreases j - i,
{
    assert(same8(k) ==> m.subrange(i, j) + m.subrange(j, l) =~= m.subrange(i, l));
    join8(k, m, i, j, l);
    if bound(k, m, j, l) { join_bound(k, m, i, j, l); }
}
pub proof fn join8(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), i <= j <= l,
    ensures text8(k, m, i, j) + text8(k, m, j, l) == text8(k, m, i, l),
    decreases j - i,
{
    reveal_with_fuel(bound, 3);
    reveal_with_fuel(text8, 3);
    if i < j {
        join8(k, m, i + clen(k, m, i), j, l);
        assert(text8(k, m, i, j) + text8(k, m, j, l) =~= enc_at(k, m, i) + (text8(k, m, i + clen(k, m, i), j) + text8(k, m, j, l)));
    } else { assert(text8(k, m, i, j) + text8(k, m, j, l) =~= text8(k, m, j, l)); }
}
pub proof fn bounds_order(k: Kind, m: Seq<i8>, i: int, j: int)
    requires bound(k, m, i, j),
    ensures i <= j,
{ }
// the whole characters end at the same place, seen from a boundary before it
pub proof fn stop_from(k: Kind, m: Seq<i8>, i: int, j: int, hi: int)
    requires bound(k, m, i, j), j <= hi, hi <= m.len(), 0 <= i,
    ensures stop(k, m, i, hi) == stop(k, m, j, hi),
    decreases if i < j { j - i } else { 0 },
{
    if i < j { bounds_order(k, m, i + clen(k, m, i), j); stop_from(k, m, i + clen(k, m, i), j, hi); }
}
pub proof fn stop_bound(k: Kind, m: Seq<i8>, i: int, hi: int)
    requires i <= hi,
    ensures i <= stop(k, m, i, hi) <= hi, bound(k, m, i, stop(k, m, i, hi)),
    decreases hi - i,
{
    if i < hi && complete(k, m, i, hi) { stop_bound(k, m, i + clen(k, m, i), hi); }
}
pub proof fn readable_from(k: Kind, b: Buf, j: int)
    requires readable(k, b), bound(k, b.mem@, b.lo as int, j), j <= b.hi,
    ensures k == Kind::Utf8 ==> wf8(b.mem@, j, b.hi as int), k == Kind::Other ==> bound(k, b.mem@, j, b.hi as int),
{
    if k == Kind::Utf8 { wf8_from(b.mem@, b.lo as int, j, b.hi as int); }
    if k == Kind::Other { bound_from(k, b.mem@, b.lo as int, j, b.hi as int); }
}
pub proof fn wf8_from(m: Seq<i8>, i: int, j: int, hi: int)
    requires wf8(m, i, hi), bound(Kind::Utf8, m, i, j), j <= hi,
    ensures wf8(m, j, hi),
    decreases if i < j { j - i } else { 0 },
{
    if i < j { wf8_from(m, i + u8len(at8(m, i) as int), j, hi); }
}
pub proof fn bound_from(k: Kind, m: Seq<i8>, i: int, j: int, hi: int)
    requires bound(k, m, i, hi), bound(k, m, i, j), j <= hi,
    ensures bound(k, m, j, hi),
    decreases if i < j { j - i } else { 0 },
{
    if i < j { bound_from(k, m, i + clen(k, m, i), j, hi); }
}
// one piece more
pub proof fn piece(k: Kind, b: Buf, f0: Buf, f1: Buf, room: int, out: Seq<i8>, r: XML_Convert_Result)
    requires readable(k, b), wf(b), bound(k, b.mem@, b.lo as int, f0.lo as int), f0.mem == b.mem, b.lo <= f0.lo <= f0.hi, limit(k, b) <= f0.hi <= b.hi, limit(k, f0) == limit(k, b), readable(k, f0),
        conv_rel(k, f0, f1, room, out, r), room >= 4,
    ensures bound(k, b.mem@, b.lo as int, f1.lo as int), out8(k, b.mem@, b.lo as int, f0.lo as int) + out == out8(k, b.mem@, b.lo as int, f1.lo as int),
        readable(k, f1), limit(k, f1) == limit(k, b), limit(k, b) <= f1.hi <= b.hi, f0.lo <= f1.lo <= limit(k, b),
        r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> f1.lo > f0.lo,
        r != XML_Convert_Result::OUTPUT_EXHAUSTED ==> f1.lo == stop(k, b.mem@, b.lo as int, limit(k, b)),
{
    let m = b.mem@;
    if is16(k) { even(k, m, f0.lo as int, f1.lo as int); }
    reveal_with_fuel(stop, 2);
    join(k, m, b.lo as int, f0.lo as int, f1.lo as int);
    join_bound(k, m, b.lo as int, f0.lo as int, f1.lo as int);
    readable_from(k, b, f1.lo as int);
    if k == Kind::Utf8 { cut_short(m, f1.lo as int, b.hi as int, f1.hi as int); }
    stop_from(k, m, b.lo as int, f1.lo as int, limit(k, b));
    assert(out8(k, m, f0.lo as int, f0.lo as int) =~= Seq::<i8>::empty());
    assert(k == Kind::Other ==> limit(k, b) == b.hi);
}
pub proof fn join_bound(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), bound(k, m, j, l),
    ensures bound(k, m, i, l),
    decreases if i < j { j - i } else { 0 },
{
    if i < j { bounds_order(k, m, i + clen(k, m, i), j); join_bound(k, m, i + clen(k, m, i), j, l); bounds_order(k, m, j, l); }
}
pub proof fn even(k: Kind, m: Seq<i8>, i: int, j: int)
    requires bound(k, m, i, j), is16(k),
    ensures (j - i) % 2 == 0,
    decreases if i < j { j - i } else { 0 },
{
    if i < j { even(k, m, i + clen(k, m, i), j); }
}
