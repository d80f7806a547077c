// One zero-terminated string that is rewritten in place: `heap` is its memory, a pointer an index.
#[derive(Clone, Copy)]
pub struct HPtr { pub pos: usize }
pub fn hnull() -> HPtr { HPtr { pos: 0 } }
impl HPtr {
    pub fn offset(self, n: isize) -> (r: HPtr)
        requires self.pos <= isize::MAX, 0 <= self.pos + n <= isize::MAX,
        ensures r.pos == self.pos + n,
    { HPtr { pos: (self.pos as isize + n) as usize } }
}
pub fn hptr_eq(a: HPtr, b: HPtr) -> (r: bool) ensures r == (a.pos == b.pos), { a.pos == b.pos }
pub fn hptr_ne(a: HPtr, b: HPtr) -> (r: bool) ensures r == (a.pos != b.pos), { a.pos != b.pos }
pub struct Heap { pub m: Vec<i8> }
impl Heap {
    pub open spec fn s(&self) -> Seq<i8> { self.m@ }
    pub fn rd(&self, p: HPtr) -> (r: i8)
        requires p.pos < self.m@.len(),
        ensures r == self.m@[p.pos as int],
    { self.m[p.pos] }
    pub fn wr(&mut self, p: HPtr, v: i8)
        requires p.pos < old(self).m@.len(),
        ensures final(self).m@ == old(self).m@.update(p.pos as int, v),
    { self.m.set(p.pos, v); }
}
// the slice whose start is taken as a pointer
pub struct HSlice { pub start: usize }
impl HSlice { pub fn as_mut_ptr(&self) -> (r: HPtr) ensures r.pos == self.start, { HPtr { pos: self.start } } }

// position of the terminator
pub open spec fn zlen(m: Seq<i8>, i: int) -> int decreases m.len() - i {
    if i >= m.len() { m.len() as int } else if m[i] == 0 { i } else { zlen(m, i + 1) }
}
pub proof fn zlen_at(m: Seq<i8>, i: int)
    requires 0 <= i <= m.len(),
    ensures i <= zlen(m, i) <= m.len(), zlen(m, i) < m.len() ==> m[zlen(m, i)] == 0, forall|k: int| i <= k < zlen(m, i) ==> m[k] != 0,
    decreases m.len() - i,
{ if i < m.len() && m[i] != 0 { zlen_at(m, i + 1); } }

// ---- public identifiers (XML 1.0, 4.2.2): runs of white space become one space, none at either end
pub open spec fn psp(c: i8) -> bool { c == 0x20 || c == 0xd || c == 0xa }
pub open spec fn npub(m: Seq<i8>, i: int, n: int, out: Seq<i8>) -> Seq<i8> decreases n - i {
    if i >= n { if out.len() > 0 && out.last() == 0x20 { out.drop_last() } else { out } }
    else if psp(m[i]) { npub(m, i + 1, n, if out.len() > 0 && out.last() != 0x20 { out.push(0x20) } else { out }) }
    else { npub(m, i + 1, n, out.push(m[i])) }
}
// ---- ends of lines (XML 1.0, 2.11): CR LF and CR become LF
pub open spec fn nlines(m: Seq<i8>, i: int, n: int, out: Seq<i8>) -> Seq<i8> decreases n - i {
    if i >= n { out }
    else if m[i] == 0xd { nlines(m, if i + 1 < n && m[i + 1] == 0xa { i + 2 } else { i + 1 }, n, out.push(0xa)) }
    else { nlines(m, i + 1, n, out.push(m[i])) }
}
pub proof fn heap_push()
    ensures
        forall|h: Seq<i8>, a: int, b: int, c: int, v: i8| 0 <= a <= b < h.len() && c == b + 1 ==> #[trigger] h.update(b, v).subrange(a, c) == h.subrange(a, b).push(v),
        forall|h: Seq<i8>, a: int, b: int| 0 <= a < b <= h.len() ==> (#[trigger] h.subrange(a, b).last()) == h[b - 1],
        forall|h: Seq<i8>, a: int, b: int| 0 <= a < b <= h.len() ==> (#[trigger] h.subrange(a, b).drop_last()) == h.subrange(a, b - 1),
        forall|h: Seq<i8>, a: int, b: int, k: int, v: i8| 0 <= a <= b <= k < h.len() ==> #[trigger] h.update(k, v).subrange(a, b) == h.subrange(a, b),
        forall|h: Seq<i8>, a: int, b: int, c: int, v: i8| 0 <= a <= b < h.len() && c == b + 1 && v == h[b] ==> #[trigger] h.subrange(a, c) == #[trigger] h.subrange(a, b).push(v),
        forall|h: Seq<i8>, a: int| 0 <= a <= h.len() ==> #[trigger] h.subrange(a, a) == Seq::<i8>::empty(),
{
    assert forall|h: Seq<i8>, a: int, b: int, c: int, v: i8| 0 <= a <= b < h.len() && c == b + 1 implies #[trigger] h.update(b, v).subrange(a, c) == h.subrange(a, b).push(v) by {
        assert(h.update(b, v).subrange(a, c) =~= h.subrange(a, b).push(v));
    }
    assert forall|h: Seq<i8>, a: int, b: int| 0 <= a < b <= h.len() implies (#[trigger] h.subrange(a, b).drop_last()) == h.subrange(a, b - 1) by {
        assert(h.subrange(a, b).drop_last() =~= h.subrange(a, b - 1));
    }
    assert forall|h: Seq<i8>, a: int, b: int, k: int, v: i8| 0 <= a <= b <= k < h.len() implies #[trigger] h.update(k, v).subrange(a, b) == h.subrange(a, b) by {
        assert(h.update(k, v).subrange(a, b) =~= h.subrange(a, b));
    }
    assert forall|h: Seq<i8>, a: int, b: int, c: int, v: i8| 0 <= a <= b < h.len() && c == b + 1 && v == h[b] implies #[trigger] h.subrange(a, c) == #[trigger] h.subrange(a, b).push(v) by {
        assert(h.subrange(a, c) =~= h.subrange(a, b).push(v));
    }
    assert forall|h: Seq<i8>, a: int| 0 <= a <= h.len() implies #[trigger] h.subrange(a, a) == Seq::<i8>::empty() by { assert(h.subrange(a, a) =~= Seq::<i8>::empty()); }
}
