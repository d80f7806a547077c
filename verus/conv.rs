// Transcoding (xmltok.rs, the *Convert functions): what is written is the text that was used up.
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Kind { Utf8, Latin1, Ascii, Le, Be, Other }
// ExpatBufRefMut: the part [pos, len) of `cells` that is not yet written; `start` is where it began
pub struct MutBuf { pub cells: Vec<i8>, pub pos: usize, pub start: Ghost<int> }
pub open spec fn wfo(b: MutBuf) -> bool { 0 <= b.start@ <= b.pos <= b.cells@.len() <= isize::MAX }
impl MutBuf {
    pub open spec fn done(&self) -> Seq<i8> { self.cells@.subrange(self.start@, self.pos as int) }
    pub open spec fn room(&self) -> int { self.cells@.len() - self.pos }
    pub fn len(&self) -> (r: usize) requires wfo(*self), ensures r == self.room(), { self.cells.len() - self.pos }
    pub fn is_empty(&self) -> (r: bool) requires wfo(*self), ensures r == (self.room() == 0), { self.cells.len() == self.pos }
    pub fn set_at(&mut self, i: usize, v: i8)
        requires wfo(*old(self)), i < old(self).room(),
        ensures wfo(*final(self)), final(self).pos == old(self).pos, final(self).start == old(self).start, final(self).done() == old(self).done(),
            final(self).cells@ == old(self).cells@.update(old(self).pos + i, v),
    {
        let ghost d = self.done();
        self.cells.set(self.pos + i, v);
        assert(self.done() =~= d);
    }
    pub fn inc_start(&mut self, n: usize)
        requires wfo(*old(self)), n <= old(self).room(),
        ensures wfo(*final(self)), final(self).pos == old(self).pos + n, final(self).start == old(self).start, final(self).cells == old(self).cells,
            n == 1 ==> final(self).done() == old(self).done().push(old(self).cells@[old(self).pos as int]),
            final(self).done() == old(self).done() + old(self).cells@.subrange(old(self).pos as int, old(self).pos + n),
    {
        let ghost d = self.done();
        let ghost p = self.pos;
        self.pos = self.pos + n;
        assert(self.done() =~= d + self.cells@.subrange(p as int, p + n));
        assert(n == 1 ==> self.done() =~= d.push(self.cells@[p as int]));
    }
    // self[..n].copy_from_slice(from)
    #[verifier::external_body]
    pub fn copy_from(&mut self, n: usize, from: &Buf)
        requires wfo(*old(self)), wf(*from), n <= old(self).room(), n == from.hi - from.lo,
        ensures wfo(*final(self)), final(self).pos == old(self).pos, final(self).start == old(self).start, final(self).done() == old(self).done(),
            final(self).cells@.len() == old(self).cells@.len(), forall|i: int| 0 <= i < old(self).pos ==> #[trigger] final(self).cells@[i] == old(self).cells@[i],
            final(self).cells@.subrange(old(self).pos as int, old(self).pos + n) == from.mem@.subrange(from.lo as int, from.hi as int),
    { unimplemented!() }
}
pub struct MutBuf16 { pub cells: Vec<u16>, pub pos: usize, pub start: Ghost<int> }
pub open spec fn wfo16(b: MutBuf16) -> bool { 0 <= b.start@ <= b.pos <= b.cells@.len() <= isize::MAX / 2 }
impl MutBuf16 {
    pub open spec fn done(&self) -> Seq<u16> { self.cells@.subrange(self.start@, self.pos as int) }
    pub open spec fn room(&self) -> int { self.cells@.len() - self.pos }
    pub fn len(&self) -> (r: usize) requires wfo16(*self), ensures r == self.room(), { self.cells.len() - self.pos }
    pub fn is_empty(&self) -> (r: bool) requires wfo16(*self), ensures r == (self.room() == 0), { self.cells.len() == self.pos }
    pub fn set_at(&mut self, i: usize, v: u16)
        requires wfo16(*old(self)), i < old(self).room(),
        ensures wfo16(*final(self)), final(self).pos == old(self).pos, final(self).start == old(self).start, final(self).done() == old(self).done(),
            final(self).cells@ == old(self).cells@.update(old(self).pos + i, v),
    {
        let ghost d = self.done();
        self.cells.set(self.pos + i, v);
        assert(self.done() =~= d);
    }
    pub fn inc_start(&mut self, n: usize)
        requires wfo16(*old(self)), n <= old(self).room(), n <= 2,
        ensures wfo16(*final(self)), final(self).pos == old(self).pos + n, final(self).start == old(self).start, final(self).cells == old(self).cells,
            n == 1 ==> final(self).done() == old(self).done().push(old(self).cells@[old(self).pos as int]),
            n == 2 ==> final(self).done() == old(self).done().push(old(self).cells@[old(self).pos as int]).push(old(self).cells@[old(self).pos + 1]),
    {
        let ghost d = self.done();
        let ghost p = self.pos;
        self.pos = self.pos + n;
        assert(n == 1 ==> self.done() =~= d.push(self.cells@[p as int]));
        assert(n == 2 ==> self.done() =~= d.push(self.cells@[p as int]).push(self.cells@[p + 1]));
    }
}

// ---- characters of a text in an encoding; `Other` is an encoding the application described
pub uninterp spec fn other_len(b: i8) -> int;
pub uninterp spec fn other_cp(t: Seq<i8>) -> u32;
pub open spec fn at8(m: Seq<i8>, i: int) -> u32 { m[i] as u8 as u32 }
pub open spec fn unit(k: Kind, m: Seq<i8>, i: int) -> u32 { if k == Kind::Le { at8(m, i) | (at8(m, i + 1) << 8u32) } else { at8(m, i + 1) | (at8(m, i) << 8u32) } }
pub open spec fn high(k: Kind, m: Seq<i8>, i: int) -> int { if k == Kind::Le { at8(m, i + 1) as int } else { at8(m, i) as int } }
pub open spec fn is16(k: Kind) -> bool { k == Kind::Le || k == Kind::Be }
pub open spec fn u8len(b: int) -> int { if b < 0xc0 { 1 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else if b < 0xf8 { 4 } else { 1 } }
// bytes of the character at i
pub open spec fn clen(k: Kind, m: Seq<i8>, i: int) -> int {
    match k {
        Kind::Utf8 => u8len(at8(m, i) as int),
        Kind::Latin1 | Kind::Ascii => 1,
        Kind::Other => if other_len(m[i]) < 1 { 1 } else { other_len(m[i]) },
        Kind::Le | Kind::Be => if 0xd8 <= high(k, m, i) && high(k, m, i) <= 0xdb { 4 } else { 2 },
    }
}
// its number
pub open spec fn cp(k: Kind, m: Seq<i8>, i: int) -> u32 {
    match k {
        Kind::Utf8 => if clen(k, m, i) == 1 { at8(m, i) } else if clen(k, m, i) == 2 { ((at8(m, i) & 0x1f) << 6) | (at8(m, i + 1) & 0x3f) }
            else if clen(k, m, i) == 3 { ((at8(m, i) & 0xf) << 12) | ((at8(m, i + 1) & 0x3f) << 6) | (at8(m, i + 2) & 0x3f) }
            else { ((at8(m, i) & 7) << 18) | ((at8(m, i + 1) & 0x3f) << 12) | ((at8(m, i + 2) & 0x3f) << 6) | (at8(m, i + 3) & 0x3f) },
        Kind::Latin1 | Kind::Ascii => at8(m, i),
        Kind::Other => other_cp(m.subrange(i, i + clen(k, m, i))),
        Kind::Le | Kind::Be => if clen(k, m, i) == 4 { add(0x10000u32, ((unit(k, m, i) & 0x3ff) << 10) | (unit(k, m, i + 2) & 0x3ff)) } else { unit(k, m, i) },
    }
}
pub open spec fn enc8(c: u32) -> Seq<i8> {
    if c < 0x80 { seq![c as i8] } else if c < 0x800 { seq![(0xc0 | (c >> 6)) as i8, (0x80 | (c & 0x3f)) as i8] }
    else if c < 0x10000 { seq![(0xe0 | (c >> 12)) as i8, (0x80 | ((c >> 6) & 0x3f)) as i8, (0x80 | (c & 0x3f)) as i8] }
    else { seq![(0xf0 | (c >> 18)) as i8, (0x80 | ((c >> 12) & 0x3f)) as i8, (0x80 | ((c >> 6) & 0x3f)) as i8, (0x80 | (c & 0x3f)) as i8] }
}
pub open spec fn enc16(c: u32) -> Seq<u16> {
    if c < 0x10000 { seq![c as u16] } else { seq![(0xd800 | (sub(c, 0x10000u32) >> 10)) as u16, (0xdc00 | (sub(c, 0x10000u32) & 0x3ff)) as u16] }
}
// UTF-8 and ASCII are passed on byte for byte
pub open spec fn same8(k: Kind) -> bool { k == Kind::Utf8 || k == Kind::Ascii }
pub open spec fn enc_at(k: Kind, m: Seq<i8>, i: int) -> Seq<i8> { if same8(k) { m.subrange(i, i + clen(k, m, i)) } else { enc8(cp(k, m, i)) } }
// the characters from i up to j, with j a boundary between characters
pub open spec fn bound(k: Kind, m: Seq<i8>, i: int, j: int) -> bool
    decreases if i < j { j - i } else { 0 }
{
    i == j || (i < j && bound(k, m, i + clen(k, m, i), j))
}
pub open spec fn text8(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8>
    decreases if i < j { j - i } else { 0 }
{
    if i >= j { Seq::empty() } else { enc_at(k, m, i) + text8(k, m, i + clen(k, m, i), j) }
}
pub open spec fn text16(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<u16>
    decreases if i < j { j - i } else { 0 }
{
    if i >= j { Seq::empty() } else { enc16(cp(k, m, i)) + text16(k, m, i + clen(k, m, i), j) }
}
pub open spec fn complete(k: Kind, m: Seq<i8>, i: int, hi: int) -> bool { i + (if is16(k) { 2int } else { 1 }) <= hi && i + clen(k, m, i) <= hi }
// UTF-8 text: the trail bytes that the lead bytes announce, except that the last character may be cut
pub open spec fn trail(b: i8) -> bool { (b as u8) >= 0x80 && (b as u8) < 0xc0 }
pub open spec fn wf8(m: Seq<i8>, i: int, hi: int) -> bool
    decreases if i < hi { hi - i } else { 0 }
{
    i >= hi || (!trail(m[i]) && at8(m, i) < 0xf8 && (forall|t: int| i < t < i + u8len(at8(m, i) as int) && t < hi ==> trail(#[trigger] m[t])) && wf8(m, i + u8len(at8(m, i) as int), hi))
}
// the end of the last whole character
pub open spec fn cut8(m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    if i >= hi || i + u8len(at8(m, i) as int) > hi { i } else { cut8(m, i + u8len(at8(m, i) as int), hi) }
}
pub open spec fn limit(k: Kind, f: Buf) -> int { if is16(k) { f.hi - (f.hi - f.lo) % 2 } else { f.hi as int } }

// what every utf8Convert does: `out` is written for the text [f0.lo, f1.lo), with room for `room` bytes
pub open spec fn conv_rel(k: Kind, f0: Buf, f1: Buf, room: int, out: Seq<i8>, r: XML_Convert_Result) -> bool {
    let m = f0.mem@;
    let at = f1.lo as int;
    let end = limit(k, f0);
    &&& wf(f1) && f1.mem == f0.mem && f0.lo <= at <= end && end <= f1.hi <= f0.hi
    &&& out.len() <= room
    &&& out == if same8(k) { m.subrange(f0.lo as int, at) } else { text8(k, m, f0.lo as int, at) }
    &&& (r == XML_Convert_Result::COMPLETED ==> at == end)
    &&& (k == Kind::Utf8 && !wf8(m, f0.lo as int, f0.hi as int) || {
        &&& bound(k, m, f0.lo as int, at)
        &&& (r == XML_Convert_Result::INPUT_INCOMPLETE ==> at < end && !complete(k, m, at, end))
        // there is no room for the next character
        &&& (r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> at < end && (if complete(k, m, at, end) { enc_at(k, m, at).len() > room - out.len() } else { room - out.len() < 4 }))
    })
}
pub open spec fn converted(k: Kind, f0: Buf, f1: Buf, o0: MutBuf, o1: MutBuf, r: XML_Convert_Result) -> bool {
    &&& wfo(o1) && o1.start == o0.start && o0.pos <= o1.pos && o1.cells@.len() == o0.cells@.len()
    &&& (forall|i: int| 0 <= i < o0.pos ==> #[trigger] o1.cells@[i] == o0.cells@[i])
    &&& conv_rel(k, f0, f1, o0.room(), o1.done(), r)
}
pub open spec fn converted16(k: Kind, f0: Buf, f1: Buf, o0: MutBuf16, o1: MutBuf16, r: XML_Convert_Result) -> bool {
    &&& wf(f1) && f1.mem == f0.mem && f0.lo <= f1.lo <= f0.hi && f1.hi == f0.hi
    &&& wfo16(o1) && o1.start == o0.start && o0.pos <= o1.pos && o1.cells@.len() == o0.cells@.len()
    &&& (forall|i: int| 0 <= i < o0.pos ==> #[trigger] o1.cells@[i] == o0.cells@[i])
    &&& bound(k, f0.mem@, f0.lo as int, f1.lo as int)
    &&& o1.done() == o0.done() + text16(k, f0.mem@, f0.lo as int, f1.lo as int)
    &&& (r == XML_Convert_Result::COMPLETED ==> f1.lo == f0.hi)
    &&& (r == XML_Convert_Result::INPUT_INCOMPLETE ==> f1.lo < f0.hi && !complete(k, f0.mem@, f1.lo as int, f0.hi as int))
    &&& (r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> f1.lo < f0.hi && (complete(k, f0.mem@, f1.lo as int, f0.hi as int) ==> enc16(cp(k, f0.mem@, f1.lo as int)).len() > o1.room()))
}
// UTF-16 to UTF-16: unit by unit
pub open spec fn units(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<u16> { Seq::new(((j - i) / 2) as nat, |t: int| unit(k, m, i + 2 * t) as u16) }
pub open spec fn copied16(k: Kind, f0: Buf, f1: Buf, o0: MutBuf16, o1: MutBuf16, r: XML_Convert_Result) -> bool {
    &&& wf(f1) && f1.mem == f0.mem && f0.lo <= f1.lo <= limit(k, f0) && (f1.lo - f0.lo) % 2 == 0
    &&& wfo16(o1) && o1.start == o0.start && o0.pos <= o1.pos && o1.cells@.len() == o0.cells@.len()
    &&& (forall|i: int| 0 <= i < o0.pos ==> #[trigger] o1.cells@[i] == o0.cells@[i])
    &&& o1.done() == units(k, f0.mem@, f0.lo as int, f1.lo as int)
    &&& (r == XML_Convert_Result::COMPLETED ==> f1.lo == limit(k, f0))
    &&& (r != XML_Convert_Result::COMPLETED ==> f1.lo < limit(k, f0))
    &&& (r == XML_Convert_Result::OUTPUT_EXHAUSTED ==> o1.room() == 0)
}
pub proof fn one_unit(k: Kind, m: Seq<i8>, i: int, j: int)
    requires i <= j, (j - i) % 2 == 0,
    ensures units(k, m, i, j + 2) == units(k, m, i, j).push(unit(k, m, j) as u16),
{
    assert(units(k, m, i, j + 2) =~= units(k, m, i, j).push(unit(k, m, j) as u16));
}
// one more character
pub proof fn one_more(k: Kind, m: Seq<i8>, i: int, j: int)
    requires bound(k, m, i, j),
    ensures bound(k, m, i, j + clen(k, m, j)), text8(k, m, i, j + clen(k, m, j)) == text8(k, m, i, j) + enc_at(k, m, j), text16(k, m, i, j + clen(k, m, j)) == text16(k, m, i, j) + enc16(cp(k, m, j)),
        i <= j, clen(k, m, j) > 0,
    decreases if i < j { j - i } else { 0 }
{
    reveal_with_fuel(bound, 3);
    reveal_with_fuel(text8, 3);
    reveal_with_fuel(text16, 3);
    if i < j { one_more(k, m, i + clen(k, m, i), j); }
    let n = j + clen(k, m, j);
    assert(text8(k, m, i, n) =~= text8(k, m, i, j) + enc_at(k, m, j));
    assert(text16(k, m, i, n) =~= text16(k, m, i, j) + enc16(cp(k, m, j)));
}
pub proof fn pushes()
    ensures
        forall|s: Seq<i8>, t: Seq<i8>, a: i8| #![trigger (s + t).push(a)] (s + t).push(a) == s + (t + seq![a]),
        forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8| #![trigger (s + t).push(a).push(b)] (s + t).push(a).push(b) == s + (t + seq![a, b]),
        forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8, c: i8| #![trigger (s + t).push(a).push(b).push(c)] (s + t).push(a).push(b).push(c) == s + (t + seq![a, b, c]),
        forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8, c: i8, d: i8| #![trigger (s + t).push(a).push(b).push(c).push(d)] (s + t).push(a).push(b).push(c).push(d) == s + (t + seq![a, b, c, d]),
        forall|s: Seq<u16>, t: Seq<u16>, a: u16| #![trigger (s + t).push(a)] (s + t).push(a) == s + (t + seq![a]),
        forall|s: Seq<u16>, t: Seq<u16>, a: u16, b: u16| #![trigger (s + t).push(a).push(b)] (s + t).push(a).push(b) == s + (t + seq![a, b]),
{
    assert forall|s: Seq<i8>, t: Seq<i8>, a: i8| #![trigger (s + t).push(a)] (s + t).push(a) == s + (t + seq![a]) by { assert((s + t).push(a) =~= s + (t + seq![a])); }
    assert forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8| #![trigger (s + t).push(a).push(b)] (s + t).push(a).push(b) == s + (t + seq![a, b]) by { assert((s + t).push(a).push(b) =~= s + (t + seq![a, b])); }
    assert forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8, c: i8| #![trigger (s + t).push(a).push(b).push(c)] (s + t).push(a).push(b).push(c) == s + (t + seq![a, b, c]) by { assert((s + t).push(a).push(b).push(c) =~= s + (t + seq![a, b, c])); }
    assert forall|s: Seq<i8>, t: Seq<i8>, a: i8, b: i8, c: i8, d: i8| #![trigger (s + t).push(a).push(b).push(c).push(d)] (s + t).push(a).push(b).push(c).push(d) == s + (t + seq![a, b, c, d]) by { assert((s + t).push(a).push(b).push(c).push(d) =~= s + (t + seq![a, b, c, d])); }
    assert forall|s: Seq<u16>, t: Seq<u16>, a: u16| #![trigger (s + t).push(a)] (s + t).push(a) == s + (t + seq![a]) by { assert((s + t).push(a) =~= s + (t + seq![a])); }
    assert forall|s: Seq<u16>, t: Seq<u16>, a: u16, b: u16| #![trigger (s + t).push(a).push(b)] (s + t).push(a).push(b) == s + (t + seq![a, b]) by { assert((s + t).push(a).push(b) =~= s + (t + seq![a, b])); }
}
pub proof fn bits()
    ensures forall|b: i8| (#[trigger] (b as u8) as i8) == b,
{
    assert forall|b: i8| (#[trigger] (b as u8) as i8) == b by { assert((b as u8) as i8 == b) by (bit_vector); }
}
pub open spec fn u16of(l: u8, h: u8) -> u32 { l as u32 | ((h as u32) << 8u32) }
pub proof fn bits2(l: u8, h: u8)
    ensures
        h < 8 ==> (((l as i32) >> 6) | ((h as i32) << 2) | 192i32) as i8 == (0xc0u32 | (u16of(l, h) >> 6)) as i8,
        (((l as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | (u16of(l, h) & 0x3f)) as i8,
        (((h as i32) >> 4) | 224i32) as i8 == (0xe0u32 | (u16of(l, h) >> 12)) as i8,
        ((((h as i32) & 0xf) << 2) | ((l as i32) >> 6) | 0x80) as i8 == (0x80u32 | ((u16of(l, h) >> 6) & 0x3f)) as i8,
        u16of(l, h) < 0x80 <==> h == 0 && l < 0x80, u16of(l, h) < 0x800 <==> h < 8, u16of(l, h) < 0x10000, h == 0 ==> u16of(l, h) == l,
        ((h as i32) << 8i32 | l as i32) as u16 == u16of(l, h) as u16,
        (l as i32) & 0x80 != 0 <==> l >= 0x80,
        l < 0x80 ==> u16of(l, 0) as i8 == l as i8,
        (((l as i32) >> 6) | 192i32) as i8 == (0xc0u32 | ((l as u32) >> 6)) as i8,
        (((l as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | ((l as u32) & 0x3f)) as i8,
        (l as u32) as i8 == l as i8,
{
    assert(h < 8 ==> (((l as i32) >> 6) | ((h as i32) << 2) | 192i32) as i8 == (0xc0u32 | ((l as u32 | ((h as u32) << 8u32)) >> 6)) as i8) by (bit_vector);
    assert((((l as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | ((l as u32 | ((h as u32) << 8u32)) & 0x3f)) as i8) by (bit_vector);
    assert((((h as i32) >> 4) | 224i32) as i8 == (0xe0u32 | ((l as u32 | ((h as u32) << 8u32)) >> 12)) as i8) by (bit_vector);
    assert(((((h as i32) & 0xf) << 2) | ((l as i32) >> 6) | 0x80) as i8 == (0x80u32 | (((l as u32 | ((h as u32) << 8u32)) >> 6) & 0x3f)) as i8) by (bit_vector);
    assert((l as u32 | ((h as u32) << 8u32)) < 0x80 <==> h == 0 && l < 0x80) by (bit_vector);
    assert((l as u32 | ((h as u32) << 8u32)) < 0x800 <==> h < 8) by (bit_vector);
    assert((l as u32 | ((h as u32) << 8u32)) < 0x10000) by (bit_vector);
    assert(h == 0 ==> (l as u32 | ((h as u32) << 8u32)) == l as u32) by (bit_vector);
    assert(((h as i32) << 8i32 | l as i32) as u16 == (l as u32 | ((h as u32) << 8u32)) as u16) by (bit_vector);
    assert((l as i32) & 0x80 != 0 <==> l >= 0x80) by (bit_vector);
    assert(l < 0x80 ==> (l as u32 | ((0u8 as u32) << 8u32)) as i8 == l as i8) by (bit_vector);
    assert((((l as i32) >> 6) | 192i32) as i8 == (0xc0u32 | ((l as u32) >> 6)) as i8) by (bit_vector);
    assert((((l as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | ((l as u32) & 0x3f)) as i8) by (bit_vector);
    assert((l as u32) as i8 == l as i8) by (bit_vector);
}
// a surrogate pair
pub open spec fn pair(l: u8, h: u8, l2: u8, h2: u8) -> u32 { add(0x10000u32, ((u16of(l, h) & 0x3ff) << 10) | (u16of(l2, h2) & 0x3ff)) }
pub open spec fn plane(l: u8, h: u8) -> i32 { add((((h as i32) & 3) << 2) | (((l as i32) >> 6) & 3), 1i32) }
pub proof fn bits4(l: u8, h: u8, l2: u8, h2: u8)
    requires 0xd8 <= h <= 0xdb,
    ensures
        0 <= ((((h as i32) & 3) << 2) | (((l as i32) >> 6) & 3)) < 16,
        pair(l, h, l2, h2) >= 0x10000,
        ((plane(l, h) >> 2) | 240i32) as i8 == (0xf0u32 | (pair(l, h, l2, h2) >> 18)) as i8,
        ((((l as i32) >> 2) & 0xf) | ((plane(l, h) & 3) << 4) | 0x80) as i8 == (0x80u32 | ((pair(l, h, l2, h2) >> 12) & 0x3f)) as i8,
        ((((l as i32) & 3) << 4) | (((h2 as i32) & 3) << 2) | ((l2 as i32) >> 6) | 0x80) as i8 == (0x80u32 | ((pair(l, h, l2, h2) >> 6) & 0x3f)) as i8,
        (((l2 as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | (pair(l, h, l2, h2) & 0x3f)) as i8,
{
    let u = l as u32 | ((h as u32) << 8u32);
    let w = l2 as u32 | ((h2 as u32) << 8u32);
    let p = plane(l, h);
    let c = pair(l, h, l2, h2);
    assert(0 <= ((((h as i32) & 3) << 2) | (((l as i32) >> 6) & 3)) < 16) by (bit_vector);
    assert(c >= 0x10000 && ((p >> 2) | 240i32) as i8 == (0xf0u32 | (c >> 18)) as i8
        && ((((l as i32) >> 2) & 0xf) | ((p & 3) << 4) | 0x80) as i8 == (0x80u32 | ((c >> 12) & 0x3f)) as i8
        && ((((l as i32) & 3) << 4) | (((h2 as i32) & 3) << 2) | ((l2 as i32) >> 6) | 0x80) as i8 == (0x80u32 | ((c >> 6) & 0x3f)) as i8
        && (((l2 as i32) & 0x3f) | 0x80) as i8 == (0x80u32 | (c & 0x3f)) as i8) by (bit_vector)
        requires 0xd8 <= h, h <= 0xdb, p == add((((h as i32) & 3) << 2) | (((l as i32) >> 6) & 3), 1i32), u == l as u32 | ((h as u32) << 8u32), w == l2 as u32 | ((h2 as u32) << 8u32),
            c == add(0x10000u32, ((u & 0x3ff) << 10) | (w & 0x3ff));
}
pub proof fn half(n: i64)
    requires n >= 0,
    ensures ((n >> 1) << 1) == n - n % 2, n <= 0x3fffffffffffffff ==> (n << 1) == 2 * n,
{
    assert(n >= 0 ==> ((n >> 1) << 1) == n - n % 2) by (bit_vector);
    assert(0 <= n <= 0x3fffffffffffffff ==> (n << 1) == 2 * n) by (bit_vector);
}
pub proof fn leads(b: u8)
    ensures
        (b as u32) & 0xf8 == 0xf0 <==> 0xf0 <= b < 0xf8,
        (b as u32) & 0xf0 == 0xe0 <==> 0xe0 <= b < 0xf0,
        (b as u32) & 0xe0 == 0xc0 <==> 0xc0 <= b < 0xe0,
        (b as u32) & 0x80 == 0 <==> b < 0x80,
{
    assert((b as u32) & 0xf8 == 0xf0 <==> 0xf0 <= b && b < 0xf8) by (bit_vector);
    assert((b as u32) & 0xf0 == 0xe0 <==> 0xe0 <= b && b < 0xf0) by (bit_vector);
    assert((b as u32) & 0xe0 == 0xc0 <==> 0xc0 <= b && b < 0xe0) by (bit_vector);
    assert((b as u32) & 0x80 == 0 <==> b < 0x80) by (bit_vector);
}
// the last character that begins before hi
pub open spec fn last8(m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    if i >= hi || i + u8len(at8(m, i) as int) >= hi { i } else { last8(m, i + u8len(at8(m, i) as int), hi) }
}
pub proof fn cut_at(m: Seq<i8>, i: int, hi: int)
    requires i <= hi, wf8(m, i, hi),
    ensures
        i <= cut8(m, i, hi) <= hi, bound(Kind::Utf8, m, i, cut8(m, i, hi)),
        cut8(m, i, hi) < hi ==> cut8(m, i, hi) + u8len(at8(m, cut8(m, i, hi)) as int) > hi && cut8(m, i, hi) == last8(m, i, hi),
        i < hi ==> ({
            let k = last8(m, i, hi);
            &&& i <= k < hi && !trail(m[k]) && at8(m, k) < 0xf8 && hi <= k + u8len(at8(m, k) as int) && (forall|t: int| k < t < hi ==> trail(#[trigger] m[t]))
            &&& (k + u8len(at8(m, k) as int) == hi <==> cut8(m, i, hi) == hi)
            &&& wf8(m, i, k) && (i < k ==> cut8(m, i, k) == k)
        }),
    decreases if i < hi { hi - i } else { 0 }
{
    reveal_with_fuel(bound, 2);
    reveal_with_fuel(wf8, 2);
    reveal_with_fuel(cut8, 2);
    reveal_with_fuel(last8, 2);
    let n = i + u8len(at8(m, i) as int);
    if i < hi && n <= hi {
        cut_at(m, n, hi);
        if n < hi {
            assert(wf8(m, n, last8(m, n, hi)));
        }
    }
}
pub proof fn bits8(a: i8, b: i8, c: i8, d: i8)
    ensures
        0 <= a ==> (a as u16) as int == a as u8 as int && (a as u8 as u32) as u16 == a as u16,
        (((a as i32) & 0x1f) << 6 | (b as i32) & 0x3f) as u16 == (((a as u8 as u32) & 0x1f) << 6 | (b as u8 as u32) & 0x3f) as u16,
        (((a as u8 as u32) & 0x1f) << 6 | (b as u8 as u32) & 0x3f) < 0x10000,
        (((a as i32) & 0xf) << 12 | ((b as i32) & 0x3f) << 6 | (c as i32) & 0x3f) as u16 == (((a as u8 as u32) & 0xf) << 12 | ((b as u8 as u32) & 0x3f) << 6 | (c as u8 as u32) & 0x3f) as u16,
        (((a as u8 as u32) & 0xf) << 12 | ((b as u8 as u32) & 0x3f) << 6 | (c as u8 as u32) & 0x3f) < 0x10000,
        (((a as i32) & 7) << 18 | ((b as i32) & 0x3f) << 12 | ((c as i32) & 0x3f) << 6 | (d as i32) & 0x3f) as u64 == (((a as u8 as u32) & 7) << 18 | ((b as u8 as u32) & 0x3f) << 12 | ((c as u8 as u32) & 0x3f) << 6 | (d as u8 as u32) & 0x3f) as u64,
{
    assert(0 <= a ==> (a as u8 as u32) as u16 == a as u16) by (bit_vector);
    assert(0 <= a ==> (a as u16) as u32 == a as u8 as u32) by (bit_vector);
    assert((((a as i32) & 0x1f) << 6 | (b as i32) & 0x3f) as u16 == (((a as u8 as u32) & 0x1f) << 6 | (b as u8 as u32) & 0x3f) as u16) by (bit_vector);
    assert((((a as u8 as u32) & 0x1f) << 6 | (b as u8 as u32) & 0x3f) < 0x10000) by (bit_vector);
    assert((((a as i32) & 0xf) << 12 | ((b as i32) & 0x3f) << 6 | (c as i32) & 0x3f) as u16 == (((a as u8 as u32) & 0xf) << 12 | ((b as u8 as u32) & 0x3f) << 6 | (c as u8 as u32) & 0x3f) as u16) by (bit_vector);
    assert((((a as u8 as u32) & 0xf) << 12 | ((b as u8 as u32) & 0x3f) << 6 | (c as u8 as u32) & 0x3f) < 0x10000) by (bit_vector);
    assert((((a as i32) & 7) << 18 | ((b as i32) & 0x3f) << 12 | ((c as i32) & 0x3f) << 6 | (d as i32) & 0x3f) as u64 == (((a as u8 as u32) & 7) << 18 | ((b as u8 as u32) & 0x3f) << 12 | ((c as u8 as u32) & 0x3f) << 6 | (d as u8 as u32) & 0x3f) as u64) by (bit_vector);
}
pub proof fn bits32(a: i8, b: i8, c: i8, d: i8)
    requires 0xf0 <= a as u8 && (a as u8) < 0xf5, b as u8 >= 0x80 && (b as u8) < 0xc0, a as u8 == 0xf0 ==> b as u8 >= 0x90,
    ensures ({
        let v = ((a as u8 as u32) & 7) << 18 | ((b as u8 as u32) & 0x3f) << 12 | ((c as u8 as u32) & 0x3f) << 6 | (d as u8 as u32) & 0x3f;
        let n = sub(v as u64, 0x10000);
        &&& v >= 0x10000 && n == v - 0x10000
        &&& (n >> 10 | 0xd800) as u16 == (0xd800 | (sub(v, 0x10000) >> 10)) as u16
        &&& (n & 0x3ff | 0xdc00) as u16 == (0xdc00 | (sub(v, 0x10000) & 0x3ff)) as u16
    }),
{
    let v = ((a as u8 as u32) & 7) << 18 | ((b as u8 as u32) & 0x3f) << 12 | ((c as u8 as u32) & 0x3f) << 6 | (d as u8 as u32) & 0x3f;
    let n = sub(v as u64, 0x10000);
    assert(v >= 0x10000) by (bit_vector)
        requires v == ((a as u8 as u32) & 7) << 18 | ((b as u8 as u32) & 0x3f) << 12 | ((c as u8 as u32) & 0x3f) << 6 | (d as u8 as u32) & 0x3f, 0xf0 <= a as u8, (a as u8) < 0xf5, b as u8 >= 0x80, (b as u8) < 0xc0, a as u8 == 0xf0 ==> b as u8 >= 0x90;
    assert((n >> 10 | 0xd800) as u16 == (0xd800 | (sub(v, 0x10000) >> 10)) as u16) by (bit_vector) requires v >= 0x10000, n == sub(v as u64, 0x10000);
    assert((n & 0x3ff | 0xdc00) as u16 == (0xdc00 | (sub(v, 0x10000) & 0x3ff)) as u16) by (bit_vector) requires v >= 0x10000, n == sub(v as u64, 0x10000);
}
pub proof fn cut_short(m: Seq<i8>, i: int, hi: int, h: int)
    requires wf8(m, i, hi), h <= hi,
    ensures wf8(m, i, h),
    decreases if i < h { h - i } else { 0 }
{
    if i < h { cut_short(m, i + u8len(at8(m, i) as int), hi, h); }
}
// class of a lead byte (the table is the one checked in C04)
#[verifier::external_body]
pub fn lead_class(b: usize) -> (r: i32)
    requires b < 256,
    ensures r == if 0xc0 <= b < 0xe0 { 5i32 } else if 0xe0 <= b < 0xf0 { 6i32 } else if 0xf0 <= b < 0xf5 { 7i32 } else { r }, !(0xc0 <= b < 0xf5) ==> r != 5 && r != 6 && r != 7,
{ unimplemented!() }
