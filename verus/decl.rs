// The XML and text declarations, names of encodings and the detection of the encoding (xmltok.rs).
// Written from XML 1.0 section 2.8, 4.3.1, 4.3.3 and appendix F.

// an encoding of which all is known that the converters are proved to do (verus/conv.rs)
pub struct ENCODING { pub kind: Kind }
impl Copy for ENCODING {}
impl Clone for ENCODING { fn clone(&self) -> Self { *self } }
pub open spec fn step(k: Kind) -> int { if is16(k) { 2 } else { 1 } }
impl ENCODING {
    // (C04)
    #[verifier::external_body]
    pub fn minBytesPerChar(&self) -> (r: c_int) ensures r == step(self.kind), { unimplemented!() }
    // (nameMatchesAscii is proved in C06; what it compares is the text, character by character)
    #[verifier::external_body]
    pub fn nameMatchesAscii(&self, b: Buf, w: &[c_char]) -> (r: bool)
        requires wf(b),
        ensures r == spells(self.kind, b.mem@, b.lo as int, b.hi as int, w@),
    { unimplemented!() }
}
// an encoding as the code names it: the one in use, or an entry of one of the two tables
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum EncP { Same, Of(usize, bool) }
pub fn table_plain(i: usize) -> (r: EncP) requires i < 7, ensures r == EncP::Of(i, false), { EncP::Of(i, false) }
pub fn table_ns(i: usize) -> (r: EncP) requires i < 7, ensures r == EncP::Of(i, true), { EncP::Of(i, true) }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Finder { findEncoding, findEncodingNS }

// arrays on the stack, and an ExpatBufRefMut into one
pub struct Arr { pub v: Vec<i8> }
impl View for Arr { type V = Seq<i8>; open spec fn view(&self) -> Seq<i8> { self.v@ } }
impl Arr {
    #[verifier::external_body]
    pub fn zeroed(n: usize) -> (r: Arr) ensures r@ == Seq::new(n as nat, |i: int| 0i8), { unimplemented!() }
    pub fn put(&mut self, i: usize, c: i8)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, c), c == 0 ==> ended(final(self)@, 0),
            c == 0 ==> forall|w: Seq<i8>| nonzero(w) ==> #[trigger] says(final(self)@, 0, w) == says(old(self)@.subrange(0, i as int).push(0), 0, w),
    {
        let ghost o = self@;
        self.v.set(i, c);
        proof {
            if c == 0 {
                assert(self@[i as int] == 0);
                let t = o.subrange(0, i as int).push(0);
                assert forall|w: Seq<i8>| nonzero(w) implies #[trigger] says(self@, 0, w) == says(t, 0, w) by {
                    let a = self@;
                    assert(forall|j: int| 0 <= j <= i ==> #[trigger] a[j] == t[j]);
                    if says(a, 0, w) && w.len() > i { assert(upper(a[0 + i]) == w[i as int]); }
                    if says(a, 0, w) { assert forall|j: int| 0 <= j < w.len() implies upper(#[trigger] t[0 + j]) == w[j] by { assert(upper(a[0 + j]) == w[j]); } }
                    if says(t, 0, w) { assert forall|j: int| 0 <= j < w.len() implies upper(#[trigger] a[0 + j]) == w[j] by { assert(upper(t[0 + j]) == w[j]); } }
                }
            }
        }
    }
    pub fn get(&self, i: usize) -> (r: i8) requires i < self@.len(), ensures r == self@[i as int], { self.v[i] }
    pub fn ptr(&self) -> (r: Ptr) ensures r.mem@ == self@, r.pos == 0, { Ptr { mem: Ghost(self.v@), pos: 0 } }
}
pub fn kw_ptr<const N: usize>(a: &[i8; N]) -> (r: Ptr) ensures r.mem@ == a@, r.pos == 0, { Ptr { mem: Ghost(a@), pos: 0 } }
pub struct Win { pub lo: usize, pub hi: usize }
impl Win {
    pub fn over(v: &Arr, lo: usize, hi: usize) -> (r: Win) requires lo <= hi <= v@.len(), ensures r.lo == lo, r.hi == hi, { Win { lo, hi } }
    pub fn len(&self) -> (r: usize) requires self.lo <= self.hi, ensures r == self.hi - self.lo, { self.hi - self.lo }
}
#[verifier::external_body]
pub fn is_null(p: Ptr) -> (r: bool) ensures r == (p.mem@.len() == 0), { unimplemented!() }
#[verifier::external_body]
pub fn utf8Convert(enc: &ENCODING, from: &mut Buf, v: &mut Arr, w: &mut Win) -> (r: XML_Convert_Result)
    requires wf(*old(from)), old(w).lo <= old(w).hi <= old(v)@.len(), readable(enc.kind, *old(from)),
    ensures final(v)@.len() == old(v)@.len(), final(w).hi == old(w).hi, old(w).lo <= final(w).lo <= old(w).hi,
        conv_rel(enc.kind, *old(from), *final(from), old(w).hi - old(w).lo, final(v)@.subrange(old(w).lo as int, final(w).lo as int), r),
{ unimplemented!() }
pub open spec fn whole(k: Kind, b: Buf) -> bool { limit(k, b) == b.hi && bound(k, b.mem@, b.lo as int, b.hi as int) }
pub open spec fn out_of(k: Kind, b: Buf) -> Seq<i8> { out8(k, b.mem@, b.lo as int, b.hi as int) }
pub fn convert_arr(enc: &ENCODING, from: &mut Buf, v: &mut Arr, w: &mut Win) -> (r: XML_Convert_Result)
    requires wf(*old(from)), old(w).lo <= old(w).hi <= old(v)@.len(), readable(enc.kind, *old(from)),
    ensures final(v)@.len() == old(v)@.len(), final(w).hi == old(w).hi, old(w).lo <= final(w).lo <= old(w).hi,
        conv_rel(enc.kind, *old(from), *final(from), old(w).hi - old(w).lo, final(v)@.subrange(old(w).lo as int, final(w).lo as int), r),
        // a text of whole characters is there as a whole, or does not fit
        whole(enc.kind, *old(from)) && final(from).lo == final(from).hi ==> final(v)@.subrange(old(w).lo as int, final(w).lo as int) == out_of(enc.kind, *old(from)),
        whole(enc.kind, *old(from)) && final(from).lo != final(from).hi ==> out_of(enc.kind, *old(from)).len() > old(w).hi - old(w).lo,
{
    let ghost (f0, w0) = (*from, *w);
    let r = utf8Convert(enc, from, v, w);
    proof { if whole(enc.kind, f0) { all_or_not(enc.kind, f0, *from, w0.hi - w0.lo, v@.subrange(w0.lo as int, w.lo as int), r); } }
    r
}
// what the scanners (C01, C02) let through
pub open spec fn readable(k: Kind, b: Buf) -> bool { (k == Kind::Utf8 ==> wf8(b.mem@, b.lo as int, b.hi as int)) && (k == Kind::Other ==> bound(k, b.mem@, b.lo as int, b.hi as int)) }
pub open spec fn out8(k: Kind, m: Seq<i8>, i: int, j: int) -> Seq<i8> { if same8(k) { m.subrange(i, j) } else { text8(k, m, i, j) } }

pub open spec fn w_version() -> Seq<i8> { seq![118i8, 101i8, 114i8, 115i8, 105i8, 111i8, 110i8] }  // version
pub open spec fn w_encoding() -> Seq<i8> { seq![101i8, 110i8, 99i8, 111i8, 100i8, 105i8, 110i8, 103i8] }  // encoding
pub open spec fn w_standalone() -> Seq<i8> { seq![115i8, 116i8, 97i8, 110i8, 100i8, 97i8, 108i8, 111i8, 110i8, 101i8] }  // standalone
pub open spec fn w_yes() -> Seq<i8> { seq![121i8, 101i8, 115i8] }  // yes
pub open spec fn w_no() -> Seq<i8> { seq![110i8, 111i8] }  // no
pub open spec fn w_latin1() -> Seq<i8> { seq![73i8, 83i8, 79i8, 45i8, 56i8, 56i8, 53i8, 57i8, 45i8, 49i8] }  // ISO-8859-1
pub open spec fn w_ascii() -> Seq<i8> { seq![85i8, 83i8, 45i8, 65i8, 83i8, 67i8, 73i8, 73i8] }  // US-ASCII
pub open spec fn w_utf8() -> Seq<i8> { seq![85i8, 84i8, 70i8, 45i8, 56i8] }  // UTF-8
pub open spec fn w_utf16() -> Seq<i8> { seq![85i8, 84i8, 70i8, 45i8, 49i8, 54i8] }  // UTF-16
pub open spec fn w_utf16be() -> Seq<i8> { seq![85i8, 84i8, 70i8, 45i8, 49i8, 54i8, 66i8, 69i8] }  // UTF-16BE
pub open spec fn w_utf16le() -> Seq<i8> { seq![85i8, 84i8, 70i8, 45i8, 49i8, 54i8, 76i8, 69i8] }  // UTF-16LE

// ---- the text of a declaration, character by character: -1 for one that is not in ASCII, and at the end
#[verifier::opaque]
pub open spec fn asc(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { if i + step(k) <= hi && clen(k, m, i) == step(k) && cp(k, m, i) < 0x80 { cp(k, m, i) as int } else { -1 } }
pub open spec fn blank(c: int) -> bool { c == 0x20 || c == 0x9 || c == 0xd || c == 0xa }
pub open spec fn letter(c: int) -> bool { (0x41 <= c && c <= 0x5a) || (0x61 <= c && c <= 0x7a) }
pub open spec fn value_char(c: int) -> bool { letter(c) || (0x30 <= c && c <= 0x39) || c == 0x2e || c == 0x2d || c == 0x5f }
// a text that can be a declaration: whole characters, at every position where a character may follow one in ASCII
#[verifier::opaque]
pub open spec fn fit(k: Kind, m: Seq<i8>, i: int, hi: int) -> bool {
    &&& 0 <= i <= hi <= m.len() <= isize::MAX
    &&& (k == Kind::Utf8 ==> wf8(m, i, hi))
    &&& (k == Kind::Other ==> bound(k, m, i, hi) && (forall|j: int| i <= j < hi && (#[trigger] cp(k, m, j)) < 0x80 ==> clen(k, m, j) == 1))
    &&& (k == Kind::Ascii ==> forall|j: int| i <= j < hi ==> #[trigger] m[j] >= 0)
    &&& (is16(k) ==> (hi - i) % 2 == 0)
}
pub open spec fn skip(k: Kind, m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    if i < hi && blank(asc(k, m, i, hi)) { skip(k, m, i + step(k), hi) } else { i }
}
pub open spec fn name_end(k: Kind, m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    let c = asc(k, m, i, hi);
    if i >= hi || c == -1 || c == 0x3d || blank(c) { i } else { name_end(k, m, i + step(k), hi) }
}
pub open spec fn value_end(k: Kind, m: Seq<i8>, i: int, hi: int) -> int
    decreases if i < hi { hi - i } else { 0 }
{
    if i < hi && value_char(asc(k, m, i, hi)) { value_end(k, m, i + step(k), hi) } else { i }
}
// [i, hi) is the word w
pub open spec fn spells(k: Kind, m: Seq<i8>, i: int, hi: int, w: Seq<i8>) -> bool
    decreases w.len()
{
    if w.len() == 0 { i == hi } else { asc(k, m, i, hi) == w[0] as int && spells(k, m, i + step(k), hi, w.drop_first()) }
}
// S Name Eq Value, or nothing but blanks
pub struct Pseudo { pub ok: bool, pub none: bool, pub nlo: int, pub nhi: int, pub vlo: int, pub vhi: int, pub next: int }
pub open spec fn bad(at: int) -> Pseudo { Pseudo { ok: false, none: false, nlo: 0, nhi: 0, vlo: 0, vhi: 0, next: at } }
pub open spec fn p_name(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { skip(k, m, i, hi) }
pub open spec fn p_end(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { name_end(k, m, p_name(k, m, i, hi), hi) }
pub open spec fn p_eq(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { skip(k, m, p_end(k, m, i, hi), hi) }
pub open spec fn p_quote(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { skip(k, m, p_eq(k, m, i, hi) + step(k), hi) }
pub open spec fn p_vend(k: Kind, m: Seq<i8>, i: int, hi: int) -> int { value_end(k, m, p_quote(k, m, i, hi) + step(k), hi) }
pub open spec fn pseudo(k: Kind, m: Seq<i8>, i: int, hi: int) -> Pseudo {
    let (a, b, e, q, v) = (p_name(k, m, i, hi), p_end(k, m, i, hi), p_eq(k, m, i, hi), p_quote(k, m, i, hi), p_vend(k, m, i, hi));
    let c = asc(k, m, q, hi);
    if i < hi && !blank(asc(k, m, i, hi)) { bad(i) }                      // nothing follows without white space
    else if a >= hi { Pseudo { ok: true, none: true, next: i, ..bad(i) } }    // only white space
    else if asc(k, m, e, hi) != 0x3d { bad(e) }                               // Eq ::= S? '=' S?
    else if b == a { bad(a) }                                                 // a name is not empty
    else if c != 0x22 && c != 0x27 { bad(q) }
    else if asc(k, m, v, hi) != c { bad(v) }
    else { Pseudo { ok: true, none: false, nlo: a, nhi: b, vlo: q + step(k), vhi: v, next: v + step(k) } }
}
// '<?xml' VersionInfo EncodingDecl? SDDecl? S? '?>', and for an external entity '<?xml' VersionInfo? EncodingDecl S? '?>'; [i, hi) is what lies between
pub struct Decl { pub ok: bool, pub at: int, pub version: Option<(int, int)>, pub encoding: Option<(int, int)>, pub standalone: Option<bool> }
pub open spec fn wrong(at: int) -> Decl { Decl { ok: false, at, version: None, encoding: None, standalone: None } }
pub open spec fn named(k: Kind, m: Seq<i8>, p: Pseudo, w: Seq<i8>) -> bool { spells(k, m, p.nlo, p.nhi, w) }
pub open spec fn after_encoding(k: Kind, m: Seq<i8>, p: Pseudo, hi: int, ext: bool, d: Decl) -> Decl {
    let tail = skip(k, m, p.next, hi);
    if !p.ok { wrong(p.next) }
    else if p.none { d }
    else if ext || !named(k, m, p, w_standalone()) { wrong(p.nlo) }
    else if !spells(k, m, p.vlo, p.vhi, w_yes()) && !spells(k, m, p.vlo, p.vhi, w_no()) { wrong(p.vlo) }
    else if tail != hi { wrong(tail) }
    else { Decl { standalone: Some(spells(k, m, p.vlo, p.vhi, w_yes())), ..d } }
}
pub open spec fn after_version(k: Kind, m: Seq<i8>, p: Pseudo, hi: int, ext: bool, d: Decl) -> Decl {
    if !named(k, m, p, w_encoding()) { after_encoding(k, m, p, hi, ext, d) }
    else if !letter(asc(k, m, p.vlo, hi)) { wrong(p.vlo) }
    else { after_encoding(k, m, pseudo(k, m, p.next, hi), hi, ext, Decl { encoding: Some((p.vlo, p.vhi)), ..d }) }
}
pub open spec fn declaration(k: Kind, m: Seq<i8>, i: int, hi: int, ext: bool) -> Decl {
    let p = pseudo(k, m, i, hi);
    let p2 = pseudo(k, m, p.next, hi);
    let d = Decl { ok: true, at: 0, version: None, encoding: None, standalone: None };
    if !p.ok || p.none { wrong(p.next) }
    else if named(k, m, p, w_version()) {
        let d = Decl { version: Some((p.vlo, p.vhi)), ..d };
        if !p2.ok { wrong(p2.next) } else if p2.none { if ext { wrong(p.next) } else { d } } else { after_version(k, m, p2, hi, ext, d) }
    }
    else if !ext { wrong(p.nlo) }
    else { after_version(k, m, p, hi, ext, d) }
}

// ---- names of encodings, compared without regard to case
pub open spec fn upper(c: i8) -> i8 { if 97 <= c <= 122 { (c - 32) as i8 } else { c } }
// the string at p is the (upper-case) word w, in either case
pub open spec fn says(m: Seq<i8>, p: int, w: Seq<i8>) -> bool {
    0 <= p && p + w.len() < m.len() && m[p + w.len()] == 0 && (forall|j: int| 0 <= j < w.len() ==> upper(#[trigger] m[p + j]) == w[j])
}
pub open spec fn ended(m: Seq<i8>, p: int) -> bool { exists|z: int| p <= z < m.len() && #[trigger] m[z] == 0 }
pub open spec fn same_ci(m: Seq<i8>, p: int, n: Seq<i8>, q: int) -> bool
    decreases m.len() - p
{
    0 <= p < m.len() && 0 <= q < n.len() && upper(m[p]) == upper(n[q]) && (m[p] == 0 || same_ci(m, p + 1, n, q + 1))
}
pub open spec fn nm(i: int) -> Seq<i8> {
    if i == 0 { w_latin1() } else if i == 1 { w_ascii() } else if i == 2 { w_utf8() } else if i == 3 { w_utf16() } else if i == 4 { w_utf16be() } else { w_utf16le() }
}
pub open spec fn name_index(m: Seq<i8>, p: int) -> int {
    if says(m, p, nm(0)) { 0 } else if says(m, p, nm(1)) { 1 } else if says(m, p, nm(2)) { 2 } else if says(m, p, nm(3)) { 3 } else if says(m, p, nm(4)) { 4 } else if says(m, p, nm(5)) { 5 } else { -1 }
}
pub proof fn ci_says(m: Seq<i8>, p: int, n: Seq<i8>, q: int, w: Seq<i8>)
    requires 0 <= p, 0 <= q, n.len() == q + w.len() + 1, n[q + w.len()] == 0, forall|j: int| 0 <= j < w.len() ==> n[q + j] == #[trigger] w[j] && w[j] != 0 && upper(w[j]) == w[j],
    ensures same_ci(m, p, n, q) == says(m, p, w),
    decreases w.len(),
{
    reveal_with_fuel(same_ci, 2);
    if w.len() > 0 {
        let t = w.drop_first();
        assert(forall|j: int| 0 <= j < t.len() ==> t[j] == w[j + 1]);
        assert(forall|j: int| 0 <= j < t.len() ==> #[trigger] n[q + 1 + j] == n[q + (j + 1)]);
        if p < m.len() { ci_says(m, p + 1, n, q + 1, t); }
        if says(m, p, w) {
            assert(upper(m[p + 0]) == w[0]);
            assert forall|j: int| 0 <= j < t.len() implies upper(#[trigger] m[p + 1 + j]) == t[j] by { assert(upper(m[p + (j + 1)]) == w[j + 1]); }
            assert(says(m, p + 1, t));
        }
        if same_ci(m, p, n, q) {
            assert(w[0] == n[q]);
            assert(says(m, p + 1, t));
            assert forall|j: int| 0 <= j < w.len() implies upper(#[trigger] m[p + j]) == w[j] by { if j > 0 { assert(upper(m[p + 1 + (j - 1)]) == t[j - 1]); } }
        }
    }
}
// the name of an encoding in a declaration, at most 127 bytes
pub open spec fn found(k: Kind, m: Seq<i8>, lo: int, hi: int, ns: bool) -> Option<EncP> {
    let t = out8(k, m, lo, hi).push(0);
    if t.len() > 128 { None }
    else if says(t, 0, w_utf16()) && is16(k) { Some(EncP::Same) }
    else if name_index(t, 0) < 0 { None }
    else { Some(EncP::Of(name_index(t, 0) as usize, ns)) }
}
pub proof fn pieces(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), i <= j <= l,
    ensures text8(k, m, i, j) + text8(k, m, j, l) == text8(k, m, i, l),
    decreases j - i,
{
    reveal_with_fuel(bound, 3);
    reveal_with_fuel(text8, 3);
    if i < j { pieces(k, m, i + clen(k, m, i), j, l); assert(text8(k, m, i, j) + text8(k, m, j, l) =~= text8(k, m, i, l)); }
    else { assert(text8(k, m, i, j) + text8(k, m, j, l) =~= text8(k, m, i, l)); }
}
pub proof fn ascii_fits(k: Kind, m: Seq<i8>, i: int, hi: int)
    requires fit(k, m, i, hi),
    ensures 0 <= i <= hi <= m.len() <= isize::MAX, asc(k, m, i, hi) >= -1, asc(k, m, i, hi) < 128, i >= hi ==> asc(k, m, i, hi) == -1, asc(k, m, i, hi) != -1 ==> i + step(k) <= hi && fit(k, m, i + step(k), hi) && enc_at(k, m, i).len() == 1 && enc_at(k, m, i)[0] == asc(k, m, i, hi) as i8,
        i < hi && complete(k, m, i, hi) && enc_at(k, m, i).len() == 1 ==> asc(k, m, i, hi) != -1,
{
    reveal(fit);
    reveal(asc);
    reveal_with_fuel(wf8, 2);
    reveal_with_fuel(bound, 2);
    if is16(k) && clen(k, m, i) == 4 { let a = unit(k, m, i); let b = unit(k, m, i + 2); assert(add(0x10000u32, ((a & 0x3ff) << 10) | (b & 0x3ff)) >= 0x10000) by (bit_vector); }
    bits();
}
// the character a converter with room for one byte writes
pub proof fn first_char(k: Kind, m: Seq<i8>, i: int, hi: int)
    requires fit(k, m, i, hi),
    ensures is16(k) ==> (hi - i) % 2 == 0, k == Kind::Utf8 ==> wf8(m, i, hi), k == Kind::Other ==> bound(k, m, i, hi), asc(k, m, i, hi) != -1 ==> complete(k, m, i, hi),
        !complete(k, m, i, hi) ==> asc(k, m, i, hi) == -1,
{
    reveal(fit);
    reveal(asc);
    ascii_fits(k, m, i, hi);
}
pub proof fn words()
    ensures KW_version@ =~= w_version(), KW_encoding@ =~= w_encoding(), KW_standalone@ =~= w_standalone(), KW_yes@ =~= w_yes(), KW_no@ =~= w_no(),
{
}
pub proof fn names_end()
    ensures
        KW_ISO_8859_1@ =~= nm(0).push(0), KW_US_ASCII@ =~= nm(1).push(0), KW_UTF_8@ =~= nm(2).push(0), KW_UTF_16@ =~= nm(3).push(0), KW_UTF_16BE@ =~= nm(4).push(0), KW_UTF_16LE@ =~= nm(5).push(0),
        forall|i: int| 0 <= i < 6 ==> ended(#[trigger] nm(i).push(0), 0),
{
    assert forall|i: int| 0 <= i < 6 implies ended(#[trigger] nm(i).push(0), 0) by { let w = nm(i).push(0); assert(w[w.len() - 1] == 0); }
}
pub proof fn the_names(m: Seq<i8>, p: int)
    requires 0 <= p,
    ensures forall|i: int| 0 <= i < 6 ==> same_ci(m, p, #[trigger] nm(i).push(0), 0) == says(m, p, nm(i)), forall|i: int| 0 <= i < 6 ==> nonzero(#[trigger] nm(i)),
{
    assert forall|i: int| 0 <= i < 6 implies same_ci(m, p, #[trigger] nm(i).push(0), 0) == says(m, p, nm(i)) by { ci_says(m, p, nm(i).push(0), 0, nm(i)); }
}
pub fn call_finder(f: Option<Finder>, enc: &ENCODING, b: Buf) -> (r: Option<EncP>)
    requires f.is_some(), wf(b), readable(enc.kind, b), bound(enc.kind, b.mem@, b.lo as int, b.hi as int), limit(enc.kind, b) == b.hi,
    ensures r == found(enc.kind, b.mem@, b.lo as int, b.hi as int, f == Some(Finder::findEncodingNS)),
{
    match f { Some(Finder::findEncoding) => findEncoding(enc, b), _ => findEncodingNS(enc, b) }
}
// a value is a readable text of its own
pub proof fn value_part(k: Kind, m: Seq<i8>, i: int, hi: int)
    requires fit(k, m, i, hi),
    ensures ({ let j = value_end(k, m, i, hi); i <= j <= hi && aligned(k, j - i) && bound(k, m, i, j) && (k == Kind::Utf8 ==> wf8(m, i, j)) }),
    decreases hi - i,
{
    reveal_with_fuel(wf8, 2);
    reveal_with_fuel(bound, 2);
    ascii_fits(k, m, i, hi);
    if value_char(asc(k, m, i, hi)) {
        reveal(asc);
        value_part(k, m, i + step(k), hi);
        reveal(fit);
    }
}
pub proof fn value_parts(k: Kind, m: Seq<i8>, hi: int)
    ensures forall|i: int| fit(k, m, i, hi) ==> ({ let j = #[trigger] value_end(k, m, i, hi); i <= j <= hi && aligned(k, j - i) && bound(k, m, i, j) && (k == Kind::Utf8 ==> wf8(m, i, j)) }),
{
    assert forall|i: int| fit(k, m, i, hi) implies ({ let j = #[trigger] value_end(k, m, i, hi); i <= j <= hi && aligned(k, j - i) && bound(k, m, i, j) && (k == Kind::Utf8 ==> wf8(m, i, j)) }) by { value_part(k, m, i, hi); }
}
pub open spec fn nxt(k: Kind, m: Seq<i8>, i: int, hi: int) -> bool { asc(k, m, i, hi) != -1 ==> i + step(k) <= hi && fit(k, m, i + step(k), hi) }
pub open spec fn aligned(k: Kind, n: int) -> bool { is16(k) ==> n % 2 == 0 }
pub proof fn all_or_not(k: Kind, f0: Buf, f1: Buf, room: int, out: Seq<i8>, r: XML_Convert_Result)
    requires wf(f0), readable(k, f0), whole(k, f0), conv_rel(k, f0, f1, room, out, r),
    ensures f1.lo == f1.hi ==> out_of(k, f0) == out, f1.lo != f1.hi ==> out_of(k, f0).len() > room,
{
    let m = f0.mem@;
    let (i, at, hi) = (f0.lo as int, f1.lo as int, f0.hi as int);
    if at < hi {
        reveal_with_fuel(text8, 2);
        split(k, m, i, at, hi);
        pieces(k, m, i, at, hi);
        assert(text8(k, m, at, hi) == enc_at(k, m, at) + text8(k, m, at + clen(k, m, at), hi));
    }
}
// boundaries between characters
pub proof fn split(k: Kind, m: Seq<i8>, i: int, j: int, l: int)
    requires bound(k, m, i, j), bound(k, m, i, l), j < l,
    ensures bound(k, m, j, l), j + clen(k, m, j) <= l,
    decreases if i < j { j - i } else { 0 }
{
    reveal_with_fuel(bound, 3);
    if i < j { split(k, m, i + clen(k, m, i), j, l); }
}
pub open spec fn nonzero(w: Seq<i8>) -> bool { forall|j: int| 0 <= j < w.len() ==> w[j] != 0 }
// (a name is compared with all six, so that each of them is a term)
pub proof fn half_name(k: Kind)
    ensures forall|m: Seq<i8>| says(m, 0, w_utf16()) == #[trigger] says(m, 0, nm(3)), forall|m: Seq<i8>, w: Seq<i8>| #[trigger] same_ci(m, 0, w, 0) && w == nm(3).push(0) ==> says(m, 0, nm(3)),
        forall|m: Seq<i8>, w: Seq<i8>| !#[trigger] same_ci(m, 0, w, 0) && w == nm(3).push(0) ==> !says(m, 0, nm(3)),
{
    assert forall|m: Seq<i8>, w: Seq<i8>| w == nm(3).push(0) implies #[trigger] same_ci(m, 0, w, 0) == says(m, 0, nm(3)) by { the_names(m, 0); }
}

// ---- detection of the encoding (XML 1.0 appendix F, as the C library does it)
// protocol: 0 ISO-8859-1, 1 US-ASCII, 2 UTF-8, 3 UTF-16, 4 UTF-16BE, 5 UTF-16LE, 6 none given
pub enum Det { Nothing, More, Bom(int, int), Use(int) }
pub open spec fn detect(p: int, content: bool, m: Seq<i8>, lo: int, hi: int) -> Det {
    let n = hi - lo;
    let (b0, b1, b2) = (m[lo] as u8 as int, m[lo + 1] as u8 as int, m[lo + 2] as u8 as int);
    let two = 3 <= p <= 5;
    // an external entity in ISO-8859-1 can begin with any of these bytes
    let literal = content && p == 0;
    if n == 0 { Det::Nothing }
    else if n == 1 {
        if two || b0 == 0 || b0 == 0x3c || ((b0 == 0xfe || b0 == 0xff || b0 == 0xef) && !literal) { Det::More } else { Det::Use(p) }
    }
    else if b0 == 0xfe && b1 == 0xff && !literal { Det::Bom(2, 4) }
    else if b0 == 0xff && b1 == 0xfe && !literal { Det::Bom(2, 5) }
    else if b0 == 0xef && b1 == 0xbb && !literal && !(content && two) { if n == 2 { Det::More } else if b2 == 0xbf { Det::Bom(3, 2) } else { Det::Use(p) } }
    else if b0 == 0x3c && b1 == 0 { if content && (p == 3 || p == 4) { Det::Use(p) } else { Det::Use(5) } }
    else if b0 == 0 { if content && p == 5 { Det::Use(p) } else { Det::Use(4) } }
    else if b1 == 0 && !content { Det::Use(5) }
    else { Det::Use(p) }
}
// what the first bytes say does not change when more follow; a single byte that begins neither a mark nor
// markup nor a 16-bit character decides at once, and more of the document entity could say otherwise
pub proof fn decided(p: int, content: bool, m: Seq<i8>, lo: int, hi: int, h2: int)
    requires 0 <= lo < hi <= h2 <= m.len(), 0 <= p < 7, !(detect(p, content, m, lo, hi) is More), hi - lo >= 2 || content,
    ensures detect(p, content, m, lo, h2) == detect(p, content, m, lo, hi),
{ }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Table { Plain, Ns }
#[derive(Clone, Copy)]
pub struct Slot { pub cur: Option<EncP> }
pub struct InitEncoding { pub encoding_index: c_int, pub encoding_table: Table, pub encPtr: Slot }
impl InitEncoding {
    pub fn choose(&mut self, i: usize)
        requires i < 7,
        ensures *final(self) == (InitEncoding { encPtr: Slot { cur: Some(EncP::Of(i, old(self).encoding_table == Table::Ns)) }, ..*old(self) }),
    { self.encPtr = Slot { cur: Some(EncP::Of(i, self.encoding_table == Table::Ns)) }; }
}
// what the scanners of the chosen encoding say (C01, C02)
pub uninterp spec fn token(e: EncP, s: XML_STATE, b: Buf) -> (XML_TOK, Ptr);
#[verifier::external_body]
pub fn xml_tok(e: &InitEncoding, s: XML_STATE, b: Buf, n: &mut Ptr) -> (r: XML_TOK)
    requires e.encPtr.cur.is_some(),
    ensures (r, *final(n)) == token(e.encPtr.cur.unwrap(), s, b),
{ unimplemented!() }
pub open spec fn detected(i0: InitEncoding, i1: InitEncoding, content: bool, b: Buf, n0: Ptr, n1: Ptr, r: XML_TOK) -> bool {
    let ns = i0.encoding_table == Table::Ns;
    &&& i1.encoding_index == i0.encoding_index && i1.encoding_table == i0.encoding_table
    &&& match detect(i0.encoding_index as int, content, b.mem@, b.lo as int, b.hi as int) {
        Det::Nothing => r == XML_TOK::NONE && n1 == n0 && i1 == i0,
        Det::More => r == XML_TOK::PARTIAL && n1 == n0 && i1 == i0,
        Det::Bom(l, e) => r == XML_TOK::BOM && n1.mem == b.mem && n1.pos == b.lo + l && i1.encPtr.cur == Some(EncP::Of(e as usize, ns)),
        Det::Use(e) => i1.encPtr.cur == Some(EncP::Of(e as usize, ns)) && (r, n1) == token(EncP::Of(e as usize, ns), if content { XML_STATE::CONTENT } else { XML_STATE::PROLOG }, b),
    }
}
pub proof fn two_bytes(a: u8, b: u8)
    ensures ((a as i32) << 8 | b as i32) == 256 * a + b,
{
    assert(((a as i32) << 8 | b as i32) == add(mul(256i32, a as i32), b as i32)) by (bit_vector);
}
pub proof fn zero_byte()
    ensures forall|b: i8| (#[trigger] (b as u8)) == 0 <==> b == 0,
{
    assert forall|b: i8| (#[trigger] (b as u8)) == 0 <==> b == 0 by { assert((b as u8) == 0 <==> b == 0) by (bit_vector); }
}
