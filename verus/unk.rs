// ---- an encoding described by the application: a table of 256 numbers and a conversion function (xmltok.rs)
#[derive(Clone, Copy)]
pub struct Conv { pub id: Ghost<int> }
pub type Converter = Option<Conv>;
// what the application's function returns for the bytes of one character
pub uninterp spec fn conv_cp(f: Conv, user: Ptr, t: Seq<i8>) -> i32;
#[verifier::external_body]
pub fn call_conv(f: Conv, user: Ptr, p: Ptr) -> (r: i32)
    requires 2 <= other_len(p.mem@[p.pos as int]) <= 4, p.pos + other_len(p.mem@[p.pos as int]) <= p.mem@.len(),
    ensures r == conv_cp(f, user, p.mem@.subrange(p.pos as int, p.pos + other_len(p.mem@[p.pos as int]))),
{ unimplemented!() }
pub fn expect_conv(c: Converter) -> (r: Conv) requires c.is_some(), ensures c == Some(r), { match c { Some(f) => f, None => vpanic() } }
#[derive(Clone, Copy)]
pub struct Table { pub v: Ghost<Seq<i32>> }
#[verifier::external_body]
pub fn tab_at(t: Table, i: isize) -> (r: i32) requires 0 <= i < t.v@.len(), ensures r == t.v@[i as int], { unimplemented!() }
pub fn buf_of(s: &[i8]) -> (r: Buf) requires s@.len() <= 256, ensures wf(r), r.mem@ == s@, r.lo == 0, r.hi == s@.len(), { Buf { mem: Ghost(s@), lo: 0, hi: s.len() } }

// the Latin-1 table: what is used of it here is discharged by the Kani harness value_latin1
pub uninterp spec fn latin1(c: int) -> ByteType;
#[verifier::external_body]
pub fn latin1_type(i: usize) -> (r: ByteType)
    requires i < 256,
    ensures r == latin1(i as int), latin_fact(i as int),
{ unimplemented!() }
// the tables of name characters (values: C04); the harness value_pages shows that no page lies outside the bitmap
pub uninterp spec fn bitmap_at(i: int) -> u32;
pub uninterp spec fn nmstrt_page(i: int) -> u8;
pub uninterp spec fn name_page(i: int) -> u8;
#[verifier::external_body]
pub fn namingBitmap(i: usize) -> (r: u32) requires i < 320, ensures r == bitmap_at(i as int), { unimplemented!() }
#[verifier::external_body]
pub fn nmstrtPages(i: usize) -> (r: u8) requires i < 256, ensures r == nmstrt_page(i as int), r < 40, { unimplemented!() }
#[verifier::external_body]
pub fn namePages(i: usize) -> (r: u8) requires i < 256, ensures r == name_page(i as int), r < 40, { unimplemented!() }
pub open spec fn in_page(page: int, c: int) -> bool { bitmap_at(page * 8 + (c % 256) / 32) & (1u32 << ((c % 32) as u32)) != 0 }
pub open spec fn starts_names(c: int) -> bool { 0 <= c <= 0xffff && in_page(nmstrt_page(c / 256) as int, c) }
pub open spec fn in_names(c: int) -> bool { 0 <= c <= 0xffff && in_page(name_page(c / 256) as int, c) }

pub struct UnknownEncoding { pub types: [ByteType; 256], pub convert: Converter, pub userData: Ptr, pub utf16: [u16; 256], pub utf8: [[i8; 4]; 256] }

// a description is accepted if ASCII characters that mean something are themselves, sequences of several
// bytes come with a function, and characters lie in the basic plane
pub open spec fn good_at(t: Seq<i32>, f: bool, b: int) -> bool {
    &&& (b < 128 && significant(b) ==> t[b] == b)
    &&& -4 <= t[b] <= 0xffff
    &&& (t[b] < -1 ==> f)
    &&& (0 <= t[b] < 0x80 && significant(t[b] as int) ==> t[b] == b)
}
pub open spec fn good(t: Seq<i32>, f: bool) -> bool { forall|b: int| 0 <= b < 256 ==> #[trigger] good_at(t, f, b) }
pub open spec fn cls_of(c: int, b: int, ns: bool) -> ByteType {
    if ns && b == 0x3a { ByteType::COLON }
    else if c == -1 { ByteType::MALFORM }
    else if c == -2 { ByteType::LEAD2 }
    else if c == -3 { ByteType::LEAD3 }
    else if c == -4 { ByteType::LEAD4 }
    else if c < 0x80 { latin1(c) }
    else if !xml_char(c) { ByteType::NONXML }
    else if starts_names(c) { ByteType::NMSTRT }
    else if in_names(c) { ByteType::NAME }
    else { ByteType::OTHER }
}
pub open spec fn entry(u: UnknownEncoding, c: int, b: int, ns: bool) -> bool {
    &&& u.types@[b] == cls_of(c, b, ns)
    &&& u.utf8@[b]@.len() == 4
    &&& if c < -1 { u.utf8@[b]@[0] == 0 && u.utf16@[b] == 0 }
        else if xml_char(c) { u.utf8@[b]@[0] == enc8(c as u32).len() && (forall|j: int| 0 <= j < enc8(c as u32).len() ==> u.utf8@[b]@[1 + j] == #[trigger] enc8(c as u32)[j]) && u.utf16@[b] == c }
        else { u.utf8@[b]@[0] == 1 && u.utf16@[b] != 0 }
}
// the state of an encoding described by t
pub open spec fn described(u: UnknownEncoding, t: Seq<i32>, ns: bool) -> bool {
    &&& t.len() == 256 && good(t, u.convert.is_some())
    &&& forall|b: int| #![trigger u.types@[b]] #![trigger u.utf8@[b]] #![trigger u.utf16@[b]] #![trigger t[b]] 0 <= b < 256 ==> entry(u, t[b] as int, b, ns)
}
// ---- `Kind::Other` of the conversions is this encoding
pub open spec fn is_other(u: UnknownEncoding, t: Seq<i32>) -> bool {
    &&& forall|b: i8| #![trigger other_len(b)] other_len(b) == (if t[b as u8 as int] < -1 { -t[b as u8 as int] } else { 1int })
    &&& forall|s: Seq<i8>| #![trigger other_cp(s)] s.len() > 0 ==> other_cp(s) == (if other_len(s[0]) == 1 { t[s[0] as u8 as int] as u32 } else { conv_cp(u.convert.unwrap(), u.userData, s) as u32 })
}
// the characters from i to hi are complete and legal: what the scanners accepted
pub open spec fn legal(m: Seq<i8>, i: int, hi: int) -> bool
    decreases if i < hi { hi - i } else { 0 }
{
    i >= hi || (i + clen(Kind::Other, m, i) <= hi && xml_char(cp(Kind::Other, m, i) as int) && cp(Kind::Other, m, i) <= 0xffff && legal(m, i + clen(Kind::Other, m, i), hi))
}
pub open spec fn conv_at(u: UnknownEncoding, m: Seq<i8>, i: int) -> int { conv_cp(u.convert.unwrap(), u.userData, m.subrange(i, i + other_len(m[i]))) as int }

// the laws the scanners rely on (verus/enc.rs)
pub proof fn laws(u: UnknownEncoding, t: Seq<i32>, ns: bool, m: Seq<i8>, i: int)
    requires described(u, t, ns), 0 <= i < m.len(),
    ensures class_law(u.types@[m[i] as u8 as int], m[i] as int), lead_n(u.types@[m[i] as u8 as int]) == (if t[m[i] as u8 as int] < -1 { -t[m[i] as u8 as int] } else { 0int }) || ns && m[i] == 0x3a,
{
    let b = m[i] as u8 as int;
    assert(good_at(t, u.convert.is_some(), b));
    assert(entry(u, t[b] as int, b, ns));
    let x = m[i];
    assert((x as u8) < 128 ==> x as u8 == x) by (bit_vector);
    assert(x as u8 >= 128 ==> x < 0) by (bit_vector);
    if 0 <= t[b] < 128 { latin_axiom(t[b] as int); }
}
pub proof fn pages(c: i32, p: u8)
    ensures 0 <= c <= 0xffff ==> (c >> 8) == c / 256 && (c & 0xff) == c % 256 && ((c & 0xff) >> 5) == (c % 256) / 32 && ((c & 0xff) & 0x1f) == c % 32,
        ((p as i32) << 3) == p * 8, ((p as usize) << 3) == p * 8,
        (c & !0xffff) == 0 <==> 0 <= c <= 0xffff,
        (c & 0xff & 0x1f) == ((c & 0xff) & 0x1f), 0 <= (c & 0xff) <= 255, (c & 0xff) as u8 as usize >> 5 == (c & 0xff) as usize >> 5,
{
    assert(0 <= c <= 0xffff ==> (c >> 8) == c / 256 && (c & 0xff) == c % 256 && ((c & 0xff) >> 5) == (c % 256) / 32 && ((c & 0xff) & 0x1f) == c % 32) by (bit_vector);
    assert(((p as i32) << 3) == p * 8) by (bit_vector);
    assert(((p as usize) << 3) == p * 8) by (bit_vector);
    assert((c & !0xffff) == 0 <==> 0 <= c <= 0xffff) by (bit_vector);
    assert(0 <= (c & 0xff) <= 255) by (bit_vector);
    assert((c & 0xff) as u8 as usize >> 5 == (c & 0xff) as usize >> 5) by (bit_vector);
}
pub open spec fn latin_fact(c: int) -> bool {
    &&& (c < 128 ==> cls_ok(latin1(c), c))
    &&& (c == 0x3a ==> latin1(c) == ByteType::NMSTRT)
    &&& (c >= 128 ==> latin1(c) != ByteType::NONXML && lead_n(latin1(c)) == 0)
}
pub axiom fn latin_axiom(c: int)
    requires 0 <= c < 256,
    ensures latin_fact(c);
pub proof fn latin_xml(c: int)
    ensures 0 <= c < 256 ==> (latin1(c) == ByteType::NONXML <==> !xml_char(c)),
{ if 0 <= c < 256 { latin_axiom(c); } }
pub proof fn latin_not_lead(c: int)
    ensures 0 <= c < 128 ==> lead_n(latin1(c)) == 0,
{ if 0 <= c < 256 { latin_axiom(c); } }
pub proof fn encodes(c: i32)
    ensures
        0 <= c < 0x80 ==> (c | 0) as i8 == c as u32 as i8,
        0 <= c < 0x800 ==> (c >> 6 | 0xc0) as i8 == (0xc0 | (c as u32 >> 6)) as i8,
        0 <= c ==> (c & 0x3f | 0x80) as i8 == (0x80 | (c as u32 & 0x3f)) as i8,
        0 <= c < 0x10000 ==> (c >> 12 | 0xe0) as i8 == (0xe0 | (c as u32 >> 12)) as i8,
        0 <= c ==> (c >> 6 & 0x3f | 0x80) as i8 == (0x80 | ((c as u32 >> 6) & 0x3f)) as i8,
        0 <= c ==> (c >> 12 & 0x3f | 0x80) as i8 == (0x80 | ((c as u32 >> 12) & 0x3f)) as i8,
        0 <= c < 0x110000 ==> (c >> 18 | 0xf0) as i8 == (0xf0 | (c as u32 >> 18)) as i8,
{
    assert(0 <= c < 0x80 ==> (c | 0) as i8 == c as u32 as i8) by (bit_vector);
    assert(0 <= c < 0x800 ==> (c >> 6 | 0xc0) as i8 == (0xc0 | (c as u32 >> 6)) as i8) by (bit_vector);
    assert(0 <= c ==> (c & 0x3f | 0x80) as i8 == (0x80 | (c as u32 & 0x3f)) as i8) by (bit_vector);
    assert(0 <= c < 0x10000 ==> (c >> 12 | 0xe0) as i8 == (0xe0 | (c as u32 >> 12)) as i8) by (bit_vector);
    assert(0 <= c ==> (c >> 6 & 0x3f | 0x80) as i8 == (0x80 | ((c as u32 >> 6) & 0x3f)) as i8) by (bit_vector);
    assert(0 <= c ==> (c >> 12 & 0x3f | 0x80) as i8 == (0x80 | ((c as u32 >> 12) & 0x3f)) as i8) by (bit_vector);
    assert(0 <= c < 0x110000 ==> (c >> 18 | 0xf0) as i8 == (0xf0 | (c as u32 >> 18)) as i8) by (bit_vector);
}
// the two ways in which the code tests a bit
pub proof fn page_bits(c: i32)
    ensures 0 <= c <= 0xffff ==> ((c & 0xff) as u8 as usize) & 0x1f == c % 32 && ((c & 0xff) as u8 as usize) >> 5 == (c % 256) / 32 && (c >> 8) as u8 == c / 256  && (c & 0xff & 0x1f) == c % 32,
{
    assert(0 <= c <= 0xffff ==> ((c & 0xff) as u8 as usize) & 0x1f == c % 32 && ((c & 0xff) as u8 as usize) >> 5 == (c % 256) / 32 && (c >> 8) as u8 == c / 256 && (c & 0xff & 0x1f) == c % 32) by (bit_vector);
}
// the next character: what the tables and the function say of it
pub proof fn step(u: UnknownEncoding, t: Seq<i32>, ns: bool, m: Seq<i8>, i: int, hi: int)
    requires described(u, t, ns), is_other(u, t), 0 <= i < hi <= m.len(), legal(m, i, hi),
    ensures ({
        let b = m[i] as u8 as int;
        &&& entry(u, t[b] as int, b, ns) && good_at(t, u.convert.is_some(), b)
        &&& (t[b] >= 0 ==> clen(Kind::Other, m, i) == 1 && cp(Kind::Other, m, i) == t[b] && xml_char(t[b] as int) && u.utf8@[b]@[0] > 0)
        &&& (t[b] < 0 ==> t[b] < -1 && u.convert.is_some() && clen(Kind::Other, m, i) == -t[b] && code_of(u.types@[b]) == 3 - t[b] && cp(Kind::Other, m, i) == conv_at(u, m, i) as i32 as u32 && 0 <= conv_at(u, m, i) <= 0xffff)
        &&& i + clen(Kind::Other, m, i) <= hi && legal(m, i + clen(Kind::Other, m, i), hi)
        &&& cp(Kind::Other, m, i) <= 0xffff && enc16(cp(Kind::Other, m, i)).len() == 1
    }),
{
    let b = m[i] as u8 as int;
    assert(entry(u, t[b] as int, b, ns));
    assert(good_at(t, u.convert.is_some(), b));
    reveal_with_fuel(legal, 2);
    let s = m.subrange(i, i + clen(Kind::Other, m, i));
    assert(s[0] == m[i]);
    if t[b] < -1 {
        let x = conv_cp(u.convert.unwrap(), u.userData, s);
        assert(other_cp(s) == x as u32);
        assert((x as u32) <= 0xffff ==> 0 <= x) by (bit_vector);
    } else {
        let x = t[b];
        assert(other_cp(s) == x as u32);
        assert(x == -1 ==> x as u32 > 0xffff) by (bit_vector);
    }
}
