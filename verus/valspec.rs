// What the value functions of the tokenizer compute.  Restricted syntax (see tokspec.rs).

// ---- character references: after "&#"; values beyond U+10FFFF stay beyond
pub open spec fn digit(a: int) -> int {
    if 0x30 <= a && a <= 0x39 { a - 0x30 } else if 0x61 <= a && a <= 0x66 { a - 0x61 + 10 } else if 0x41 <= a && a <= 0x46 { a - 0x41 + 10 } else { 0 }
}
pub open spec fn crv<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, base: int, acc: int) -> int
    decreases hi - i when e.bpc() > 0
{
    if acc > 0x10ffff || i + e.bpc() > hi || e.ct(m, i) == ByteType::SEMI { acc }
    else { crv(e, m, i + e.bpc(), hi, base, acc * base + digit(e.asc(m, i) as int)) }
}
pub open spec fn xml_char(c: int) -> bool {
    c == 0x9 || c == 0xa || c == 0xd || (0x20 <= c && c <= 0xd7ff) || (0xe000 <= c && c <= 0xfffd) || (0x10000 <= c && c <= 0x10ffff)
}
pub open spec fn checked(c: int) -> int { if xml_char(c) { c } else { -1 } }
pub open spec fn sp_charnum<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int {
    if e.asc(m, i) == 0x78 { checked(crv(e, m, i + e.bpc(), hi, 16, 0)) } else { checked(crv(e, m, i, hi, 10, 0)) }
}

// ---- the five predefined entities
pub open spec fn sp_predef<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int {
    let b = e.bpc();
    let n = hi - i;
    if n == 2 * b && e.asc(m, i) == 0x6c && e.asc(m, i + b) == 0x74 { 0x3c }
    else if n == 2 * b && e.asc(m, i) == 0x67 && e.asc(m, i + b) == 0x74 { 0x3e }
    else if n == 3 * b && e.asc(m, i) == 0x61 && e.asc(m, i + b) == 0x6d && e.asc(m, i + 2 * b) == 0x70 { 0x26 }
    else if n == 4 * b && e.asc(m, i) == 0x71 && e.asc(m, i + b) == 0x75 && e.asc(m, i + 2 * b) == 0x6f && e.asc(m, i + 3 * b) == 0x74 { 0x22 }
    else if n == 4 * b && e.asc(m, i) == 0x61 && e.asc(m, i + b) == 0x70 && e.asc(m, i + 2 * b) == 0x6f && e.asc(m, i + 3 * b) == 0x73 { 0x27 }
    else { 0 }
}

// ---- does the text equal the ASCII word s[k..]
pub open spec fn sp_same<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, s: Seq<i8>, k: int) -> bool
    decreases s.len() - k
{
    if k >= s.len() { i == hi } else { i + e.bpc() <= hi && e.asc(m, i) == s[k] && sp_same(e, m, i + e.bpc(), hi, s, k + 1) }
}

// ---- public identifiers: first character that is no PubidChar, or -1
pub open spec fn pubid(a: int) -> bool {
    a == 0x20 || a == 0xd || a == 0xa || (0x61 <= a && a <= 0x7a) || (0x41 <= a && a <= 0x5a) || (0x30 <= a && a <= 0x39)
    || a == 0x2d || a == 0x27 || a == 0x28 || a == 0x29 || a == 0x2b || a == 0x2c || a == 0x2e || a == 0x2f || a == 0x3a || a == 0x3d
    || a == 0x3f || a == 0x3b || a == 0x21 || a == 0x2a || a == 0x23 || a == 0x40 || a == 0x24 || a == 0x5f || a == 0x25
}
pub open spec fn sp_pub_bad<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int
    decreases hi - i when e.bpc() > 0
{
    if i + e.bpc() > hi { -1 } else if !pubid(e.asc(m, i) as int) { i } else { sp_pub_bad(e, m, i + e.bpc(), hi) }
}

// ---- line and column after the text
pub struct LC { pub line: int, pub col: int }
pub open spec fn sp_pos<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int, line: int, col: int) -> LC
    decreases hi - i when e.bpc() > 0
{
    if i + e.bpc() > hi { LC { line: line, col: col } } else {
        let n = lead_n(e.ct(m, i));
        if i + n > hi { LC { line: line, col: col + 1 } }
        else if n > 0 { sp_pos(e, m, i + n, hi, line, col + 1) }
        else if e.ct(m, i) == ByteType::LF { sp_pos(e, m, i + e.bpc(), hi, line + 1, 0) }
        else if e.ct(m, i) == ByteType::CR {
            if i + 2 * e.bpc() <= hi && e.ct(m, i + e.bpc()) == ByteType::LF { sp_pos(e, m, i + 2 * e.bpc(), hi, line + 1, 0) }
            else { sp_pos(e, m, i + e.bpc(), hi, line + 1, 0) }
        } else { sp_pos(e, m, i + e.bpc(), hi, line, col + 1) }
    }
}
// ---- length of the name at i, with the character after it inside the text
pub open spec fn name_ct(t: ByteType) -> bool {
    match t {
        ByteType::LEAD2 | ByteType::LEAD3 | ByteType::LEAD4 | ByteType::NONASCII | ByteType::NMSTRT | ByteType::COLON | ByteType::HEX
        | ByteType::DIGIT | ByteType::NAME | ByteType::MINUS => true,
        _ => false,
    }
}
pub open spec fn sp_name_end<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int
    decreases hi - i when e.bpc() > 0
{
    if i + e.bpc() > hi { hi + 1 } else if !name_ct(e.ct(m, i)) { i } else {
        let n = lead_n(e.ct(m, i));
        if i + n > hi { hi + 1 } else { sp_name_end(e, m, i + if n > 0 { n } else { e.bpc() }, hi) }
    }
}
pub open spec fn sp_skip_s<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int
    decreases hi - i when e.bpc() > 0
{
    if i + e.bpc() > hi { hi + 1 } else if !is_s(e.ct(m, i)) { i } else { sp_skip_s(e, m, i + e.bpc(), hi) }
}
