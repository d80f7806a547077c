// Value functions without loops, checked over their whole domain.
use super::*;
include!(concat!(env!("VGEN"), "/charval.rs"));

#[kani::proof]
fn value_check() {
    let n: i32 = kani::any();
    kani::assume(n >= 0 && n < 0x110000);
    assert!(checkCharRefNumber(n) as i64 == checked(n as i64), "checkCharRefNumber: exactly the characters of XML 1.0");
}
#[kani::proof]
fn value_utf8() {
    let n: i32 = kani::any();
    let mut b = [0x55 as c_char; 4];
    let r = XmlUtf8Encode(n, &mut b);
    let u = |i: usize| b[i] as u8 as i32;
    if n < 0 || n >= 0x110000 { assert!(r == 0, "XmlUtf8Encode: no such character"); }
    else if n < 0x80 { assert!(r == 1 && u(0) == n, "XmlUtf8Encode: one byte"); }
    else if n < 0x800 { assert!(r == 2 && u(0) / 0x20 == 6 && u(1) / 0x40 == 2 && (u(0) % 0x20) * 0x40 + u(1) % 0x40 == n, "XmlUtf8Encode: two bytes"); }
    else if n < 0x10000 { assert!(r == 3 && u(0) / 0x10 == 14 && u(1) / 0x40 == 2 && u(2) / 0x40 == 2 && (u(0) % 0x10) * 0x1000 + (u(1) % 0x40) * 0x40 + u(2) % 0x40 == n, "XmlUtf8Encode: three bytes"); }
    else { assert!(r == 4 && u(0) / 8 == 30 && u(1) / 0x40 == 2 && u(2) / 0x40 == 2 && u(3) / 0x40 == 2 && (u(0) % 8) * 0x40000 + (u(1) % 0x40) * 0x1000 + (u(2) % 0x40) * 0x40 + u(3) % 0x40 == n, "XmlUtf8Encode: four bytes"); }
    let mut i = 0;
    while i < 4 { assert!((i as i32) < r || b[i] == 0x55, "XmlUtf8Encode: nothing behind the character is written"); i += 1; }
}
#[kani::proof]
fn value_utf16() {
    let n: i32 = kani::any();
    let mut b = [0x5555 as c_ushort; 2];
    let r = XmlUtf16Encode(n, &mut b);
    if n < 0 || n >= 0x110000 { assert!(r == 0, "XmlUtf16Encode: no such character"); }
    else if n < 0x10000 { assert!(r == 1 && b[0] as i32 == n && b[1] == 0x5555, "XmlUtf16Encode: one unit"); }
    else { assert!(r == 2 && b[0] as i32 / 0x400 == 0x36 && b[1] as i32 / 0x400 == 0x37 && (b[0] as i32 % 0x400) * 0x400 + b[1] as i32 % 0x400 + 0x10000 == n, "XmlUtf16Encode: two units"); }
}
// what verus/unk.rs takes for granted of the tables
mod cls { use super::ByteType; include!(concat!(env!("VGEN"), "/cls.rs")); }
#[kani::proof]
fn value_latin1() {
    let a: usize = kani::any();
    kani::assume(a < 256);
    let t = Latin1EncodingTable::types[a];
    if a < 128 { assert!(cls::cls_ok(t, a as i64), "Latin1EncodingTable: the class of an ASCII character"); }
    if a == 0x3a { assert!(t == ByteType::NMSTRT, "Latin1EncodingTable: the colon"); }
    if a >= 128 { assert!(t != ByteType::NONXML && t != ByteType::LEAD2 && t != ByteType::LEAD3 && t != ByteType::LEAD4, "Latin1EncodingTable: classes of the other characters"); }
}
#[kani::proof]
fn value_pages() {
    let h: usize = kani::any();
    kani::assume(h < 256);
    assert!(nmstrtPages[h] < 40 && namePages[h] < 40, "the pages lie inside the bitmap");
}
