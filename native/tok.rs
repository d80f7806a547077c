// Native driver for the tokenizers: the real functions against the executable reference lexer.
use super::*;
use crate::lib::xmltok_impl::*;
pub mod common { include!(concat!(env!("VNATIVE"), "/common.rs")); }
include!(concat!(env!("VNATIVE"), "/names.rs"));
include!(concat!(env!("VNATIVE"), "/refenc.rs"));
include!(concat!(env!("VGEN"), "/cls.rs"));
include!(concat!(env!("VGEN"), "/tokspec.rs"));
use common::Ctx;

pub const NENC: usize = 14;
pub fn renc(k: usize) -> RE {
    let f = [Form::Latin1, Form::Ascii, Form::Utf8, Form::Be, Form::Le, Form::Utf8, Form::Le][k % 7];
    RE { form: f, ns: k >= 7, internal: k % 7 >= 5 }
}
pub fn enc(k: usize) -> &'static ENCODING {
    match k {
        0 | 1 | 2 | 3 => encodings[k],
        4 => encodings[5],
        5 => XmlGetUtf8InternalEncoding(),
        6 => XmlGetUtf16InternalEncoding(),
        7 | 8 | 9 | 10 => encodingsNS[k - 7],
        11 => encodingsNS[5],
        12 => XmlGetUtf8InternalEncodingNS(),
        _ => XmlGetUtf16InternalEncodingNS(),
    }
}
pub fn put(e: &RE, c: u32, out: &mut Vec<u8>) {
    match e.form {
        Form::Utf8 => { if let Some(ch) = std::char::from_u32(c) { let mut b = [0; 4]; out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes()); } else { out.extend_from_slice(&[0xed, 0xa0, 0x80]); } }
        Form::Latin1 | Form::Ascii => out.push(if c < 256 { c as u8 } else { 0xe9 }),
        Form::Le | Form::Be => {
            let mut u = [0u16; 2];
            let n = if c >= 0x10000 { let v = c - 0x10000; u = [0xd800 | (v >> 10) as u16, 0xdc00 | (v & 0x3ff) as u16]; 2 } else { u[0] = c as u16; 1 };
            for x in &u[..n] { if e.form == Form::Le { out.push(*x as u8); out.push((*x >> 8) as u8) } else { out.push((*x >> 8) as u8); out.push(*x as u8) } }
        }
    }
}
pub fn text(e: &RE, s: &str) -> Vec<u8> { let mut v = Vec::new(); for c in s.chars() { put(e, c as u32, &mut v) } v }

pub fn whole(e: &RE, m: &[i8]) -> bool {
    let mut i = 0;
    let hi = m.len() as i64;
    while i + e.bpc() <= hi {
        let n = lead_n(e.ct(m, i));
        i += if n > 0 { n } else { e.bpc() };
        if i > hi { return false; }
    }
    true
}
// one unit or sequence of one encoding: every function against the reference classification
fn unit<E: XmlEncodingImpl>(e: &E, r: RE, m: &[i8; 4]) -> Result<(), String> {
    let p = m.as_ptr();
    if e.MINBPC() as i64 != r.bpc() { return Err(format!("MINBPC {}", e.MINBPC())); }
    let t = e.byte_type(p);
    if t != r.ct(m, 0) { return Err(format!("character class {}, expected {}", t as i32, r.ct(m, 0) as i32)); }
    if e.byte_to_ascii(p) != r.asc(m, 0) { return Err(format!("ASCII value {}, expected {}", e.byte_to_ascii(p), r.asc(m, 0))); }
    if !class_law_std(t, e.byte_to_ascii(p) as i64) { return Err(format!("class {} of ASCII {}", t as i32, e.byte_to_ascii(p))); }
    for &c in &[m[0], m[1], 0x3c, 0x26, 0x78, 0x00] { if c > 0 && e.char_matches(p, c) != (r.asc(m, 0) == c) { return Err(format!("comparison with {:?}", c as u8 as char)); } }
    if t == ByteType::NONASCII && e.is_name_char_minbpc(p) != r.nmc1(m, 0) { return Err(format!("name character: {}", !r.nmc1(m, 0))); }
    if t == ByteType::NONASCII && e.is_nmstrt_char_minbpc(p) != r.nms1(m, 0) { return Err(format!("name start character: {}", !r.nms1(m, 0))); }
    let n = lead_n(t);
    if n > 0 {
        if e.is_invalid_char(p, n as isize) != r.bad(m, 0, n) { return Err(format!("malformed: {}, expected {}", !r.bad(m, 0, n), r.bad(m, 0, n))); }
        let (x, y) = (e.is_name_char(p, n as isize), e.is_nmstrt_char(p, n as isize));
        if !r.bad(m, 0, n) && x != r.nmc(m, 0, n) { return Err(format!("name character: {}, expected {}", x, !x)); }
        if !r.bad(m, 0, n) && y != r.nms(m, 0, n) { return Err(format!("name start character: {}, expected {}", y, !y)); }
    }
    Ok(())
}
fn classes(k: usize, b: &[u8]) -> Result<(), String> {
    let mut m = [0i8; 4];
    for i in 0..4 { m[i] = b[i] as i8; }
    let r = renc(k);
    let x = match k {
        0 => unit(&latin1_encoding, r, &m), 1 => unit(&ascii_encoding, r, &m), 2 => unit(&utf8_encoding, r, &m), 3 => unit(&big2_encoding, r, &m),
        4 => unit(&little2_encoding, r, &m), 5 => unit(&internal_utf8_encoding, r, &m), 6 => unit(&internal_little2_encoding, r, &m),
        7 => unit(&latin1_encoding_ns, r, &m), 8 => unit(&ascii_encoding_ns, r, &m), 9 => unit(&utf8_encoding_ns, r, &m), 10 => unit(&big2_encoding_ns, r, &m),
        11 => unit(&little2_encoding_ns, r, &m), 12 => unit(&internal_utf8_encoding_ns, r, &m), _ => unit(&internal_little2_encoding_ns, r, &m),
    };
    x.map_err(|e| format!("encoding {} ({:?}), bytes {:02x?}: {}", k, r.form, b, e))
}
fn search_classes(c: &mut Ctx) {
    for k in 0..NENC {
        let r = renc(k);
        for a in 0..256usize {
            if r.bpc() == 1 {
                let n = lead_n(r.unit_class(a as u32));
                c.case(&[k as i64], &[a as u8, 0, 0, 0]);
                if n >= 2 { for x in 0..256usize {
                    if n == 2 { c.case(&[k as i64], &[a as u8, x as u8, 0, 0]); continue; }
                    for y in 0..256usize {
                        if n == 3 { c.case(&[k as i64], &[a as u8, x as u8, y as u8, 0]); continue; }
                        if n == 4 && (y & 0x3f == 0 || y & 0x3f == 0x3f || y == 0x9c) { for &z in &[0usize, 0x7f, 0x80, 0x9b, 0xbd, 0xbe, 0xbf, 0xc0, 0xff] { c.case(&[k as i64], &[a as u8, x as u8, y as u8, z as u8]); } }
                    }
                } }
            } else {
                for x in 0..256usize {
                    for &(y, z) in &[(0u8, 0u8), (0xd7, 0xd7), (0xd8, 0xd8), (0xdb, 0xdb), (0xdc, 0xdc), (0xdf, 0xdf), (0xe0, 0xe0), (0xff, 0xff), (0xdc, 0x00), (0x00, 0xdc)] { c.case(&[k as i64], &[a as u8, x as u8, y, z]); }
                }
            }
        }
    }
}
// one readable page between two that are not
pub fn guarded() -> *mut u8 {
    static mut PAGE: *mut u8 = std::ptr::null_mut();
    unsafe {
        if PAGE.is_null() {
            let m = libc::mmap(std::ptr::null_mut(), 3 * 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            if m as isize == -1 || libc::mprotect(m.add(4096) as *mut libc::c_void, 4096, libc::PROT_READ | libc::PROT_WRITE) != 0 { std::process::exit(9) }
            PAGE = m.add(4096);
        }
        PAGE
    }
}
// params: [encoding, tokenizer, layout, filler]; the text lies at the end (0) or start (1) of a page
fn run(prop: &str, p: &[i64], b: &[u8]) -> Result<(), String> {
    if prop == "encoding-classes" { return classes(p[0] as usize, b); }
    let (k, t) = (p[0] as usize, p[1]);
    let e = renc(k);
    let safety = prop == "tokenizer-safety";
    // the text lies against a page that cannot be read: at its end, or at its start
    if b.len() > 4096 { return Ok(()); }
    let page = guarded();
    let (lo, hi) = if p[2] == 0 { (4096 - b.len() as i64, 4096) } else { (0, b.len() as i64) };
    unsafe {
        std::ptr::write_bytes(page, p[3] as u8, 4096);
        std::ptr::copy_nonoverlapping(b.as_ptr(), page.add(lo as usize), b.len());
    }
    let m: &[i8] = unsafe { std::slice::from_raw_parts(page as *const i8, 4096) };
    if t == 3 || t == 4 { if !whole(&e, &m[lo as usize..hi as usize]) { return Ok(()); } }
    let base = m.as_ptr();
    let buf = ExpatBufRef::new(unsafe { base.add(lo as usize) }, unsafe { base.add(hi as usize) });
    static OUTSIDE: [i8; 1] = [0];
    let sentinel = OUTSIDE.as_ptr();
    let mut next = sentinel;
    let en = enc(k);
    let r = match t {
        0 => en.prologTok(buf, &mut next),
        1 => en.contentTok(buf, &mut next),
        2 => en.cdataSectionTok(buf, &mut next),
        3 => en.attributeValueTok(buf, &mut next),
        4 => en.entityValueTok(buf, &mut next),
        _ => en.ignoreSectionTok(buf, &mut next),
    };
    let n = if next == sentinel { -1 } else { { (next as isize - base as isize) as i64 } };
    if safety {
        if n != -1 && !(lo <= n && n <= hi) { return Err(format!("next position {} outside the text of {} bytes", n - lo, b.len())); }
        if r as i32 >= 0 && n == -1 { return Err(format!("{:?} without a next position", r as i32)); }
        if r as i32 > 0 && r != XML_TOK::INSTANCE_START && n <= lo { return Err(format!("token {} of no length", r as i32)); }
        return Ok(());
    }
    let s = match t {
        0 => sp_prolog_tok(&e, m, lo, hi),
        1 => sp_content_tok(&e, m, lo, hi),
        2 => sp_cdata_tok(&e, m, lo, hi),
        3 => sp_attval_tok(&e, m, lo, hi),
        4 => sp_entval_tok(&e, m, lo, hi),
        _ => sp_ignore_tok(&e, m, lo, hi),
    };
    if r != s.t || n != s.n {
        return Err(format!("{} of encoding {} gives token {} at {}, the grammar {} at {} (text {:02x?})",
            ["prologTok", "contentTok", "cdataSectionTok", "attributeValueTok", "entityValueTok", "ignoreSectionTok"][t as usize], k, r as i32, n - lo, s.t as i32, s.n - lo, b));
    }
    Ok(())
}

pub const SEEDS: &[&str] = &[
    "<a>", "<ab/>", "<a b='c'>", "<a b=\"c\" d='e'/>", "<a\n b = \"c&lt;d\" >", "<a:b c:d='&#65;&#x4a;'\t/>", "<a b='x' c>", "</a>", "</a:b  >", "<!--x-y-->", "<!-- -- -->",
    "<![CDATA[x]]>", "]]>", "a]]>", "]]", "]", "]x]>", "a]b]]c", "<?p?>", "<?pi x?y?>", "<?xml version='1.0'?>", "<?XML?>", "<?xMl ?>", "<?xm?>", "<?xmlx?>", "&lt;", "&a:b;", "&#65;", "&#x41F;", "&#;", "&#x;", "&#12a;",
    "%pe;", "% x", "%%", "#PCDATA", "#IMPLIED>", "#a|", "'lit'", "\"li't\" ", "'lit'>", "'l'x", "\"a<b\"%", "<!DOCTYPE a", "<!ELEMENT%x;", "<!A%%", "<!A% ", "<![", "<!--", "<!-", "(a|b)*", ")*", ")?", ")+", ") ", "),", ")x", "a,", "a|", "a)", "a+", "a*", "a?", "a:b", "a:b:c", "a:1", "a[", "a%", "1a", "1a?", "-a+", ":a", ",", "|", ">", "[", "  \r\n x", " \r", "\r", "\r\n", "\rx", "a\nb", "a\r\nb", "a\tb", "a&b;", "a<b", "a%b;", "x<![y]]>z]]>", "<![a]]>b<![c]]>]]>", "]]]>", "<<![x]]>]]>", "ab cd", "a\u{e9}b", "\u{e9}", "\u{3042}x", "x\u{3042}", "\u{10000}", "a\u{10ffff}", "\u{fffe}", "\u{b7}", "<\u{e9}/>", "<a\u{3042} \u{3042}='\u{10000}'>", "&\u{e9};", "%\u{3042};", "#\u{3042}|", "a:\u{3042}", "<?\u{3042}a\u{b7}?>", "'\u{3042}'>", "<!--\u{10000}-->", "</\u{3042}a>",
];
pub const SYMS: &[u32] = &[0x3c, 0x3e, 0x21, 0x3f, 0x2f, 0x2d, 0x5b, 0x5d, 0x26, 0x3b, 0x23, 0x78, 0x61, 0x67, 0x30, 0x39, 0x3a, 0x3d, 0x27, 0x22, 0x20, 0x09, 0x0d, 0x0a, 0x25, 0x7c, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2e, 0x40, 0x00, 0x0b, 0x7f, 0x6d, 0x6c, 0x58, 0x4d, 0x4c, 0x43, 0x44, 0x41, 0x54, 0x5f, 0xe9, 0xb7, 0xd7, 0x3042, 0x20ac, 0x10000, 0xfffe, 0xffff, 0xd800, 0xdc00, 0x13c, 0x3d7, 0x203c, 0x3e00];
pub const RAW: &[u8] = &[0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0xfe, 0x00, 0x28, 0xa0, 0x9f, 0x90, 0x8f, 0xd8, 0xdb, 0xdc, 0xdf, 0x01];

fn try_all(c: &mut Ctx, k: usize, b: &[u8]) {
    let g = [(0i64, 0i64), (0, 0x3c), (1, 0x3e), (1, 0x5d), (1, 0x2d), (1, 0x3b), (0, 0xe9)];
    let (x, y) = *c.pick(&g);
    for t in 0..6 { c.case(&[k as i64, t, x, y], b); }
}
fn search(c: &mut Ctx) {
    if c.prop == "encoding-classes" { return search_classes(c); }
    let order = [2usize, 9, 4, 10, 0, 5, 12, 13, 7, 1, 11, 3, 8, 6];
    // every seed, every truncation, in every encoding
    for &k in &order { let e = renc(k); for s in SEEDS { let b = text(&e, s); for n in 0..=b.len() { try_all(c, k, &b[..n]) } } }
    // every string of up to 2 symbols, after every seed prefix in UTF-8; up to 3 alone
    for &k in &order {
        let e = renc(k);
        for &x in SYMS { for &y in SYMS {
            let mut b = Vec::new(); put(&e, x, &mut b); put(&e, y, &mut b); try_all(c, k, &b);
        } }
    }
    // one symbol replaced, inserted or removed anywhere in a seed
    for &k in &order {
        let e = renc(k);
        for s in SEEDS {
            let cs: Vec<u32> = s.chars().map(|c| c as u32).collect();
            for i in 0..=cs.len() { for &x in SYMS { for mode in 0..2 {
                if mode == 0 && i == cs.len() { continue; }
                let mut b = Vec::new();
                for (j, &y) in cs.iter().enumerate() { if j == i { put(&e, x, &mut b); if mode == 0 { continue; } } put(&e, y, &mut b); }
                if i == cs.len() { put(&e, x, &mut b); }
                try_all(c, k, &b);
            } } }
            if c.late() { return; }
        }
    }
    // random edits, including raw bytes
    loop {
        let k = *c.pick(&order);
        let e = renc(k);
        let s = *c.pick(SEEDS);
        let mut b = text(&e, s);
        if c.below(3) == 0 { let s2 = *c.pick(SEEDS); b.extend(text(&e, s2)); }
        for _ in 0..1 + c.below(4) {
            let i = c.below(b.len() + 1);
            match c.below(4) {
                0 => { let mut x = Vec::new(); let y = *c.pick(SYMS); put(&e, y, &mut x); for (j, z) in x.into_iter().enumerate() { b.insert(i + j, z) } }
                1 => { let y = *c.pick(RAW); b.insert(i, y) }
                2 => if i < b.len() { let y = *c.pick(RAW); b[i] = y },
                _ => if i < b.len() { b.remove(i); },
            }
        }
        if c.below(3) == 0 { let n = c.below(b.len() + 1); b.truncate(n); }
        try_all(c, k, &b);
        if std::time::Instant::now() > c.deadline { return; }
    }
}
pub fn main() { common::main(run, search) }
