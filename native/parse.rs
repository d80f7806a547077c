// Native driver at the level of the API: runs a program of calls against the crate and against the
// system's C libexpat (an independent implementation of the same interface) and compares everything a
// user can observe: events, their arguments, positions, return values, error codes.
use std::ffi::{CStr, CString};
use std::os::raw::{c_char as cc, c_int, c_long, c_uint, c_ulong, c_void};
use std::cell::RefCell;
pub mod common { include!(concat!(env!("VNATIVE"), "/common.rs")); }
use common::Ctx;

pub type P = *mut c_void;
#[repr(C)]
pub struct Cp { typ: c_uint, quant: c_uint, name: *const cc, n: c_uint, ch: *mut Cp }
#[repr(C)]
pub struct EncInfo { map: [c_int; 256], data: *mut c_void, convert: Option<unsafe extern "C" fn(*mut c_void, *const cc) -> c_int>, release: Option<unsafe extern "C" fn(*mut c_void)> }
#[repr(C)]
#[derive(Default)]
pub struct PStatus { parsing: c_uint, fin: u8 }

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        mod ours { use super::*; #[allow(clashing_extern_declarations)] extern "C" { $(pub fn $n($(_: $a),*) $(-> $r)?;)* } }
        fn rexpat() -> Api { Api { $($n: ours::$n,)* } }
        fn system() -> Option<Api> { unsafe {
            let n = CString::new("libexpat.so.1").unwrap();
            let h = libc::dlopen(n.as_ptr(), libc::RTLD_NOW | 8);
            if h.is_null() { return None }
            $(let $n = { let s = CString::new(stringify!($n)).unwrap(); let p = libc::dlsym(h, s.as_ptr()); if p.is_null() { return None } std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($a),*) $(-> $r)?>(p) };)*
            Some(Api { $($n,)* })
        } }
    };
}
pub type H = *const c_void;
api! {
    XML_ParserCreate: fn(*const cc) -> P;
    XML_ParserCreateNS: fn(*const cc, cc) -> P;
    XML_ParserReset: fn(P, *const cc) -> u8;
    XML_ParserFree: fn(P);
    XML_SetEncoding: fn(P, *const cc) -> c_uint;
    XML_SetUserData: fn(P, *mut c_void);
    XML_UseParserAsHandlerArg: fn(P);
    XML_SetReturnNSTriplet: fn(P, c_int);
    XML_UseForeignDTD: fn(P, u8) -> c_uint;
    XML_SetParamEntityParsing: fn(P, c_uint) -> c_int;
    XML_SetBase: fn(P, *const cc) -> c_uint;
    XML_SetElementHandler: fn(P, H, H);
    XML_SetCharacterDataHandler: fn(P, H);
    XML_SetProcessingInstructionHandler: fn(P, H);
    XML_SetCommentHandler: fn(P, H);
    XML_SetCdataSectionHandler: fn(P, H, H);
    XML_SetDefaultHandler: fn(P, H);
    XML_SetDefaultHandlerExpand: fn(P, H);
    XML_SetDoctypeDeclHandler: fn(P, H, H);
    XML_SetUnparsedEntityDeclHandler: fn(P, H);
    XML_SetNotationDeclHandler: fn(P, H);
    XML_SetNamespaceDeclHandler: fn(P, H, H);
    XML_SetNotStandaloneHandler: fn(P, H);
    XML_SetExternalEntityRefHandler: fn(P, H);
    XML_SetSkippedEntityHandler: fn(P, H);
    XML_SetUnknownEncodingHandler: fn(P, H, *mut c_void);
    XML_SetElementDeclHandler: fn(P, H);
    XML_SetAttlistDeclHandler: fn(P, H);
    XML_SetEntityDeclHandler: fn(P, H);
    XML_SetXmlDeclHandler: fn(P, H);
    XML_Parse: fn(P, *const cc, c_int, c_int) -> c_uint;
    XML_ParseBuffer: fn(P, c_int, c_int) -> c_uint;
    XML_GetBuffer: fn(P, c_int) -> *mut c_void;
    XML_StopParser: fn(P, u8) -> c_uint;
    XML_ResumeParser: fn(P) -> c_uint;
    XML_GetParsingStatus: fn(P, *mut PStatus);
    XML_GetErrorCode: fn(P) -> c_uint;
    XML_GetCurrentByteIndex: fn(P) -> c_long;
    XML_GetCurrentByteCount: fn(P) -> c_int;
    XML_GetCurrentLineNumber: fn(P) -> c_ulong;
    XML_GetCurrentColumnNumber: fn(P) -> c_ulong;
    XML_GetInputContext: fn(P, *mut c_int, *mut c_int) -> *const cc;
    XML_GetSpecifiedAttributeCount: fn(P) -> c_int;
    XML_GetIdAttributeIndex: fn(P) -> c_int;
    XML_FreeContentModel: fn(P, *mut Cp);
    XML_DefaultCurrent: fn(P);
    XML_ErrorString: fn(c_uint) -> *const cc;
    XML_ExternalEntityParserCreate: fn(P, *const cc, *const cc) -> P;
}

// ---- one run
pub struct Run { api: &'static Api, tr: Vec<String>, ps: Vec<P>, ev: i64, o: Opt, files: Vec<(Vec<u8>, Vec<u8>)>, depth: usize, stopped: bool }
#[derive(Clone, Copy, Default)]
pub struct Opt { enc: i64, ns: i64, chunk: i64, feed: i64, mask: i64, pe: i64, act: i64, at: i64, flags: i64, own: i64 }
pub const F_POS: i64 = 1;       // positions of every event
pub const F_EMPTY: i64 = 2;     // the end is announced by an empty last piece
pub const F_RESET: i64 = 4;     // parse, reset, parse again
pub const F_CTX: i64 = 8;       // input context around events
pub const F_DUP: i64 = 16;      // a second use of the parser after it finished
pub const F_BUF: i64 = 32;      // calls with sizes that must be refused
pub const F_LATE: i64 = 64;     // positions now and then only

pub const M_EL: i64 = 1; pub const M_CD: i64 = 2; pub const M_PI: i64 = 4; pub const M_CO: i64 = 8; pub const M_CS: i64 = 16; pub const M_DF: i64 = 32; pub const M_DE: i64 = 64; pub const M_DT: i64 = 128;
pub const M_UN: i64 = 256; pub const M_NO: i64 = 512; pub const M_NS: i64 = 1024; pub const M_SA: i64 = 2048; pub const M_XE: i64 = 4096; pub const M_SK: i64 = 8192; pub const M_UE: i64 = 16384; pub const M_ED: i64 = 32768;
pub const M_AL: i64 = 65536; pub const M_EN: i64 = 131072; pub const M_XD: i64 = 262144;
pub const M_ALL: i64 = 524287 & !(M_DF | M_SA);
const PCT: &[u8] = b"\n%%%%";

unsafe fn st(p: *const cc) -> String { if p.is_null() { "-".into() } else { esc(CStr::from_ptr(p).to_bytes()) } }
fn esc(b: &[u8]) -> String { let mut s = String::with_capacity(b.len()); for &c in b { if c > 32 && c < 127 && c != b'\\' { s.push(c as char) } else { s.push_str(&format!("\\{:02x}", c)) } } s }
unsafe fn r<'a>(u: *mut c_void) -> &'a mut Run { &mut *(u as *mut Run) }
impl Run {
    unsafe fn p(&self) -> P { *self.ps.last().unwrap() }
    unsafe fn pos(&self) -> String {
        let (a, p) = (self.api, self.p());
        let mut s = String::new();
        if self.o.flags & F_POS != 0 { s = format!(" @{}:{}:{}:{}", (a.XML_GetCurrentLineNumber)(p), (a.XML_GetCurrentColumnNumber)(p), (a.XML_GetCurrentByteIndex)(p), (a.XML_GetCurrentByteCount)(p)); }
        if self.o.flags & F_CTX != 0 {
            let (mut o, mut n) = (0, 0);
            let c = (a.XML_GetInputContext)(p, &mut o, &mut n);
            if c.is_null() { s.push_str(" ctx-") } else { let b = std::slice::from_raw_parts(c as *const u8, n as usize); let k = (o as usize).min(b.len()); let e = (k + 8).min(b.len()); s.push_str(&format!(" ctx{}", esc(&b[k..e]))) }
        }
        s
    }
    unsafe fn ev(&mut self, s: String) {
        let inside = !s.starts_with("end "); // XML_DefaultCurrent is for handlers only
        let q = if self.o.flags & F_LATE == 0 || self.ev % 7 == 3 { self.pos() } else { String::new() };
        self.tr.push(format!("{}{}{}", " ".repeat(self.depth), s, q));
        self.ev += 1;
        if self.o.act != 0 && self.ev == self.o.at && self.depth == 0 {
            let p = self.p();
            match self.o.act {
                1 => { let x = (self.api.XML_StopParser)(p, 1); self.stopped = true; self.tr.push(format!("suspend {}", x)) }
                2 => { let x = (self.api.XML_StopParser)(p, 0); self.stopped = true; self.tr.push(format!("stop {}", x)) }
                3 => if inside { (self.api.XML_DefaultCurrent)(p) },
                4 => { let x = (self.api.XML_StopParser)(p, 1); let y = (self.api.XML_StopParser)(p, 1); let e = (self.api.XML_GetErrorCode)(p); let z = (self.api.XML_StopParser)(p, 0); self.tr.push(format!("suspend {} {} {} stop {}", x, y, e, z)); self.stopped = true }
                5 => { let x = (self.api.XML_Parse)(p, b"<x/>".as_ptr() as *const cc, 4, 0); let e = (self.api.XML_GetErrorCode)(p); self.tr.push(format!("nested parse {} {}", x, e)) }
                6 => (self.api.XML_SetCharacterDataHandler)(p, std::ptr::null()),
                9 => (self.api.XML_SetDefaultHandler)(p, std::ptr::null()),
                _ => {}
            }
        }
        if self.o.act == 8 && self.depth > 0 && (self.ev == self.o.at || self.o.at < 0 && self.ev % -self.o.at == 0) { let p = self.p(); let x = (self.api.XML_StopParser)(p, 1); self.tr.push(format!("suspend child {} {}", x, (self.api.XML_GetErrorCode)(p))) }
        if self.o.act == 3 && self.o.at == 0 && self.depth == 0 && inside { let p = self.p(); (self.api.XML_DefaultCurrent)(p) }
        if self.o.act == 1 && self.o.at < 0 && self.depth == 0 && self.ev % -self.o.at == 0 { let p = self.p(); let x = (self.api.XML_StopParser)(p, 1); self.stopped = true; self.tr.push(format!("suspend {}", x)) }
    }
    // text pieces that follow each other directly are one text
    unsafe fn text(&mut self, tag: &str, b: &[u8]) {
        let pre = format!("{}{} ", " ".repeat(self.depth), tag);
        if self.o.flags & (F_POS | F_CTX) == 0 && self.o.act == 0 { if let Some(l) = self.tr.last_mut() { if l.starts_with(&pre) { l.push_str(&esc(b)); self.ev += 1; return } } }
        self.ev(format!("{} {}", tag, esc(b)));
    }
}
unsafe extern "C" fn h_start(u: *mut c_void, n: *const cc, a: *mut *const cc) {
    let x = r(u);
    let mut s = format!("< {}", st(n));
    let mut i = 0;
    while !(*a.add(i)).is_null() { s.push_str(&format!(" {}={}", st(*a.add(i)), st(*a.add(i + 1)))); i += 2 }
    s.push_str(&format!(" #{} id{}", (x.api.XML_GetSpecifiedAttributeCount)(x.p()), (x.api.XML_GetIdAttributeIndex)(x.p())));
    x.ev(s)
}
unsafe extern "C" fn h_end(u: *mut c_void, n: *const cc) { r(u).ev(format!("> {}", st(n))) }
unsafe extern "C" fn h_cd(u: *mut c_void, s: *const cc, n: c_int) { if n < 0 { r(u).ev(format!("C length {}", n)); return } r(u).text("C", std::slice::from_raw_parts(s as *const u8, n as usize)) }
unsafe extern "C" fn h_df(u: *mut c_void, s: *const cc, n: c_int) { if n < 0 { r(u).ev(format!("D length {}", n)); return } r(u).text("D", std::slice::from_raw_parts(s as *const u8, n as usize)) }
unsafe extern "C" fn h_pi(u: *mut c_void, t: *const cc, d: *const cc) { r(u).ev(format!("? {} {}", st(t), st(d))) }
unsafe extern "C" fn h_co(u: *mut c_void, d: *const cc) { r(u).ev(format!("! {}", st(d))) }
unsafe extern "C" fn h_cs(u: *mut c_void) { r(u).ev("[".into()) }
unsafe extern "C" fn h_ce(u: *mut c_void) { r(u).ev("]".into()) }
unsafe extern "C" fn h_dt(u: *mut c_void, n: *const cc, s: *const cc, p: *const cc, i: c_int) { r(u).ev(format!("doctype {} {} {} {}", st(n), st(s), st(p), i)) }
unsafe extern "C" fn h_dte(u: *mut c_void) { r(u).ev("doctype-end".into()) }
unsafe extern "C" fn h_un(u: *mut c_void, n: *const cc, b: *const cc, s: *const cc, p: *const cc, t: *const cc) { r(u).ev(format!("unparsed {} {} {} {} {}", st(n), st(b), st(s), st(p), st(t))) }
unsafe extern "C" fn h_no(u: *mut c_void, n: *const cc, b: *const cc, s: *const cc, p: *const cc) { r(u).ev(format!("notation {} {} {} {}", st(n), st(b), st(s), st(p))) }
unsafe extern "C" fn h_ns(u: *mut c_void, p: *const cc, n: *const cc) { r(u).ev(format!("ns {} {}", st(p), st(n))) }
unsafe extern "C" fn h_nse(u: *mut c_void, p: *const cc) { r(u).ev(format!("ns-end {}", st(p))) }
unsafe extern "C" fn h_sa(u: *mut c_void) -> c_int { r(u).ev("not-standalone".into()); 1 }
unsafe extern "C" fn h_sa0(u: *mut c_void) -> c_int { r(u).ev("not-standalone0".into()); 0 }
unsafe extern "C" fn h_sk(u: *mut c_void, n: *const cc, p: c_int) { r(u).ev(format!("skipped {} {}", st(n), p)) }
// without recursion: models can be nested as deeply as the text is long
unsafe fn cp(c: &Cp) -> String {
    let mut out = String::new();
    let mut open: Vec<(*const Cp, usize)> = vec![(c, 0)];
    while let Some((n, i)) = open.pop() {
        let n = &*n;
        if i == 0 { out.push_str(&format!("{}{}{}", n.typ, ["", "?", "*", "+"][n.quant as usize & 3], st(n.name))); if n.n > 0 { out.push('(') } }
        if i < n.n as usize { if i > 0 { out.push(',') } open.push((n, i + 1)); open.push((n.ch.add(i), 0)); } else if n.n > 0 { out.push(')') }
    }
    out
}
// the same from the text of the element declarations of a document (own 4), read by a program of its own
fn declared(b: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(b).replace(|c: char| c == '\r' || c == '\n' || c == '\t', " ");
    let mut res = Vec::new();
    for d in t.split("<!ELEMENT ").skip(1) {
        let d = &d[..d.find('>').unwrap()];
        let d = d.trim();
        let (name, m) = d.split_at(d.find(' ').unwrap());
        let m: Vec<char> = m.chars().filter(|c| *c != ' ').collect();
        let q = |i: usize| match m.get(i) { Some('?') => "?", Some('*') => "*", Some('+') => "+", _ => "" };
        let nm = |s: &str| esc(s.as_bytes());
        let whole: String = m.iter().collect();
        if whole == "EMPTY" || whole == "ANY" { res.push(format!("element {} {}-", nm(name), if whole == "EMPTY" { 1 } else { 2 })); continue }
        // (kind, quantifier, name, children) of every node; what closes a group says how it is repeated
        let mut nodes: Vec<(u32, &str, String, Vec<usize>)> = Vec::new();
        let mut open: Vec<usize> = Vec::new();
        let mut i = 0;
        while i < m.len() {
            match m[i] {
                '(' => { nodes.push((6, "", "-".into(), vec![])); let k = nodes.len() - 1; if let Some(&o) = open.last() { nodes[o].3.push(k) } open.push(k); i += 1 }
                ')' => { let k = open.pop().unwrap(); nodes[k].1 = q(i + 1); i += 1 + nodes[k].1.len() }
                ',' => i += 1,
                '|' => { let &k = open.last().unwrap(); if nodes[k].0 == 6 { nodes[k].0 = 5 } i += 1 }
                '#' => { let &k = open.last().unwrap(); nodes[k].0 = 3; i += 7 }
                _ => { let mut n = String::new(); while !",|)?*+".contains(m[i]) { n.push(m[i]); i += 1 } nodes.push((4, q(i), nm(&n), vec![])); i += q(i).len(); let k = nodes.len() - 1; let &o = open.last().unwrap(); nodes[o].3.push(k) }
            }
        }
        let mut out = format!("element {} ", nm(name));
        let mut st = vec![(0, 0)];
        while let Some((n, i)) = st.pop() {
            let x = &nodes[n];
            if i == 0 { out.push_str(&format!("{}{}{}", x.0, x.1, x.2)); if x.3.len() > 0 { out.push('(') } }
            if i < x.3.len() { if i > 0 { out.push(',') } st.push((n, i + 1)); st.push((x.3[i], 0)) } else if x.3.len() > 0 { out.push(')') }
        }
        res.push(out);
    }
    res
}
unsafe extern "C" fn h_ed(u: *mut c_void, n: *const cc, m: *mut Cp) { let x = r(u); let s = format!("element {} {}", st(n), cp(&*m)); (x.api.XML_FreeContentModel)(x.p(), m); x.ev(s) }
unsafe extern "C" fn h_al(u: *mut c_void, e: *const cc, a: *const cc, t: *const cc, d: *const cc, q: c_int) { r(u).ev(format!("attlist {} {} {} {} {}", st(e), st(a), st(t), st(d), q)) }
unsafe extern "C" fn h_en(u: *mut c_void, n: *const cc, pe: c_int, v: *const cc, vl: c_int, b: *const cc, s: *const cc, p: *const cc, t: *const cc) {
    let val = if v.is_null() { "-".to_string() } else { esc(std::slice::from_raw_parts(v as *const u8, vl as usize)) };
    r(u).ev(format!("entity {} {} {} {} {} {} {}", st(n), pe, val, st(b), st(s), st(p), st(t)))
}
unsafe extern "C" fn h_xd(u: *mut c_void, v: *const cc, e: *const cc, s: c_int) { r(u).ev(format!("xmldecl {} {} {}", st(v), st(e), s)) }
unsafe extern "C" fn conv2(_: *mut c_void, s: *const cc) -> c_int { let (a, b) = (*s as u8 as c_int, *s.add(1) as u8 as c_int); if b < 0x40 { -1 } else { ((a & 0x7f) << 8 | b) + 0x80 } }
unsafe extern "C" fn conv3(_: *mut c_void, s: *const cc) -> c_int { ((*s as u8 as c_int & 0xf) << 12) | ((*s.add(1) as u8 as c_int & 0x3f) << 6) | (*s.add(2) as u8 as c_int & 0x3f) }
unsafe extern "C" fn rel(_: *mut c_void) {}
// an encoding made up from a number: the table, and a function that makes a number of the bytes of a character
struct Rand { run: *mut c_void, seed: u64, map: [c_int; 256] }
unsafe extern "C" fn rel_r(d: *mut c_void) { let b = Box::from_raw(d as *mut Rand); r(b.run).tr.push(format!("release {}", b.seed)) }
unsafe extern "C" fn conv_r(d: *mut c_void, s: *const cc) -> c_int {
    let e = &*(d as *const Rand);
    let n = -e.map[*s as u8 as usize];
    let mut h = e.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 77;
    for i in 0..n as usize { h = (h ^ *s.add(i) as u8 as u64).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 29; }
    number(h)
}
fn number(h: u64) -> c_int { let k = (h >> 8) as c_int & 0xffff; match h % 40 { 0 => -1, 1 => 0xfffe + (k & 1), 2 => 0xd800 + (k & 0x7ff), 3 => 0x10000 + (k & 0xff), 4 | 5 => 0x80 + (k & 0x7f), 13 | 14 => 0xb7, 6 | 7 => 0x4e00 + (k & 0xfff), 8 => 0x3c, 9 | 10 => 0x300 + (k & 0x7f), 11 | 12 => 0x61 + (k & 15), _ => 0x100 + (k & 0x7ff) } }
fn rand_map(seed: u64) -> [c_int; 256] {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut g = || { h ^= h << 13; h ^= h >> 7; h ^= h << 17; h.wrapping_mul(0x2545F4914F6CDD1D) >> 16 };
    let mut m = [0; 256];
    for k in 0..256 { m[k] = k as c_int }
    let style = g() % 6;
    for k in 0x80..0x100 { m[k] = match style { 0 => k as c_int, 1 => 0x100 + (g() % 0x700) as c_int, 2 => if k < 0xa0 { -1 } else { -2 - (g() % 3) as c_int }, 3 => -1 - (g() % 4) as c_int, _ => match g() % 8 { 0 => -1, 1 => -2, 2 => -3, 3 => -4, 4 => k as c_int, _ => 0x100 + (g() % 0xd000) as c_int } } }
    for _ in 0..g() % 6 { let k = (0x80 + g() % 0x80) as usize; m[k] = match g() % 10 { 0 => 0xfffe, 1 => 0xffff, 2 => 0xd800 + (g() % 0x800) as c_int, 3 => 0x24, 4 => 0x40, 5 => 0xfffd, 6 => 0x7f, 7 => 1, 8 => 0, _ => 0xb7 } }
    // the ASCII characters that mean nothing can be anything
    for &k in &[0x24usize, 0x40, 0x5c, 0x5e, 0x60, 0x7b, 0x7d, 0x7e, 0x7f, 0, 1, 0x1f] { if g() % 8 == 0 { m[k] = match g() % 6 { 0 => 0xe9, 1 => 0x3042, 2 => -1, 3 => -2, 4 => 0xd7, _ => 0x24 } } }
    // a table that has to be refused
    if g() % 8 == 0 { let k = (g() % 256) as usize; m[k] = match g() % 12 { 0 => -5, 1 => 0x10000, 2 => 0x10ffff, 3 => 0x3c, 4 => 0x41, 5 => -2, 6 => 0x110000, 7 => 0x20, _ => (g() % 0x80) as c_int } }
    m
}
unsafe extern "C" fn h_ue(u: *mut c_void, n: *const cc, i: *mut EncInfo) -> c_int {
    let n = CStr::from_ptr(n).to_bytes().to_vec();
    let e = &mut *i;
    for k in 0..256 { e.map[k] = k as c_int; }
    e.data = std::ptr::null_mut();
    e.convert = None;
    e.release = Some(rel);
    match &n[..] {
        b"x-one" => { for k in 0x80..0x100 { e.map[k] = 0x400 + k as c_int } 1 }
        b"x-latin" => 1,
        b"x-hole" => { for k in 0x80..0x90 { e.map[k] = -1 } e.map[0xa0] = 0xfffd; e.map[0xa1] = 0x20ac; 1 }
        b"x-two" => { for k in 0x80..0x100 { e.map[k] = -2 } e.convert = Some(conv2); 1 }
        b"x-three" => { for k in 0xe0..0xf0 { e.map[k] = -3 } for k in 0x80..0xe0 { e.map[k] = -1 } e.convert = Some(conv3); 1 }
        b"x-noconv" => { for k in 0x80..0x100 { e.map[k] = -2 } 1 }
        b"x-bad-ascii" => { e.map[0x41] = 0x42; 1 }
        b"x-bad-len" => { e.map[0x80] = -5; e.convert = Some(conv2); 1 }
        b"x-bad-char" => { e.map[0x80] = 0x110000; 1 }
        b"x-bad-sur" => { e.map[0x80] = 0xd800; 1 }
        b"x-bad-lt" => { e.map[0x80] = 0x3c; 1 }
        b"x-four" => { for k in 0xf0..0x100 { e.map[k] = -4 } e.convert = Some(conv3); 1 }
        n if n.starts_with(b"x-r") || n.starts_with(b"X-R") => {
            let seed = n[3..].iter().fold(0u64, |a, &b| a.wrapping_mul(10).wrapping_add((b & 15) as u64));
            e.map = rand_map(seed);
            // (version 2.6 of the C library loses the handler's data in external entities, CVE-2026-24515)
            let cur = *CUR.with(|c| c.borrow().last().cloned()).as_ref().unwrap() as *mut c_void;
            if u != cur && (*(cur as *mut Run)).api as *const Api != sys() as *const Api { r(cur).tr.push("handler data lost".into()) }
            let u = cur;
            if seed % 11 != 0 { e.convert = Some(conv_r) }
            if seed % 13 != 0 { e.release = Some(rel_r); e.data = Box::into_raw(Box::new(Rand { run: u, seed, map: e.map })) as *mut c_void } else { e.release = None; e.data = Box::into_raw(Box::new(Rand { run: u, seed, map: e.map })) as *mut c_void }
            r(u).tr.push(format!("describe {}", seed));
            (seed % 17 != 0) as c_int
        }
        _ => 0,
    }
}
thread_local! { static CUR: RefCell<Vec<*mut Run>> = RefCell::new(Vec::new()); }
unsafe extern "C" fn h_xe(parser: P, ctx: *const cc, base: *const cc, sys: *const cc, public: *const cc) -> c_int {
    let x = &mut **CUR.with(|c| c.borrow().last().cloned()).as_ref().unwrap();
    // the names in the context string come in the order of a hash table
    let mut names: Vec<String> = st(ctx).split("\\0c").map(|s| s.to_string()).collect();
    names.sort();
    x.ev(format!("external {} {} {} {}", names.join("\\0c"), st(base), st(sys), st(public)));
    let name = if sys.is_null() { b"-".to_vec() } else { CStr::from_ptr(sys).to_bytes().to_vec() };
    if name == b"fail" { return 0 }
    let t = match x.files.iter().find(|f| f.0 == name) { Some(f) => f.1.clone(), None => return 1 };
    // what stands behind an @ is the encoding that the application names for the entity
    let ce = name.iter().rposition(|&c| c == b'@').map(|i| CString::new(&name[i + 1..]).unwrap());
    let c = (x.api.XML_ExternalEntityParserCreate)(parser, ctx, ce.as_ref().map_or(std::ptr::null(), |e| e.as_ptr()));
    if c.is_null() { x.tr.push("no child".into()); return 0 }
    x.depth += 1;
    x.ps.push(c);
    let ok = if x.depth > 6 { 0 } else { feed(x, &t) };
    x.ps.pop();
    (x.api.XML_ParserFree)(c);
    x.depth -= 1;
    // (an application can go on when an entity could not be read)
    if name == b"ignore" { 1 } else { ok }
}
unsafe fn set(x: &mut Run) {
    let (a, p, m) = (x.api, x.p(), x.o.mask);
    let z: H = std::ptr::null();
    (a.XML_SetUserData)(p, x as *mut Run as *mut c_void);
    if m & M_EL != 0 { (a.XML_SetElementHandler)(p, h_start as H, h_end as H) }
    if m & M_CD != 0 { (a.XML_SetCharacterDataHandler)(p, h_cd as H) }
    if m & M_PI != 0 { (a.XML_SetProcessingInstructionHandler)(p, h_pi as H) }
    if m & M_CO != 0 { (a.XML_SetCommentHandler)(p, h_co as H) }
    if m & M_CS != 0 { (a.XML_SetCdataSectionHandler)(p, h_cs as H, h_ce as H) }
    if m & M_DF != 0 { (a.XML_SetDefaultHandler)(p, h_df as H) }
    if m & M_DE != 0 { (a.XML_SetDefaultHandlerExpand)(p, h_df as H) }
    if m & M_DT != 0 { (a.XML_SetDoctypeDeclHandler)(p, h_dt as H, h_dte as H) }
    if m & M_UN != 0 { (a.XML_SetUnparsedEntityDeclHandler)(p, h_un as H) }
    if m & M_NO != 0 { (a.XML_SetNotationDeclHandler)(p, h_no as H) }
    if m & M_NS != 0 { (a.XML_SetNamespaceDeclHandler)(p, h_ns as H, h_nse as H) }
    if m & M_SA != 0 { (a.XML_SetNotStandaloneHandler)(p, if x.o.pe & 16 != 0 { h_sa0 as H } else { h_sa as H }) }
    if m & M_XE != 0 { (a.XML_SetExternalEntityRefHandler)(p, h_xe as H) }
    if m & M_SK != 0 { (a.XML_SetSkippedEntityHandler)(p, h_sk as H) }
    if m & M_UE != 0 { (a.XML_SetUnknownEncodingHandler)(p, h_ue as H, x as *mut Run as *mut c_void) }
    if m & M_ED != 0 { (a.XML_SetElementDeclHandler)(p, h_ed as H) }
    if m & M_AL != 0 { (a.XML_SetAttlistDeclHandler)(p, h_al as H) }
    if m & M_EN != 0 { (a.XML_SetEntityDeclHandler)(p, h_en as H) }
    if m & M_XD != 0 { (a.XML_SetXmlDeclHandler)(p, h_xd as H) }
}
unsafe fn end_of(x: &mut Run, st: c_uint) -> bool {
    let (a, p) = (x.api, x.p());
    let mut s = st;
    let mut n = 0;
    loop {
        if s == 2 {
            let mut q = PStatus::default();
            (a.XML_GetParsingStatus)(p, &mut q);
            let t = x.pos();
            x.tr.push(format!("suspended {} {}{}", q.parsing, q.fin, t));
            n += 1;
            if x.depth > 0 && x.o.act != 8 || n > 4000 { return false }
            s = (a.XML_ResumeParser)(p);
            x.tr.push(format!("resume {}", s));
            continue
        }
        break
    }
    s == 1
}
fn mix(x: u64) -> u64 { let mut z = x.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); (z ^ (z >> 31)) >> 1 }
unsafe fn feed(x: &mut Run, doc: &[u8]) -> c_int {
    let (a, p, o) = (x.api, x.p(), x.o);
    if o.flags & F_BUF != 0 && x.depth == 0 {
        let b = (a.XML_GetBuffer)(p, 0x7fffffff).is_null();
        let e1 = (a.XML_GetErrorCode)(p);
        let c = (a.XML_GetBuffer)(p, -1).is_null();
        let s = (a.XML_Parse)(p, b"".as_ptr() as *const cc, -1, 1);
        let s2 = (a.XML_Parse)(p, std::ptr::null(), 3, 1);
        let s3 = (a.XML_Parse)(p, std::ptr::null(), 0, 0);
        let mut q = PStatus::default();
        (a.XML_GetParsingStatus)(p, &mut q);
        x.tr.push(format!("refused {} {} {} {} {} {} {}", b, e1, c, s, s2, s3, q.parsing));
    }
    let mut at = 0;
    let n = doc.len();
    let mut k = 0;
    loop {
        let step = if x.depth > 0 && o.chunk > 0 && o.chunk < 3 { 3 } else if o.chunk == 0 { n } else if o.feed == 5 { let r = mix((o.chunk as u64) << 20 ^ k as u64); (match r % 4 { 0 => r / 4 % 9, 1 => r / 4 % 700, 2 => r / 4 % 3000, _ => r / 4 % 9000 }) as usize } else if o.chunk > 0 { o.chunk as usize } else if k == 0 && x.depth == 0 { (-o.chunk) as usize } else { n };
        let e = (at + step).min(n);
        let last = e == n && o.flags & F_EMPTY == 0;
        let piece = &doc[at..e];
        // copies with exact bounds, so that an overrun is seen by nobody by accident
        let mut own: Vec<u8> = piece.to_vec();
        let s = if o.feed == 0 || (o.feed == 2 && k % 2 == 0) || (o.feed == 5 && mix(k as u64 ^ o.chunk as u64) % 2 == 0) { (a.XML_Parse)(p, own.as_ptr() as *const cc, own.len() as c_int, last as c_int) } else {
            let ask = own.len() + if o.feed == 3 { 17 } else { 0 };
            if o.feed == 4 {
                // ask twice, hand over in two parts
                let b = (a.XML_GetBuffer)(p, (own.len() / 2) as c_int);
                if b.is_null() { x.tr.push(format!("no buffer {}", (a.XML_GetErrorCode)(p))); return 0 }
                std::ptr::copy_nonoverlapping(own.as_ptr(), b as *mut u8, own.len() / 2);
                let s = (a.XML_ParseBuffer)(p, (own.len() / 2) as c_int, 0);
                if !end_of(x, s) { own.truncate(0); }
                own.drain(..own.len() / 2);
                if k % 3 == 1 { (a.XML_GetBuffer)(p, 3000); }
            }
            let ask = ask.max(own.len());
            let b = (a.XML_GetBuffer)(p, ask as c_int);
            if b.is_null() { x.tr.push(format!("no buffer {}", (a.XML_GetErrorCode)(p))); return 0 }
            std::ptr::copy_nonoverlapping(own.as_ptr(), b as *mut u8, own.len());
            (a.XML_ParseBuffer)(p, own.len() as c_int, last as c_int)
        };
        drop(own);
        k += 1;
        at = e;
        let ok = end_of(x, s);
        if !ok { break }
        if last { break }
        if e == n { let s = (a.XML_Parse)(p, b"".as_ptr() as *const cc, 0, 1); end_of(x, s); break }
    }
    let mut q = PStatus::default();
    (a.XML_GetParsingStatus)(p, &mut q);
    let err = (a.XML_GetErrorCode)(p);
    let t = x.pos();
    x.tr.push(format!("{}end error={} parsing={} final={}{}", " ".repeat(x.depth), err, q.parsing, q.fin, t));
    if o.flags & F_DUP != 0 && (x.depth == 0 || o.act == 8) {
        let s = (a.XML_Parse)(p, b"<b/>".as_ptr() as *const cc, 4, 1);
        let e1 = (a.XML_GetErrorCode)(p);
        let b = (a.XML_GetBuffer)(p, 10).is_null();
        let e2 = (a.XML_GetErrorCode)(p);
        let s2 = (a.XML_ParseBuffer)(p, 0, 0);
        let e3 = (a.XML_GetErrorCode)(p);
        let s3 = (a.XML_ResumeParser)(p);
        let e4 = (a.XML_GetErrorCode)(p);
        let s5 = (a.XML_SetEncoding)(p, b"UTF-8\0".as_ptr() as *const cc);
        let s6 = (a.XML_SetParamEntityParsing)(p, 1);
        let s7 = (a.XML_UseForeignDTD)(p, 1);
        let mut q = PStatus::default();
        (a.XML_GetParsingStatus)(p, &mut q);
        x.tr.push(format!("again {} {} buffer {} {} parse {} {} resume {} {} set {} {} {} state {} {}", s, e1, b, e2, s2, e3, s3, e4, s5, s6, s7, q.parsing, q.fin));
        let s = (a.XML_StopParser)(p, 0);
        let e = (a.XML_GetErrorCode)(p);
        x.tr.push(format!("stop {} {}", s, e));
    }
    (err == 0) as c_int
}
pub const ENCS: &[&str] = &["", "UTF-8", "UTF-16", "ISO-8859-1", "US-ASCII", "UTF-16LE", "UTF-16BE", "x-latin", "utf-8", "x-two", "no-such", "x-one", "iso-8859-1", "Utf-16be", "US-ASCIIx", "UTF-", "x-hole", "x-three", "us-ascii"];
pub fn trace(a: &'static Api, o: Opt, b: &[u8]) -> Vec<String> { unsafe {
    let mut parts = Vec::new();
    let mut rest = b;
    loop { match rest.windows(PCT.len()).position(|w| w == PCT) { Some(i) => { parts.push(&rest[..i]); rest = &rest[i + PCT.len()..] } None => { parts.push(rest); break } } }
    let doc = parts[0];
    let files = parts[1..].iter().map(|f| { let i = f.iter().position(|&c| c == b'\n').unwrap_or(f.len()); (f[..i].to_vec(), f[(i + 1).min(f.len())..].to_vec()) }).collect();
    let enc = CString::new(ENCS[o.enc as usize % ENCS.len()]).unwrap();
    let ep = if o.enc == 0 { std::ptr::null() } else { enc.as_ptr() };
    let p = if o.ns & 3 == 0 { (a.XML_ParserCreate)(ep) } else { (a.XML_ParserCreateNS)(ep, if o.ns & 3 == 1 { b'|' as cc } else if o.ns & 3 == 2 { 0 } else { b'\n' as cc }) };
    if p.is_null() { return vec!["no parser".into()] }
    let mut x = Box::new(Run { api: a, tr: Vec::new(), ps: vec![p], ev: 0, o, files, depth: 0, stopped: false });
    CUR.with(|c| c.borrow_mut().push(&mut *x as *mut Run));
    let rounds = if o.flags & F_RESET != 0 { 2 } else { 1 };
    for k in 0..rounds {
        if k > 0 { let s = (a.XML_ParserReset)(p, ep); x.tr.push(format!("reset {}", s)); x.ev = 0 }
        // (the C library can hold tokens back until more text has come; this one does not)
        if a as *const Api == sys() as *const Api {
            let h = libc::dlopen(CString::new("libexpat.so.1").unwrap().as_ptr(), libc::RTLD_NOW);
            let f = libc::dlsym(h, CString::new("XML_SetReparseDeferralEnabled").unwrap().as_ptr());
            if !f.is_null() { let f: unsafe extern "C" fn(P, u8) -> u8 = std::mem::transmute(f); f(p, 0); }
        }
        if o.ns & 4 != 0 { (a.XML_SetReturnNSTriplet)(p, 1) }
        if o.pe & 3 != 0 { let s = (a.XML_SetParamEntityParsing)(p, (o.pe & 3) as c_uint); x.tr.push(format!("pe {}", s)) }
        if o.pe & 4 != 0 { let s = (a.XML_UseForeignDTD)(p, 1); x.tr.push(format!("foreign {}", s)) }
        if o.pe & 8 != 0 { (a.XML_SetBase)(p, b"base\0".as_ptr() as *const cc); }
        set(&mut x);
        feed(&mut x, doc);
    }
    (a.XML_ParserFree)(p);
    CUR.with(|c| c.borrow_mut().pop());
    let t = std::mem::replace(&mut x.tr, Vec::new());
    t
} }
static mut APIS: Option<(Api, Option<Api>)> = None;
fn apis() -> &'static (Api, Option<Api>) { unsafe { if APIS.is_none() { APIS = Some((rexpat(), system())) } APIS.as_ref().unwrap() } }
fn sys() -> &'static Api { apis().1.as_ref().unwrap() }
pub fn have() -> bool { apis().1.is_some() }
pub fn opt(p: &[i64]) -> Opt { let g = |i: usize| p.get(i).cloned().unwrap_or(0); Opt { enc: g(0), ns: g(1), chunk: g(2), feed: g(3), mask: g(4), pe: g(5), act: g(6), at: g(7), flags: g(8), own: g(9) } }

// known finding: behind the root element, a line end CR LF divided between two pieces counts as two lines
fn epilog_line_end(t: &[String], b: &[u8], chunk: i64) -> bool {
    let mut root = 0;
    for l in t { if l.starts_with("> ") { if let Some(i) = l.rfind(" @") { let v: Vec<usize> = l[i + 2..].split(':').filter_map(|x| x.parse().ok()).collect(); if v.len() == 4 { root = v[2] + v[3] } } } }
    (root.max(1)..b.len()).any(|i| (if chunk < 0 { i as i64 == -chunk } else { chunk > 0 && i as i64 % chunk == 0 })
        && ((b[i - 1] == 13 && b[i] == 10) || (i.max(3) - 3..i).any(|j| j + 4 <= b.len() && (b[j..j + 4] == [13, 0, 10, 0] || b[j..j + 4] == [0, 13, 0, 10]))))
}
// consecutive pieces of text as one text, at the place of the first
fn joined(t: Vec<String>) -> Vec<String> {
    let mut out: Vec<(String, String)> = Vec::new();
    for l in t {
        let s = l.trim_start();
        let tag = l.len() - s.len() + 2;
        if !(s.starts_with("C ") || s.starts_with("D ")) { out.push((l, String::new())); continue }
        let (text, pos) = match l.rfind(" @") { Some(i) => (l[..i].to_string(), l[i..l.rfind(':').unwrap_or(l.len())].to_string()), None => (l.clone(), String::new()) };
        if let Some((x, q)) = out.last_mut() { if !q.is_empty() && x.starts_with(&text[..tag]) { x.push_str(&text[tag..]); continue } }
        out.push((text, if pos.is_empty() { " ".to_string() } else { pos }));
    }
    out.into_iter().map(|(a, b)| if b.is_empty() { a } else { a + &b }).collect()
}
fn run(_prop: &str, p: &[i64], b: &[u8]) -> Result<(), String> {
    if !have() && opt(p).own == 0 { return Ok(()) }
    let o = opt(p);
    // own 1: the same without suspension; own 2: the same in one piece; otherwise the same with the C library
    // own 3: it has to come to an end only
    if o.own == 3 { trace(&apis().0, o, b); return Ok(()) }
    if o.own == 4 {
        let mut t = trace(&apis().0, o, b);
        let good = t.last().map_or(false, |l| l.starts_with("end error=0"));
        t.retain(|l| l.starts_with("element "));
        for l in t.iter_mut() { if let Some(i) = l.rfind(" @") { l.truncate(i) } }
        let w = declared(b);
        if !good || t != w { let i = (0..w.len()).find(|&i| t.get(i) != Some(&w[i])).unwrap_or(w.len()); return Err(format!("model {}: {}, expected {} (well-formed: {}, call program {:?}, document {:?})", i, t.get(i).map_or("nothing", |s| &s[..s.len().min(200)]), w.get(i).map_or("nothing", |s| &s[..s.len().min(200)]), good, p, String::from_utf8_lossy(&b[..b.len().min(600)]))) }
        return Ok(());
    }
    let mut want = match o.own { 1 => trace(&apis().0, Opt { act: 7, ..o }, b), 2 => trace(&apis().0, Opt { chunk: 0, feed: 0, flags: o.flags & F_POS, ..o }, b), _ => trace(sys(), o, b) };
    let mut got = trace(&apis().0, o, b);
    if o.own == 2 && o.flags & F_POS != 0 { want = joined(want); got = joined(got); }
    if o.own == 2 && epilog_line_end(&want, b, o.chunk) { for t in [&mut want, &mut got].iter_mut() { for l in t.iter_mut() { if let Some(i) = l.rfind(" @") { l.truncate(i) } } } }
    if o.own != 0 { for t in [&mut want, &mut got].iter_mut() { t.retain(|l| !l.starts_with("susp") && !l.starts_with("resume")); for l in t.iter_mut() { if l.contains("end error=") && !l.contains("error=0") { if let Some(i) = l.find(" parsing=") { l.truncate(i) } } }
        // text before an error may come in part
        if t.last().map_or(false, |l| l.starts_with("end error=") && !l.starts_with("end error=0")) { let mut l = t.pop().unwrap(); if l.starts_with("end error=9") { l = l.replace("error=9", "error=4") } while t.last().map_or(false, |l| l.starts_with("C ") || l.starts_with("D ")) { t.pop(); } t.push(l) }
    } }
    if std::env::var("VDRV_PANIC").is_ok() { for (i, l) in got.iter().enumerate() { println!("{} {}", if want.get(i) == Some(l) { " " } else { "*" }, l); if want.get(i) != Some(l) { println!("  expected {:?}", want.get(i)) } } }
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Err(format!("event {}: {}, expected {} (call program {:?}, document {:?})", i, got.get(i).map(|s| s.as_str()).unwrap_or("nothing"), want.get(i).map(|s| s.as_str()).unwrap_or("nothing"), p, String::from_utf8_lossy(b)));
        }
    }
    Ok(())
}
include!(concat!(env!("VNATIVE"), "/corpus.rs"));
pub fn main() { common::main(run, search) }
