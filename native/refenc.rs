// Reference character classification, written from XML 1.0 (4th edition) and the Unicode
// encoding forms.  It shares no table with the crate; `ByteType` is only the set of labels.
// No allocation, so the same text serves the Kani harnesses and the native driver.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form { Utf8, Latin1, Ascii, Le, Be }

// `ns`: ':' is its own class; `internal`: the text is an entity value, CR is ordinary white space
#[derive(Clone, Copy, Debug)]
pub struct RE { pub form: Form, pub ns: bool, pub internal: bool }

pub fn ref_nm(c: u32) -> bool { c < 0x10000 && REF_NM[(c >> 5) as usize] >> (c & 31) & 1 == 1 }
pub fn ref_nms(c: u32) -> bool { c < 0x10000 && REF_NMS[(c >> 5) as usize] >> (c & 31) & 1 == 1 }

// Known finding enc-classes/1: in Latin-1 and UTF-16 these three are treated as letters
pub fn finding_letter(c: u32) -> bool { c == 0xaa || c == 0xb5 || c == 0xba }

impl RE {
    pub fn bpc(&self) -> i64 { match self.form { Form::Le | Form::Be => 2, _ => 1 } }

    pub fn ascii_class(&self, b: u8) -> ByteType {
        match b {
            0x0d => if self.internal { ByteType::S } else { ByteType::CR },
            0x0a => ByteType::LF,
            0x09 | 0x20 => ByteType::S,
            0..=0x1f => ByteType::NONXML,
            b'!' => ByteType::EXCL, b'"' => ByteType::QUOT, b'#' => ByteType::NUM, b'%' => ByteType::PERCNT,
            b'&' => ByteType::AMP, b'\'' => ByteType::APOS, b'(' => ByteType::LPAR, b')' => ByteType::RPAR,
            b'*' => ByteType::AST, b'+' => ByteType::PLUS, b',' => ByteType::COMMA, b'-' => ByteType::MINUS,
            b'.' => ByteType::NAME, b'/' => ByteType::SOL, b'0'..=b'9' => ByteType::DIGIT,
            b':' => if self.ns { ByteType::COLON } else { ByteType::NMSTRT },
            b';' => ByteType::SEMI, b'<' => ByteType::LT, b'=' => ByteType::EQUALS, b'>' => ByteType::GT,
            b'?' => ByteType::QUEST, b'[' => ByteType::LSQB, b']' => ByteType::RSQB, b'|' => ByteType::VERBAR,
            b'a'..=b'f' | b'A'..=b'F' => ByteType::HEX,
            b'g'..=b'z' | b'G'..=b'Z' | b'_' => ByteType::NMSTRT,
            _ => ByteType::OTHER,
        }
    }
    fn letter_class(&self, c: u32) -> ByteType {
        if ref_nms(c) || finding_letter(c) { ByteType::NMSTRT } else if ref_nm(c) { ByteType::NAME } else { ByteType::OTHER }
    }
    pub fn unit_class(&self, c: u32) -> ByteType {
        if c < 0x80 { return self.ascii_class(c as u8); }
        match self.form {
            Form::Ascii => ByteType::NONXML,
            Form::Latin1 => self.letter_class(c),
            Form::Utf8 => match c {
                0x80..=0xbf => ByteType::TRAIL,
                0xc0..=0xdf => ByteType::LEAD2,
                0xe0..=0xef => ByteType::LEAD3,
                0xf0..=0xf4 => ByteType::LEAD4,
                0xfe | 0xff => ByteType::MALFORM,
                _ => ByteType::NONXML,
            },
            Form::Le | Form::Be => match c {
                0..=0xff => self.letter_class(c),
                0xd800..=0xdbff => ByteType::LEAD4,
                0xdc00..=0xdfff => ByteType::TRAIL,
                0xfffe | 0xffff => ByteType::NONXML,
                _ => ByteType::NONASCII,
            },
        }
    }
    pub fn unit(&self, m: &[i8], i: i64) -> u32 {
        let i = i as usize;
        match self.form {
            Form::Le => m[i] as u8 as u32 | (m[i + 1] as u8 as u32) << 8,
            Form::Be => m[i + 1] as u8 as u32 | (m[i] as u8 as u32) << 8,
            _ => m[i] as u8 as u32,
        }
    }
    pub fn ct(&self, m: &[i8], i: i64) -> ByteType { self.unit_class(self.unit(m, i)) }
    pub fn asc(&self, m: &[i8], i: i64) -> i8 {
        if self.bpc() == 1 { return m[i as usize]; }
        let u = self.unit(m, i);
        if u < 0x100 { u as u8 as i8 } else { -1 }
    }
    // the scalar value of a well-formed n-byte sequence of UTF-8
    pub fn utf8(m: &[i8], i: i64, n: i64) -> Option<u32> {
        let b = |k: i64| m[(i + k) as usize] as u8 as u32;
        let t = |k: i64| b(k) & 0xc0 == 0x80;
        if n == 2 {
            if b(0) & 0xe0 != 0xc0 || !t(1) { return None; }
            let c = (b(0) & 0x1f) << 6 | b(1) & 0x3f;
            if c < 0x80 { None } else { Some(c) }
        } else if n == 3 {
            if b(0) & 0xf0 != 0xe0 || !t(1) || !t(2) { return None; }
            let c = (b(0) & 0xf) << 12 | (b(1) & 0x3f) << 6 | b(2) & 0x3f;
            if c < 0x800 || (c >= 0xd800 && c <= 0xdfff) { None } else { Some(c) }
        } else {
            if b(0) & 0xf8 != 0xf0 || !t(1) || !t(2) || !t(3) { return None; }
            let c = (b(0) & 7) << 18 | (b(1) & 0x3f) << 12 | (b(2) & 0x3f) << 6 | b(3) & 0x3f;
            if c < 0x10000 || c > 0x10ffff { None } else { Some(c) }
        }
    }
    pub fn bad(&self, m: &[i8], i: i64, n: i64) -> bool {
        match self.form {
            Form::Utf8 => match RE::utf8(m, i, n) { Some(c) => c == 0xfffe || c == 0xffff, None => true },
            Form::Le | Form::Be => { let u = self.unit(m, i + 2); !(u >= 0xdc00 && u <= 0xdfff) }
            _ => false,
        }
    }
    // the name tests are only asked about sequences that are not bad
    pub fn nmc(&self, m: &[i8], i: i64, n: i64) -> bool {
        self.form == Form::Utf8 && match RE::utf8(m, i, n) { Some(c) => ref_nm(c), None => false }
    }
    pub fn nms(&self, m: &[i8], i: i64, n: i64) -> bool {
        self.form == Form::Utf8 && match RE::utf8(m, i, n) { Some(c) => ref_nms(c), None => false }
    }
    pub fn nmc1(&self, m: &[i8], i: i64) -> bool { self.bpc() == 2 && ref_nm(self.unit(m, i)) }
    pub fn nms1(&self, m: &[i8], i: i64) -> bool { self.bpc() == 2 && ref_nms(self.unit(m, i)) }
}
pub fn lead_n(t: ByteType) -> i64 {
    match t { ByteType::LEAD2 => 2, ByteType::LEAD3 => 3, ByteType::LEAD4 => 4, _ => 0 }
}
