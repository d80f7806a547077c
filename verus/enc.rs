// The contract of one character encoding (trait XmlEncodingImpl).  The scanners are verified
// against this contract only, for every implementation that satisfies it; the contract of the
// nine implementations in xmltok.rs is established separately (C03, C04).
pub trait XmlEncodingImpl {
    spec fn bpc(&self) -> int;
    spec fn ct(&self, m: Seq<i8>, i: int) -> ByteType;
    spec fn asc(&self, m: Seq<i8>, i: int) -> i8;
    spec fn nmc(&self, m: Seq<i8>, i: int, n: int) -> bool;
    spec fn nms(&self, m: Seq<i8>, i: int, n: int) -> bool;
    spec fn bad(&self, m: Seq<i8>, i: int, n: int) -> bool;
    spec fn nmc1(&self, m: Seq<i8>, i: int) -> bool;
    spec fn nms1(&self, m: Seq<i8>, i: int) -> bool;

    // one or two bytes per character, and a UTF-16 unit never starts a 2- or 3-byte character
    proof fn law_bpc(&self)
        ensures self.bpc() == 1 || self.bpc() == 2;
    proof fn law_lead(&self, m: Seq<i8>, i: int)
        ensures self.bpc() == 2 ==> self.ct(m, i) != ByteType::LEAD2 && self.ct(m, i) != ByteType::LEAD3;

    // true of every encoding but the user-defined ones
    spec fn std(&self) -> bool;
    proof fn law_class(&self, m: Seq<i8>, i: int)
        ensures class_law(self.ct(m, i), self.asc(m, i) as int), self.std() ==> class_law_std(self.ct(m, i), self.asc(m, i) as int);

    fn MINBPC(&self) -> (r: isize)
        ensures r == self.bpc();
    fn byte_type(&self, p: Ptr) -> (r: ByteType)
        requires p.pos + self.bpc() <= p.mem@.len(),
        ensures r == self.ct(p.mem@, p.pos as int);
    fn byte_to_ascii(&self, p: Ptr) -> (r: c_char)
        requires p.pos + self.bpc() <= p.mem@.len(),
        ensures r == self.asc(p.mem@, p.pos as int);
    fn is_name_char(&self, p: Ptr, n: isize) -> (r: bool)
        requires 2 <= n <= 4, p.pos + n <= p.mem@.len(), n == lead_n(self.ct(p.mem@, p.pos as int)),
        ensures r == self.nmc(p.mem@, p.pos as int, n as int);
    fn is_nmstrt_char(&self, p: Ptr, n: isize) -> (r: bool)
        requires 2 <= n <= 4, p.pos + n <= p.mem@.len(), n == lead_n(self.ct(p.mem@, p.pos as int)),
        ensures r == self.nms(p.mem@, p.pos as int, n as int);
    fn is_invalid_char(&self, p: Ptr, n: isize) -> (r: bool)
        requires 2 <= n <= 4, p.pos + n <= p.mem@.len(), n == lead_n(self.ct(p.mem@, p.pos as int)),
        ensures r == self.bad(p.mem@, p.pos as int, n as int);
    fn is_name_char_minbpc(&self, p: Ptr) -> (r: bool)
        requires p.pos + self.bpc() <= p.mem@.len(),
        ensures r == self.nmc1(p.mem@, p.pos as int);
    fn is_nmstrt_char_minbpc(&self, p: Ptr) -> (r: bool)
        requires p.pos + self.bpc() <= p.mem@.len(),
        ensures r == self.nms1(p.mem@, p.pos as int);
    fn char_matches(&self, p: Ptr, c: c_char) -> (r: bool)
        requires p.pos + self.bpc() <= p.mem@.len(), c > 0,
        ensures r == (self.asc(p.mem@, p.pos as int) == c);
}

pub open spec fn lead_n(t: ByteType) -> int {
    match t { ByteType::LEAD2 => 2, ByteType::LEAD3 => 3, ByteType::LEAD4 => 4, _ => 0 }
}

// width in bytes of the character at i
pub open spec fn width<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int) -> int {
    let n = lead_n(e.ct(m, i));
    if n > 0 { n } else { e.bpc() }
}

// [i, hi) holds only complete characters
pub open spec fn whole<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> bool
    decreases hi - i
{
    if e.bpc() <= 0 || i + e.bpc() > hi { true } else { i + width(e, m, i) <= hi && width(e, m, i) > 0 && whole(e, m, i + width(e, m, i), hi) }
}
