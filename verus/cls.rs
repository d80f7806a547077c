// How the class of a character and its ASCII value belong together.  Restricted syntax (see tokspec.rs):
// also used by the Kani harnesses and the native drivers.
pub open spec fn cls_ok(t: ByteType, a: int) -> bool {
    if a == 0x0d { t == ByteType::CR || t == ByteType::S }      // CR is plain white space inside entity values
    else if a == 0x3a { t == ByteType::COLON || t == ByteType::NMSTRT }
    else if a == 0x0a { t == ByteType::LF }
    else if a == 0x09 || a == 0x20 { t == ByteType::S }
    else if a < 0x20 { t == ByteType::NONXML }
    else if a == 0x21 { t == ByteType::EXCL }
    else if a == 0x22 { t == ByteType::QUOT }
    else if a == 0x23 { t == ByteType::NUM }
    else if a == 0x25 { t == ByteType::PERCNT }
    else if a == 0x26 { t == ByteType::AMP }
    else if a == 0x27 { t == ByteType::APOS }
    else if a == 0x28 { t == ByteType::LPAR }
    else if a == 0x29 { t == ByteType::RPAR }
    else if a == 0x2a { t == ByteType::AST }
    else if a == 0x2b { t == ByteType::PLUS }
    else if a == 0x2c { t == ByteType::COMMA }
    else if a == 0x2d { t == ByteType::MINUS }
    else if a == 0x2e { t == ByteType::NAME }
    else if a == 0x2f { t == ByteType::SOL }
    else if 0x30 <= a && a <= 0x39 { t == ByteType::DIGIT }
    else if a == 0x3b { t == ByteType::SEMI }
    else if a == 0x3c { t == ByteType::LT }
    else if a == 0x3d { t == ByteType::EQUALS }
    else if a == 0x3e { t == ByteType::GT }
    else if a == 0x3f { t == ByteType::QUEST }
    else if a == 0x5b { t == ByteType::LSQB }
    else if a == 0x5d { t == ByteType::RSQB }
    else if a == 0x7c { t == ByteType::VERBAR }
    else if 0x61 <= a && a <= 0x66 || 0x41 <= a && a <= 0x46 { t == ByteType::HEX }
    else if 0x67 <= a && a <= 0x7a || 0x47 <= a && a <= 0x5a || a == 0x5f { t == ByteType::NMSTRT }
    else { t == ByteType::OTHER }
}
// the ASCII characters that mean something to the scanners
pub open spec fn significant(a: int) -> bool {
    0 <= a && a < 0x80 && !cls_ok(ByteType::OTHER, a) && !cls_ok(ByteType::NONXML, a)
}
// the classes that only ASCII characters have
pub open spec fn structural(t: ByteType) -> bool {
    match t {
        ByteType::NONASCII | ByteType::NMSTRT | ByteType::NAME | ByteType::OTHER | ByteType::LEAD2 | ByteType::LEAD3 | ByteType::LEAD4
        | ByteType::TRAIL | ByteType::NONXML | ByteType::MALFORM => false,
        _ => true,
    }
}
pub open spec fn class_law(t: ByteType, a: int) -> bool {
    (!significant(a) || cls_ok(t, a)) && (!structural(t) || (significant(a) && cls_ok(t, a)))
}
// in the encodings other than user-defined ones every ASCII character has its own class
pub open spec fn class_law_std(t: ByteType, a: int) -> bool {
    class_law(t, a) && (!(0 <= a && a < 0x80) || cls_ok(t, a))
}
