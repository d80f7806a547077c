// Reference lexer.  Written from the XML 1.0 (4th ed.) grammar and the token set documented in
// expat's xmltok.h; every function takes the position `i` after the part already recognised and
// the end `hi` of the available text.  The result is the token and the new position, `n == -1`
// when no position is reported.  Restricted syntax: the same text is turned into the executable
// oracle of the replay driver.
pub struct R { pub t: XML_TOK, pub n: int }

pub open spec fn is_err(t: XML_TOK) -> bool { t.d() <= 0 }
pub open spec fn part() -> R { R { t: XML_TOK::PARTIAL, n: -1 } }
pub open spec fn pchar() -> R { R { t: XML_TOK::PARTIAL_CHAR, n: -1 } }
pub open spec fn inv(i: int) -> R { R { t: XML_TOK::INVALID, n: i } }
pub open spec fn tk(t: XML_TOK, i: int) -> R { R { t: t, n: i } }
pub open spec fn none() -> R { R { t: XML_TOK::NONE, n: -1 } }

pub open spec fn hs<E: XmlEncodingImpl>(e: &E, i: int, hi: int) -> bool { i + e.bpc() <= hi }
pub open spec fn is_s(t: ByteType) -> bool { match t { ByteType::S | ByteType::CR | ByteType::LF => true, _ => false } }

// an arbitrary character: > 0 width of a multi-byte character, 0 single unit to be looked at,
// -2 incomplete, -3 not a legal character
pub open spec fn st_char<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int {
    let n = lead_n(e.ct(m, i));
    if n > 0 {
        if hi - i < n { -2 } else if e.bad(m, i, n) { -3 } else { n }
    } else {
        match e.ct(m, i) { ByteType::NONXML | ByteType::MALFORM | ByteType::TRAIL => -3, _ => 0 }
    }
}
// a name character: > 0 its width, 0 not of a name class, -2 incomplete, -3 not a name character
pub open spec fn st_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int {
    let n = lead_n(e.ct(m, i));
    if n > 0 {
        if hi - i < n { -2 } else if e.bad(m, i, n) || !e.nmc(m, i, n) { -3 } else { n }
    } else {
        match e.ct(m, i) {
            ByteType::NONASCII => if e.nmc1(m, i) { e.bpc() } else { -3 },
            ByteType::NMSTRT | ByteType::HEX | ByteType::DIGIT | ByteType::NAME | ByteType::MINUS => e.bpc(),
            _ => 0,
        }
    }
}
// a name start character
pub open spec fn st_nms<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> int {
    let n = lead_n(e.ct(m, i));
    if n > 0 {
        if hi - i < n { -2 } else if e.bad(m, i, n) || !e.nms(m, i, n) { -3 } else { n }
    } else {
        match e.ct(m, i) {
            ByteType::NONASCII => if e.nms1(m, i) { e.bpc() } else { -3 },
            ByteType::NMSTRT | ByteType::HEX => e.bpc(),
            _ => 0,
        }
    }
}

// ---- comments: after "<!-"
pub open spec fn sp_comment<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else if e.asc(m, i) != 0x2d { inv(i) } else { sp_comment_body(e, m, i + e.bpc(), hi) }
}
pub open spec fn sp_comment_body<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_char(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_comment_body(e, m, i + s, hi) }
        else if e.ct(m, i) == ByteType::MINUS {
            let j = i + e.bpc();
            let k = j + e.bpc();
            if !hs(e, j, hi) { part() }
            else if e.asc(m, j) != 0x2d { sp_comment_body(e, m, j, hi) }
            else if !hs(e, k, hi) { part() }
            else if e.asc(m, k) != 0x3e { inv(k) }     // "--" only as part of "-->"
            else { tk(XML_TOK::COMMENT, k + e.bpc()) }
        } else { sp_comment_body(e, m, i + e.bpc(), hi) }
    }
}

// ---- declarations: after "<!"
pub open spec fn sp_decl<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        match e.ct(m, i) {
            ByteType::MINUS => sp_comment(e, m, i + e.bpc(), hi),
            ByteType::LSQB => tk(XML_TOK::COND_SECT_OPEN, i + e.bpc()),
            ByteType::NMSTRT | ByteType::HEX => sp_decl_name(e, m, i + e.bpc(), hi),
            _ => inv(i),
        }
    }
}
pub open spec fn sp_decl_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        match e.ct(m, i) {
            ByteType::PERCNT => if !hs(e, i + e.bpc(), hi) { part() }
                else if is_s(e.ct(m, i + e.bpc())) || e.ct(m, i + e.bpc()) == ByteType::PERCNT { inv(i) }
                else { tk(XML_TOK::DECL_OPEN, i) },
            ByteType::S | ByteType::CR | ByteType::LF => tk(XML_TOK::DECL_OPEN, i),
            ByteType::NMSTRT | ByteType::HEX => sp_decl_name(e, m, i + e.bpc(), hi),
            _ => inv(i),
        }
    }
}

// ---- processing instructions: target [t, i); "xml" itself is the XML declaration, other spellings are reserved
pub open spec fn pi_target<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, t: int, i: int) -> XML_TOK {
    if i - t != 3 * e.bpc() { XML_TOK::PI } else {
        let a = e.asc(m, t);
        let b = e.asc(m, t + e.bpc());
        let c = e.asc(m, t + 2 * e.bpc());
        if (a == 0x78 || a == 0x58) && (b == 0x6d || b == 0x4d) && (c == 0x6c || c == 0x4c) {
            if a == 0x78 && b == 0x6d && c == 0x6c { XML_TOK::XML_DECL } else { XML_TOK::INVALID }
        } else { XML_TOK::PI }
    }
}
pub open spec fn sp_pi<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s <= 0 { inv(i) } else { sp_pi_name(e, m, i, i + s, hi) }
    }
}
pub open spec fn sp_pi_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, t: int, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_name(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_pi_name(e, m, t, i + s, hi) }
        else {
            let k = pi_target(e, m, t, i);
            let j = i + e.bpc();
            if is_s(e.ct(m, i)) { if k == XML_TOK::INVALID { inv(i) } else { sp_pi_body(e, m, k, j, hi) } }
            else if e.ct(m, i) == ByteType::QUEST {
                if k == XML_TOK::INVALID { inv(i) } else if !hs(e, j, hi) { part() }
                else if e.asc(m, j) == 0x3e { tk(k, j + e.bpc()) } else { inv(j) }
            } else { inv(i) }
        }
    }
}
pub open spec fn sp_pi_body<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, k: XML_TOK, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_char(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_pi_body(e, m, k, i + s, hi) }
        else if e.ct(m, i) == ByteType::QUEST {
            let j = i + e.bpc();
            if !hs(e, j, hi) { part() } else if e.asc(m, j) == 0x3e { tk(k, j + e.bpc()) } else { sp_pi_body(e, m, k, j, hi) }
        } else { sp_pi_body(e, m, k, i + e.bpc(), hi) }
    }
}

// ---- "<![CDATA[": after "<!["
pub open spec fn cdata_at(k: int) -> int {
    if k == 0 { 0x43 } else if k == 1 { 0x44 } else if k == 2 { 0x41 } else if k == 3 { 0x54 } else if k == 4 { 0x41 } else { 0x5b }
}
pub open spec fn sp_cdata_open<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if i + 6 * e.bpc() > hi { part() } else { sp_cdata_kw(e, m, 0, i) }
}
pub open spec fn sp_cdata_kw<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, k: int, i: int) -> R
    decreases 6 - k
{
    if k >= 6 { tk(XML_TOK::CDATA_SECT_OPEN, i) }
    else if e.asc(m, i) as int != cdata_at(k) { inv(i) } else { sp_cdata_kw(e, m, k + 1, i + e.bpc()) }
}

// ---- end tags: after "</"
pub open spec fn sp_end<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s <= 0 { inv(i) } else { sp_end_name(e, m, i + s, hi) }
    }
}
pub open spec fn sp_end_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_name(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_end_name(e, m, i + s, hi) }
        else if is_s(e.ct(m, i)) { sp_end_s(e, m, i + e.bpc(), hi) }
        else if e.ct(m, i) == ByteType::COLON { sp_end_name(e, m, i + e.bpc(), hi) }
        else if e.ct(m, i) == ByteType::GT { tk(XML_TOK::END_TAG, i + e.bpc()) }
        else { inv(i) }
    }
}
pub open spec fn sp_end_s<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if is_s(e.ct(m, i)) { sp_end_s(e, m, i + e.bpc(), hi) }
    else if e.ct(m, i) == ByteType::GT { tk(XML_TOK::END_TAG, i + e.bpc()) }
    else { inv(i) }
}

// ---- references: after "&#x", "&#", "&"
pub open spec fn sp_hexref<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == ByteType::DIGIT || e.ct(m, i) == ByteType::HEX { sp_hexref_more(e, m, i + e.bpc(), hi) }
    else { inv(i) }
}
pub open spec fn sp_hexref_more<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == ByteType::DIGIT || e.ct(m, i) == ByteType::HEX { sp_hexref_more(e, m, i + e.bpc(), hi) }
    else if e.ct(m, i) == ByteType::SEMI { tk(XML_TOK::CHAR_REF, i + e.bpc()) }
    else { inv(i) }
}
pub open spec fn sp_charref<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() }
    else if e.asc(m, i) == 0x78 { sp_hexref(e, m, i + e.bpc(), hi) }
    else if e.ct(m, i) == ByteType::DIGIT { sp_charref_more(e, m, i + e.bpc(), hi) }
    else { inv(i) }
}
pub open spec fn sp_charref_more<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == ByteType::DIGIT { sp_charref_more(e, m, i + e.bpc(), hi) }
    else if e.ct(m, i) == ByteType::SEMI { tk(XML_TOK::CHAR_REF, i + e.bpc()) }
    else { inv(i) }
}
pub open spec fn sp_ref<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) }
        else if s > 0 { sp_nameref(e, m, XML_TOK::ENTITY_REF, i + s, hi) }
        else if e.ct(m, i) == ByteType::NUM { sp_charref(e, m, i + e.bpc(), hi) }
        else { inv(i) }
    }
}
// rest of a name up to ";"
pub open spec fn sp_nameref<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, k: XML_TOK, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_name(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_nameref(e, m, k, i + s, hi) }
        else if e.ct(m, i) == ByteType::SEMI { tk(k, i + e.bpc()) }
        else { inv(i) }
    }
}
// "%": after it
pub open spec fn sp_percent<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) }
        else if s > 0 { sp_nameref(e, m, XML_TOK::PARAM_ENTITY_REF, i + s, hi) }
        else if is_s(e.ct(m, i)) || e.ct(m, i) == ByteType::PERCNT { tk(XML_TOK::PERCENT, i) }
        else { inv(i) }
    }
}
// "#": after it
pub open spec fn sp_pound<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s <= 0 { inv(i) } else { sp_pound_name(e, m, i + s, hi) }
    }
}
pub open spec fn sp_pound_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(XML_TOK::POUND_NAME_NEG, -1) } else {
        let s = st_name(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_pound_name(e, m, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::CR | ByteType::LF | ByteType::S | ByteType::RPAR | ByteType::GT | ByteType::PERCNT | ByteType::VERBAR => tk(XML_TOK::POUND_NAME, i),
                _ => inv(i),
            }
        }
    }
}

// ---- literals: after the opening quote
pub open spec fn sp_lit<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, open: ByteType, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_char(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_lit(e, m, open, i + s, hi) }
        else if e.ct(m, i) == open && (open == ByteType::QUOT || open == ByteType::APOS) {
            if !hs(e, j, hi) { tk(XML_TOK::LITERAL_NEG, -1) } else {
                match e.ct(m, j) {
                    ByteType::S | ByteType::CR | ByteType::LF | ByteType::GT | ByteType::PERCNT | ByteType::LSQB => tk(XML_TOK::LITERAL, j),
                    _ => inv(j),
                }
            }
        } else { sp_lit(e, m, open, j, hi) }
    }
}

// ---- start tags: after "<" / inside the attribute list
pub open spec fn sp_empty<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, k: XML_TOK, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else if e.asc(m, i) == 0x3e { tk(k, i + e.bpc()) } else { inv(i) }
}
pub open spec fn sp_lt<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_tag_name(e, m, false, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::EXCL => if !hs(e, j, hi) { part() } else {
                    match e.ct(m, j) {
                        ByteType::MINUS => sp_comment(e, m, j + e.bpc(), hi),
                        ByteType::LSQB => sp_cdata_open(e, m, j + e.bpc(), hi),
                        _ => inv(j),
                    }
                },
                ByteType::QUEST => sp_pi(e, m, j, hi),
                ByteType::SOL => sp_end(e, m, j, hi),
                _ => inv(i),
            }
        }
    }
}
pub open spec fn sp_tag_name<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, colon: bool, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_name(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_tag_name(e, m, colon, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::COLON => if colon { inv(i) } else if !hs(e, j, hi) { part() } else {
                    let q = st_nms(e, m, j, hi);
                    if q == -2 { pchar() } else if q <= 0 { inv(j) } else { sp_tag_name(e, m, true, j + q, hi) }
                },
                ByteType::S | ByteType::CR | ByteType::LF => sp_tag_gap(e, m, j, hi),
                ByteType::GT => tk(XML_TOK::START_TAG_NO_ATTS, j),
                ByteType::SOL => sp_empty(e, m, XML_TOK::EMPTY_ELEMENT_NO_ATTS, j, hi),
                _ => inv(i),
            }
        }
    }
}
pub open spec fn sp_tag_gap<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_atts(e, m, false, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::GT => tk(XML_TOK::START_TAG_NO_ATTS, j),
                ByteType::SOL => sp_empty(e, m, XML_TOK::EMPTY_ELEMENT_NO_ATTS, j, hi),
                ByteType::S | ByteType::CR | ByteType::LF => sp_tag_gap(e, m, j, hi),
                _ => inv(i),
            }
        }
    }
}
// in an attribute name, after its first character
pub open spec fn sp_atts<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, colon: bool, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_name(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_atts(e, m, colon, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::COLON => if colon { inv(i) } else if !hs(e, j, hi) { part() } else {
                    let q = st_nms(e, m, j, hi);
                    if q == -2 { pchar() } else if q <= 0 { inv(j) } else { sp_atts(e, m, true, j + q, hi) }
                },
                ByteType::S | ByteType::CR | ByteType::LF => sp_att_eq(e, m, j, hi),
                ByteType::EQUALS => sp_att_open(e, m, j, hi),
                _ => inv(i),
            }
        }
    }
}
pub open spec fn sp_att_eq<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == ByteType::EQUALS { sp_att_open(e, m, i + e.bpc(), hi) }
    else if is_s(e.ct(m, i)) { sp_att_eq(e, m, i + e.bpc(), hi) }
    else { inv(i) }
}
pub open spec fn sp_att_open<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == ByteType::QUOT || e.ct(m, i) == ByteType::APOS { sp_att_val(e, m, e.ct(m, i), i + e.bpc(), hi) }
    else if is_s(e.ct(m, i)) { sp_att_open(e, m, i + e.bpc(), hi) }
    else { inv(i) }
}
pub open spec fn sp_att_val<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, open: ByteType, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() }
    else if e.ct(m, i) == open { sp_att_after(e, m, i + e.bpc(), hi) }
    else {
        let s = st_char(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_att_val(e, m, open, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::AMP => {
                    let r = sp_ref(e, m, i + e.bpc(), hi);
                    if is_err(r.t) { if r.t == XML_TOK::INVALID { r } else { tk(r.t, -1) } }
                    else if r.n <= i || r.n > hi { part() } else { sp_att_val(e, m, open, r.n, hi) }
                },
                ByteType::LT => inv(i),
                _ => sp_att_val(e, m, open, i + e.bpc(), hi),
            }
        }
    }
}
pub open spec fn sp_att_after<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        match e.ct(m, i) {
            ByteType::S | ByteType::CR | ByteType::LF => sp_att_gap(e, m, i + e.bpc(), hi),
            ByteType::SOL => sp_empty(e, m, XML_TOK::EMPTY_ELEMENT_WITH_ATTS, i + e.bpc(), hi),
            ByteType::GT => tk(XML_TOK::START_TAG_WITH_ATTS, i + e.bpc()),
            _ => inv(i),
        }
    }
}
pub open spec fn sp_att_gap<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_nms(e, m, i, hi);
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_atts(e, m, false, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::S | ByteType::CR | ByteType::LF => sp_att_gap(e, m, i + e.bpc(), hi),
                ByteType::SOL => sp_empty(e, m, XML_TOK::EMPTY_ELEMENT_WITH_ATTS, i + e.bpc(), hi),
                ByteType::GT => tk(XML_TOK::START_TAG_WITH_ATTS, i + e.bpc()),
                _ => inv(i),
            }
        }
    }
}

// ---- the six tokenizers
// an incomplete trailing unit is left for the next call
pub open spec fn whole_units<E: XmlEncodingImpl>(e: &E, i: int, hi: int) -> int {
    if e.bpc() == 2 && (hi - i) % 2 == 1 { hi - 1 } else { hi }
}
pub open spec fn sp_cdata_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int) -> R {
    let hi = whole_units(e, i, hi0);
    if i == hi0 { none() } else if i == hi { part() } else {
        let s = st_char(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_cdata_more(e, m, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::RSQB => if !hs(e, j, hi) { part() }
                    else if e.asc(m, j) != 0x5d { sp_cdata_more(e, m, j, hi) }
                    else if !hs(e, j + e.bpc(), hi) { part() }
                    else if e.asc(m, j + e.bpc()) != 0x3e { sp_cdata_more(e, m, j, hi) }
                    else { tk(XML_TOK::CDATA_SECT_CLOSE, j + 2 * e.bpc()) },
                ByteType::CR => if !hs(e, j, hi) { part() }
                    else if e.ct(m, j) == ByteType::LF { tk(XML_TOK::DATA_NEWLINE, j + e.bpc()) }
                    else { tk(XML_TOK::DATA_NEWLINE, j) },
                ByteType::LF => tk(XML_TOK::DATA_NEWLINE, j),
                _ => sp_cdata_more(e, m, j, hi),
            }
        }
    }
}
pub open spec fn sp_cdata_more<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(XML_TOK::DATA_CHARS, i) } else {
        let s = st_char(e, m, i, hi);
        if s < 0 { tk(XML_TOK::DATA_CHARS, i) } else if s > 0 { sp_cdata_more(e, m, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::CR | ByteType::LF | ByteType::RSQB => tk(XML_TOK::DATA_CHARS, i),
                _ => sp_cdata_more(e, m, i + e.bpc(), hi),
            }
        }
    }
}
pub open spec fn sp_content_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int) -> R {
    let hi = whole_units(e, i, hi0);
    if i == hi0 { none() } else if i == hi { part() } else {
        let s = st_char(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_content_more(e, m, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::LT => sp_lt(e, m, j, hi),
                ByteType::AMP => sp_ref(e, m, j, hi),
                ByteType::CR => if !hs(e, j, hi) { tk(XML_TOK::TRAILING_CR, -1) }
                    else if e.ct(m, j) == ByteType::LF { tk(XML_TOK::DATA_NEWLINE, j + e.bpc()) }
                    else { tk(XML_TOK::DATA_NEWLINE, j) },
                ByteType::LF => tk(XML_TOK::DATA_NEWLINE, j),
                ByteType::RSQB => if !hs(e, j, hi) { tk(XML_TOK::TRAILING_RSQB, -1) }
                    else if e.asc(m, j) != 0x5d { sp_content_more(e, m, j, hi) }
                    else if !hs(e, j + e.bpc(), hi) { tk(XML_TOK::TRAILING_RSQB, -1) }
                    else if e.asc(m, j + e.bpc()) != 0x3e { sp_content_more(e, m, j, hi) }
                    else { inv(j + e.bpc()) },        // "]]>" is not character data
                _ => sp_content_more(e, m, j, hi),
            }
        }
    }
}
pub open spec fn sp_content_more<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(XML_TOK::DATA_CHARS, i) } else {
        let s = st_char(e, m, i, hi);
        let j = i + e.bpc();
        let k = j + e.bpc();
        if s < 0 { tk(XML_TOK::DATA_CHARS, i) } else if s > 0 { sp_content_more(e, m, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::RSQB => if !hs(e, j, hi) { tk(XML_TOK::DATA_CHARS, i) }
                    else if e.asc(m, j) != 0x5d { sp_content_more(e, m, j, hi) }
                    else if !hs(e, k, hi) { tk(XML_TOK::DATA_CHARS, i) }
                    else if e.asc(m, k) != 0x3e { sp_content_more(e, m, j, hi) }
                    else { inv(k) },
                ByteType::AMP | ByteType::LT | ByteType::CR | ByteType::LF => tk(XML_TOK::DATA_CHARS, i),
                _ => sp_content_more(e, m, j, hi),
            }
        }
    }
}
pub open spec fn sp_prolog_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int) -> R {
    let hi = whole_units(e, i, hi0);
    if i == hi0 { none() } else if i == hi { part() } else {
        let n = lead_n(e.ct(m, i));
        let j = i + e.bpc();
        if n > 0 {
            if hi - i < n { pchar() }
            else if e.bad(m, i, n) { inv(i) }
            else if e.nms(m, i, n) { sp_pname(e, m, XML_TOK::NAME, i + n, hi) }
            else if e.nmc(m, i, n) { sp_pname(e, m, XML_TOK::NMTOKEN, i + n, hi) }
            else { inv(i) }
        } else {
            match e.ct(m, i) {
                ByteType::QUOT | ByteType::APOS => sp_lit(e, m, e.ct(m, i), j, hi),
                ByteType::LT => if !hs(e, j, hi) { part() } else {
                    match e.ct(m, j) {
                        ByteType::EXCL => sp_decl(e, m, j + e.bpc(), hi),
                        ByteType::QUEST => sp_pi(e, m, j + e.bpc(), hi),
                        ByteType::NMSTRT | ByteType::HEX | ByteType::NONASCII | ByteType::LEAD2 | ByteType::LEAD3 | ByteType::LEAD4 => tk(XML_TOK::INSTANCE_START, i),
                        _ => inv(j),
                    }
                },
                ByteType::S | ByteType::LF | ByteType::CR => if e.ct(m, i) == ByteType::CR && j == hi { tk(XML_TOK::PROLOG_S_NEG, hi) } else { sp_psp(e, m, j, hi) },
                ByteType::PERCNT => sp_percent(e, m, j, hi),
                ByteType::COMMA => tk(XML_TOK::COMMA, j),
                ByteType::LSQB => tk(XML_TOK::OPEN_BRACKET, j),
                ByteType::RSQB => if !hs(e, j, hi) { tk(XML_TOK::CLOSE_BRACKET_NEG, -1) }
                    else if e.asc(m, j) != 0x5d { tk(XML_TOK::CLOSE_BRACKET, j) }
                    else if !hs(e, j + e.bpc(), hi) { part() }
                    else if e.asc(m, j + e.bpc()) == 0x3e { tk(XML_TOK::COND_SECT_CLOSE, j + 2 * e.bpc()) }
                    else { tk(XML_TOK::CLOSE_BRACKET, j) },
                ByteType::LPAR => tk(XML_TOK::OPEN_PAREN, j),
                ByteType::RPAR => if !hs(e, j, hi) { tk(XML_TOK::CLOSE_PAREN_NEG, -1) } else {
                    match e.ct(m, j) {
                        ByteType::AST => tk(XML_TOK::CLOSE_PAREN_ASTERISK, j + e.bpc()),
                        ByteType::QUEST => tk(XML_TOK::CLOSE_PAREN_QUESTION, j + e.bpc()),
                        ByteType::PLUS => tk(XML_TOK::CLOSE_PAREN_PLUS, j + e.bpc()),
                        ByteType::CR | ByteType::LF | ByteType::S | ByteType::GT | ByteType::COMMA | ByteType::VERBAR | ByteType::RPAR => tk(XML_TOK::CLOSE_PAREN, j),
                        _ => inv(j),
                    }
                },
                ByteType::VERBAR => tk(XML_TOK::OR, j),
                ByteType::GT => tk(XML_TOK::DECL_CLOSE, j),
                ByteType::NUM => sp_pound(e, m, j, hi),
                ByteType::NMSTRT | ByteType::HEX => sp_pname(e, m, XML_TOK::NAME, j, hi),
                ByteType::DIGIT | ByteType::NAME | ByteType::MINUS | ByteType::COLON => sp_pname(e, m, XML_TOK::NMTOKEN, j, hi),
                ByteType::NONASCII => if e.nms1(m, i) { sp_pname(e, m, XML_TOK::NAME, j, hi) }
                    else if e.nmc1(m, i) { sp_pname(e, m, XML_TOK::NMTOKEN, j, hi) }
                    else { inv(i) },
                _ => inv(i),
            }
        }
    }
}
// white space in the prolog; a CR that ends the text is left alone (it may start a CR LF pair)
pub open spec fn sp_psp<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(XML_TOK::PROLOG_S, i) }
    else if e.ct(m, i) == ByteType::CR && i + e.bpc() == hi { tk(XML_TOK::PROLOG_S, i) }
    else if is_s(e.ct(m, i)) { sp_psp(e, m, i + e.bpc(), hi) }
    else { tk(XML_TOK::PROLOG_S, i) }
}
// a name or name token in the prolog, with what has been recognised so far
pub open spec fn name_neg(k: XML_TOK) -> XML_TOK {
    match k { XML_TOK::NAME => XML_TOK::NAME_NEG, XML_TOK::PREFIXED_NAME => XML_TOK::PREFIXED_NAME_NEG, _ => XML_TOK::NMTOKEN_NEG }
}
pub open spec fn sp_pname<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, k: XML_TOK, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(name_neg(k), -1) } else {
        let s = st_name(e, m, i, hi);
        let j = i + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_pname(e, m, k, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::GT | ByteType::RPAR | ByteType::COMMA | ByteType::VERBAR | ByteType::LSQB | ByteType::PERCNT
                | ByteType::S | ByteType::CR | ByteType::LF => tk(k, i),
                ByteType::COLON => if k == XML_TOK::NAME {
                        if !hs(e, j, hi) { part() } else {
                            let q = st_name(e, m, j, hi);
                            if q == -2 { pchar() } else if q == -3 { inv(j) }
                            else if q > 0 { sp_pname(e, m, XML_TOK::PREFIXED_NAME, j + q, hi) }
                            else { sp_pname(e, m, XML_TOK::NMTOKEN, j, hi) }
                        }
                    } else { sp_pname(e, m, XML_TOK::NMTOKEN, j, hi) },
                ByteType::PLUS => if k == XML_TOK::NMTOKEN { inv(i) } else { tk(XML_TOK::NAME_PLUS, j) },
                ByteType::AST => if k == XML_TOK::NMTOKEN { inv(i) } else { tk(XML_TOK::NAME_ASTERISK, j) },
                ByteType::QUEST => if k == XML_TOK::NMTOKEN { inv(i) } else { tk(XML_TOK::NAME_QUESTION, j) },
                _ => inv(i),
            }
        }
    }
}
// attribute and entity values; `st` is where the token starts
pub open spec fn sp_attval_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if i == hi { none() } else if !hs(e, i, hi) { part() } else { sp_val(e, m, false, i, i, hi) }
}
pub open spec fn sp_entval_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi: int) -> R {
    if i == hi { none() } else if !hs(e, i, hi) { part() } else { sp_val(e, m, true, i, i, hi) }
}
pub open spec fn sp_val<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, ent: bool, st: int, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { tk(XML_TOK::DATA_CHARS, i) } else {
        let n = lead_n(e.ct(m, i));
        let j = i + e.bpc();
        if n > 0 { if i + n > hi { part() } else { sp_val(e, m, ent, st, i + n, hi) } }
        else {
            match e.ct(m, i) {
                ByteType::AMP => if i == st { sp_ref(e, m, j, hi) } else { tk(XML_TOK::DATA_CHARS, i) },
                ByteType::PERCNT => if !ent { sp_val(e, m, ent, st, j, hi) }
                    else if i == st {
                        let r = sp_percent(e, m, j, hi);
                        if r.t == XML_TOK::PERCENT { inv(r.n) } else { r }
                    } else { tk(XML_TOK::DATA_CHARS, i) },
                ByteType::LT => if ent { sp_val(e, m, ent, st, j, hi) } else { inv(i) },
                ByteType::LF => if i == st { tk(XML_TOK::DATA_NEWLINE, j) } else { tk(XML_TOK::DATA_CHARS, i) },
                ByteType::CR => if i != st { tk(XML_TOK::DATA_CHARS, i) }
                    else if !hs(e, j, hi) { tk(XML_TOK::TRAILING_CR, -1) }
                    else if e.ct(m, j) == ByteType::LF { tk(XML_TOK::DATA_NEWLINE, j + e.bpc()) }
                    else { tk(XML_TOK::DATA_NEWLINE, j) },
                ByteType::S => if ent { sp_val(e, m, ent, st, j, hi) }
                    else if i == st { tk(XML_TOK::ATTRIBUTE_VALUE_S, j) }
                    else { tk(XML_TOK::DATA_CHARS, i) },
                _ => sp_val(e, m, ent, st, j, hi),
            }
        }
    }
}
// ignored conditional section, `lv` sections open inside it
pub open spec fn sp_ignore_tok<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, i: int, hi0: int) -> R {
    sp_ign(e, m, 0, i, whole_units(e, i, hi0))
}
pub open spec fn sp_ign<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lv: int, i: int, hi: int) -> R
    decreases hi - i when e.bpc() > 0
{
    if !hs(e, i, hi) { part() } else {
        let s = st_char(e, m, i, hi);
        let j = i + e.bpc();
        let k = j + e.bpc();
        if s == -2 { pchar() } else if s == -3 { inv(i) } else if s > 0 { sp_ign(e, m, lv, i + s, hi) }
        else {
            match e.ct(m, i) {
                ByteType::LT => if !hs(e, j, hi) { part() }
                    else if e.asc(m, j) != 0x21 { sp_ign(e, m, lv, j, hi) }
                    else if !hs(e, k, hi) { part() }
                    else if e.asc(m, k) != 0x5b { sp_ign(e, m, lv, k, hi) }
                    else { sp_ign(e, m, lv + 1, k + e.bpc(), hi) },
                ByteType::RSQB => if !hs(e, j, hi) { part() }
                    else if e.asc(m, j) != 0x5d { sp_ign(e, m, lv, j, hi) }
                    else if !hs(e, k, hi) { part() }
                    else if e.asc(m, k) != 0x3e { sp_ign(e, m, lv, k, hi) }
                    else if lv == 0 { tk(XML_TOK::IGNORE_SECT, k + e.bpc()) }
                    else { sp_ign(e, m, lv - 1, k + e.bpc(), hi) },
                _ => sp_ign(e, m, lv, j, hi),
            }
        }
    }
}

// the code's answer (token, position) is the reference lexer's
pub open spec fn res(r: XML_TOK, o: Ptr, f: Ptr, mem: Ghost<Seq<i8>>, s: R) -> bool {
    r == s.t && (s.n < 0 ==> f == o) && (s.n >= 0 ==> f.mem == mem && f.pos == s.n)
}
