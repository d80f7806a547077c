// Contract of the character encodings (verus/enc.rs), discharged for the crate's own encodings:
// every function is checked against the reference classification for every value of the bytes it reads.
use super::*;
include!(concat!(env!("VNATIVE"), "/names.rs"));
include!(concat!(env!("VNATIVE"), "/refenc.rs"));
include!(concat!(env!("VGEN"), "/cls.rs"));

fn unit<E: XmlEncodingImpl>(e: &E, r: RE) {
    let m: [i8; 4] = kani::any();
    let p = m.as_ptr();
    assert!(e.MINBPC() as i64 == r.bpc(), "MINBPC");
    let t = e.byte_type(p);
    assert!(t == r.ct(&m, 0), "byte_type");
    assert!(e.byte_to_ascii(p) == r.asc(&m, 0), "byte_to_ascii");
    assert!(class_law_std(t, e.byte_to_ascii(p) as i64), "class_law");
    let c: i8 = kani::any();
    kani::assume(c > 0);
    assert!(e.char_matches(p, c) == (r.asc(&m, 0) == c), "char_matches");
    assert!(e.is_name_char_minbpc(p) == r.nmc1(&m, 0) || t != ByteType::NONASCII, "is_name_char_minbpc");
    assert!(e.is_nmstrt_char_minbpc(p) == r.nms1(&m, 0) || t != ByteType::NONASCII, "is_nmstrt_char_minbpc");
    let n = lead_n(t);
    if n > 0 {
        assert!(e.is_invalid_char(p, n as isize) == r.bad(&m, 0, n), "is_invalid_char");
        if !r.bad(&m, 0, n) {
            assert!(e.is_name_char(p, n as isize) == r.nmc(&m, 0, n), "is_name_char");
            assert!(e.is_nmstrt_char(p, n as isize) == r.nms(&m, 0, n), "is_nmstrt_char");
        } else {
            e.is_name_char(p, n as isize);
            e.is_nmstrt_char(p, n as isize);
        }
    }
}
macro_rules! h { ($n:ident, $e:expr, $f:expr, $ns:expr, $i:expr) => {
    #[kani::proof] fn $n() { unit(&$e, RE { form: $f, ns: $ns, internal: $i }); }
} }
h!(enc_utf8, utf8_encoding, Form::Utf8, false, false);
h!(enc_utf8_ns, utf8_encoding_ns, Form::Utf8, true, false);
h!(enc_iutf8, internal_utf8_encoding, Form::Utf8, false, true);
h!(enc_iutf8_ns, internal_utf8_encoding_ns, Form::Utf8, true, true);
h!(enc_latin1, latin1_encoding, Form::Latin1, false, false);
h!(enc_latin1_ns, latin1_encoding_ns, Form::Latin1, true, false);
h!(enc_ascii, ascii_encoding, Form::Ascii, false, false);
h!(enc_ascii_ns, ascii_encoding_ns, Form::Ascii, true, false);
h!(enc_le, little2_encoding, Form::Le, false, false);
h!(enc_le_ns, little2_encoding_ns, Form::Le, true, false);
h!(enc_ile, internal_little2_encoding, Form::Le, false, true);
h!(enc_ile_ns, internal_little2_encoding_ns, Form::Le, true, true);
h!(enc_be, big2_encoding, Form::Be, false, false);
h!(enc_be_ns, big2_encoding_ns, Form::Be, true, false);
