// ---- consequences of the table, for every token and text
pub open spec fn is_close(r: XML_ROLE) -> bool { r == XML_ROLE::GROUP_CLOSE || r == XML_ROLE::GROUP_CLOSE_REP || r == XML_ROLE::GROUP_CLOSE_OPT || r == XML_ROLE::GROUP_CLOSE_PLUS }
// groups are balanced: the level counts the groups that are open, and a declaration ends with none open
pub open spec fn in_group(h: Hnd) -> bool { h == Hnd::element2 || h == Hnd::element3 || h == Hnd::element4 || h == Hnd::element5 || h == Hnd::element6 || h == Hnd::element7 }
pub open spec fn depth(s: St) -> int { if s.h == Hnd::element6 || s.h == Hnd::element7 { s.level } else if in_group(s.h) { 1 } else { 0 } }
pub proof fn lemma_groups<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK)
    requires good(s), s.h != Hnd::declClose || s.role_none != XML_ROLE::GROUP_OPEN && !is_close(s.role_none)
    ensures ({ let (n, r) = sp_role(e, m, lo, hi, s, t); good(n) && (r != XML_ROLE::ERROR ==> depth(n) == depth(s) + (if r == XML_ROLE::GROUP_OPEN { 1int } else if is_close(r) { -1int } else { 0int })) }),
{ }
// a conditional section and a text declaration occur only outside the document entity
pub open spec fn ext_only(h: Hnd) -> bool { h == Hnd::externalSubset0 || h == Hnd::externalSubset1 || h == Hnd::condSect0 || h == Hnd::condSect1 || h == Hnd::condSect2 }
pub proof fn lemma_doc<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK)
    requires good(s), s.doc, !ext_only(s.h), s.role_none != XML_ROLE::TEXT_DECL && s.role_none != XML_ROLE::IGNORE_SECT
    ensures ({ let (n, r) = sp_role(e, m, lo, hi, s, t); n.doc && !ext_only(n.h) && r != XML_ROLE::TEXT_DECL && r != XML_ROLE::IGNORE_SECT && n.include == s.include }),
{ }
// one document type declaration, one XML declaration, in this order; an error is final
pub open spec fn rank(h: Hnd) -> int { if h == Hnd::prolog0 { 0 } else if h == Hnd::prolog1 { 1 } else if h == Hnd::prolog2 { 3 } else if h == Hnd::error { 4 } else { 2 } }
pub proof fn lemma_order<E: XmlEncodingImpl>(e: &E, m: Seq<i8>, lo: int, hi: int, s: St, t: XML_TOK)
    requires good(s), s.role_none == XML_ROLE::ENTITY_NONE || s.role_none == XML_ROLE::NOTATION_NONE || s.role_none == XML_ROLE::ELEMENT_NONE || s.role_none == XML_ROLE::NONE
    ensures ({ let (n, r) = sp_role(e, m, lo, hi, s, t);
        rank(n.h) >= rank(s.h) && (r == XML_ROLE::XML_DECL ==> s.h == Hnd::prolog0) && (r == XML_ROLE::ERROR || r == XML_ROLE::INSTANCE_START ==> n.h == Hnd::error)
        && (r == XML_ROLE::INSTANCE_START ==> rank(s.h) != 2 && s.h != Hnd::error) && (s.h == Hnd::error ==> r == XML_ROLE::NONE)
        && (r == XML_ROLE::DOCTYPE_NAME ==> s.h == Hnd::doctype0) && (n.h == Hnd::doctype0 ==> rank(s.h) <= 1 || s.h == Hnd::doctype0) }),
{ }
