"""The properties: statements, anchors, how each is claimed."""
TOKF = ["src/lib/xmltok_impl.rs", "src/lib/xmltok.rs"]
P = [
 dict(id="C01", title="Scanning never leaves the text, panics or stalls",
  statement="For every sequence of bytes handed to the parser, however it is cut into pieces and in every supported encoding, splitting the text into tokens reads only the bytes it was given, never panics, and never calls itself without end. A token that is reported lies inside the text, and each reported token is at least one byte long, so that parsing always makes progress.",
  over=["inputs"], q="all byte strings, all positions at which the text ends, all encodings",
  why="The tests feed a few hundred documents; an overrun shows only for particular bytes behind particular ends of the text, mostly without any visible effect.",
  files=TOKF, mech=[("character availability tests before every read", "src/lib/xmltok_impl.rs: HAS_CHARS, REQUIRE_CHARS"), ("scanners", "src/lib/xmltok_impl.rs: XmlTokImpl, XmlEncoding for T")],
  technique="contracts on the extracted scanners, discharged by Verus/Z3",
  note="All obligations of the 24 scanning functions are discharged for every text and every encoding that meets the encoding contract (discharged by C04 for the built-in encodings). Trusted: the mechanical extraction and the pointer model."),
 dict(id="C02", title="Tokens are those of the XML grammar",
  statement="For every text and encoding, the parser splits markup, references, character data, literals and declarations exactly where the XML 1.0 grammar (and, with namespaces, the rule of at most one colon per name) says. Text that cannot continue to a legal token is rejected at the offending character, and text that is only unfinished is reported as unfinished, never as an error.",
  over=["inputs"], q="all byte strings, all tokenizer entry points, all encodings, namespace processing on or off",
  why="The tests sample one or two spellings of each construct, nearly all in UTF-8; the grammar quantifies over all spellings and all places at which the text may stop.",
  files=TOKF, mech=[("tokenizers", "src/lib/xmltok_impl.rs: contentTok, prologTok, cdataSectionTok, attributeValueTok, entityValueTok, ignoreSectionTok"), ("scanners they call", "src/lib/xmltok_impl.rs: trait XmlTokImpl")],
  technique="contracts (functional equality with a reference lexer) discharged by Verus/Z3",
  note="Each scanner is proved equal to a recursive specification of the grammar, for every text and encoding. The specification is hand-written from XML 1.0 and is the oracle."),
 dict(id="C03", title="What is reported does not depend on the division into pieces",
  statement="However a document, and each of its external entities, is divided into pieces handed over one after the other (pieces of one byte, pieces that end inside a character, a name, a reference or a line end, and empty pieces included), the application is told the same: the same events with the same arguments in the same order, at the same positions, and the same error. Only character data and default text may be delivered in other parts, whose sum is the same. A token that has been recognised is final: text that follows never changes it. (A document that begins neither with a byte order mark nor with '<' may have its encoding decided by its first byte alone, if that comes alone.)",
  over=["inputs", "histories"], q="all documents, all divisions into pieces, all encodings",
  why="A document of n bytes has 2^(n-1) divisions; the tests use whole documents and single bytes for few of them, and an error needs a division at one particular place.",
  files=["src/lib/xmltok_impl.rs", "src/lib/xmltok.rs", "src/lib/xmlparse.rs"], mech=[("tokens left unfinished", "src/lib/xmltok_impl.rs: contentTok, cdataSectionTok, prologTok, ignoreSectionTok"), ("detection of the encoding", "src/lib/xmltok.rs: initScan"), ("text kept for the next piece", "src/lib/xmlparse.rs: parse, parseBuffer, getBuffer; doContent, doProlog, doCdataSection, doIgnoreSection")],
  technique="contracts on the extracted scanners with lemmas over the contracts (a recognised token is final, data continues where it was cut), discharged by Verus/Z3",
  note="For every tokenizer it is proved that a recognised token is the same with any text behind it, that data cut by the end of a piece continues as the same data, that the detection of the encoding is final, that input reaches the parser unaltered, and that sections stop and go on at the right place. That doContent, doProlog and the entity processors leave an unfinished token for the next piece is exercised (every division in two of hundreds of documents, against the same document in one piece), not proved. One recorded finding: a CR LF divided in the epilog."),
 dict(id="C04", title="Characters are those of XML 1.0 in every encoding",
  statement="In UTF-8, UTF-16 (either byte order), ISO-8859-1 and US-ASCII, every character is treated as the class of character (white space, markup, name, name start, other data) that XML 1.0 assigns to it. Characters that XML excludes and malformed sequences (overlong, truncated, surrogates, beyond U+10FFFF, unpaired surrogates in UTF-16) are never accepted, in names as little as in data.",
  over=["inputs", "configurations"], q="all characters and all byte sequences of each encoding",
  why="The tests try a few dozen sequences; a wrong entry in a table of 256 classes or in the name bitmaps concerns single characters among 1.1 million.",
  files=["src/lib/xmltok.rs", "src/lib/nametab.rs", "src/xmltok_impl_h.rs"], mech=[("class tables and name bitmaps", "src/lib/xmltok.rs: *EncodingTable; src/lib/nametab.rs"), ("encodings", "src/lib/xmltok.rs: XmlEncodingImpl implementations")],
  technique="contracts on the encoding functions, discharged by Kani/CBMC over all values of the bytes they read",
  note="Complete: the functions are loop-free and every value of the bytes they read is covered. The oracle is an independent classification with name tables taken from another XML implementation."),
 dict(id="C06", title="References to characters and predefined entities stand for the right text",
  statement="A character reference, decimal or hexadecimal and with any number of digits, stands for exactly the character whose number it gives, and is an error exactly when that number is no XML 1.0 character; no number wraps around or is cut off. The references lt, gt, amp, quot and apos, and only these names, stand for the five predefined characters, wherever references are recognised (content, attribute values, entity values). The application receives the character in its correct encoding.",
  over=["inputs"], q="all numbers, all spellings, all encodings, all places where references are recognised",
  why="The tests use a handful of numbers; errors hide in one of 1.1 million characters, in digit counts beyond any test, and at the borders of ranges.",
  files=["src/lib/xmltok_impl.rs", "src/lib/xmltok.rs", "src/lib/xmlparse.rs"], mech=[("number and name of a reference", "src/lib/xmltok_impl.rs: charRefNumber, predefinedEntityName"), ("characters allowed and their encoding", "src/lib/xmltok.rs: checkCharRefNumber, XmlUtf8Encode, XmlUtf16Encode"), ("use", "src/lib/xmlparse.rs: doContent, appendAttributeValue, storeEntityValue")],
  technique="contracts on the extracted functions, discharged by Verus/Z3; loop-free functions by Kani/CBMC over their whole domain",
  note="charRefNumber and predefinedEntityName are proved for every text and encoding, the check and the encoders for every number. Their use in the parser (three call sites) is exercised, not proved."),
 dict(id="C09", title="The document type declaration follows the grammar",
  statement="The document type declaration, its internal subset, the external subset and parameter entities are accepted exactly when their declarations (entities, notations, attribute lists, elements with content models, conditional sections) are put together as XML 1.0 prescribes: each keyword only where it is allowed, groups balanced, at most one XML declaration and one document type declaration, in that order, conditional sections only outside the document entity. Each part of a declaration is reported in the role the grammar gives it, and the first part that does not fit is an error there.",
  over=["inputs"], q="all sequences of tokens, all keywords in all encodings, document entity and external entities",
  why="There are more than fifty states and forty kinds of tokens; the tests visit few of the pairs, and a wrong transition shows only in a particular declaration.",
  files=["src/lib/xmlrole.rs", "src/lib/xmlparse.rs"], mech=[("states and transitions", "src/lib/xmlrole.rs: PROLOG_STATE handlers"), ("use of the roles", "src/lib/xmlparse.rs: doProlog")],
  technique="contracts (equality with a transition table) on the extracted state functions, discharged by Verus/Z3, with lemmas over the table",
  note="Every state function is proved equal to the table verus/roles.txt for every token and text, with the balance of groups as an invariant. What doProlog does with the roles is exercised against the C library, not proved."),
 dict(id="C12", title="Line, column and byte positions are those of the text",
  statement="At every event and every error, the reported line and column are those obtained by counting lines (ended by LF, CR or CR LF, counted once) and characters (not bytes) of the document up to that point, and the reported byte index and byte count are those of the construct reported. This does not depend on how the text was divided into pieces, on the encoding, or on when the position is asked.",
  over=["inputs", "histories"], q="all documents, encodings, divisions into pieces and points at which positions are asked",
  why="The tests ask a few positions in ASCII text; line ends split between pieces, multi-byte characters and moved buffers make positions drift without any other effect.",
  files=["src/lib/xmltok_impl.rs", "src/lib/xmlparse.rs"], mech=[("counting", "src/lib/xmltok_impl.rs: updatePosition"), ("bookkeeping", "src/lib/xmlparse.rs: XML_GetCurrentLineNumber, XML_GetCurrentByteIndex, m_positionPtr, m_parseEndByteIndex")],
  technique="contract (functional equality with a counting specification), discharged by Verus/Z3",
  note="updatePosition is proved equal to the count for every text and encoding. The bookkeeping of positions across calls is exercised against the C library, not proved."),
 dict(id="C14", title="Line ends, attribute values and public identifiers are normalised",
  statement="The application sees every line end (CR, LF, CR LF) in content, comments, processing instructions and CDATA as one LF, attribute values normalised as XML 1.0 prescribes for their declared type (white space to spaces, character references exempt, for types other than CDATA runs of spaces collapsed and trimmed), and public identifiers with white space collapsed and trimmed; a public identifier with another character than a PubidChar is an error at that character.",
  over=["inputs"], q="all values, all types of attributes, all encodings and divisions into pieces",
  why="The tests use short values with one or two blanks; errors hide in adjacent, leading and trailing white space and in mixtures with references and entities.",
  files=["src/lib/xmlparse.rs", "src/lib/xmltok_impl.rs"], mech=[("public identifiers", "src/lib/xmlparse.rs: normalizePublicId; src/lib/xmltok_impl.rs: isPublicId"), ("line ends", "src/lib/xmlparse.rs: normalizeLines, doContent, doCdataSection"), ("attribute values", "src/lib/xmlparse.rs: appendAttributeValue, storeAttributeValue")],
  technique="contracts on the extracted functions, discharged by Verus/Z3",
  note="normalizeLines, normalizePublicId and isPublicId are proved for every string. The line ends of comments, processing instructions and CDATA sections are proved with the functions that deliver them. Attribute values (appendAttributeValue, which works on the parser's entity tables) are exercised against the C library, not proved."),
 dict(id="C10", title="All input reaches the parser once, in order, however it is handed over",
  statement="Whatever mixture of XML_Parse and XML_GetBuffer with XML_ParseBuffer hands over a document, in pieces of whatever size (none included), the parser is given exactly the bytes of the document, in order, none lost, repeated or altered when the buffer is moved or grown. A buffer that is asked for is at least as large as asked, input not yet used up is kept, and calls with impossible sizes or at the wrong time are refused with the documented error and change nothing that has been handed over.",
  over=["inputs", "histories"], q="all sequences of input calls, all sizes, all buffer fillings",
  why="The buffer is moved and grown only at particular fillings; the tests use few piece sizes and small documents.",
  files=["src/lib/xmlparse.rs"], mech=[("buffer", "src/lib/xmlparse.rs: getBuffer"), ("input", "src/lib/xmlparse.rs: parse, parseBuffer, XML_Parse, XML_ParseBuffer, XML_GetBuffer")],
  technique="contracts with a buffer invariant on the extracted input functions, discharged by Verus/Z3",
  note="Proved for every filling and size, with the buffer invariant preserved by every function. The processors (which use up the text) are represented by their contract."),
 dict(id="C11", title="Stopping, suspending and resuming follow the parsing states and lose nothing",
  statement="At every event the application may stop or suspend the parser. A stopped parser ends with the error 'aborted' and can never be used to go on; a suspended parser refuses input until it is resumed, and then continues exactly where it was, so that the events, arguments and the final result are those of an uninterrupted parse, inside entities too. Every call that does not fit the current state is refused with its documented error and leaves the state as it was; the reported status is always the actual one.",
  over=["inputs", "histories"], q="all documents, all events at which the parser is stopped, all sequences of calls",
  why="The tests suspend at a handful of events, hardly any inside entities or CDATA sections; a lost or repeated event shows only at one particular event.",
  files=["src/lib/xmlparse.rs"], mech=[("states", "src/lib/xmlparse.rs: stopParser, resumeParser, parseBuffer, XML_GetParsingStatus"), ("continuing", "src/lib/xmlparse.rs: doContent, doCdataSection, internalEntityProcessor, doProlog")],
  technique="contracts on the extracted state functions, discharged by Verus/Z3",
  note="The state functions are proved for every state and argument; that a CDATA section or ignored section stops and continues at the right place is proved (doCdataSection, doIgnoreSection), and so is the loop over content (doContent: after every token, suspended is 'here, to be continued' and stopped is 'aborted'); that the other processors continue where they stopped is the contract of call_processor, and is exercised at every event (against an uninterrupted parse and the C library), not proved."),
 dict(id="C05", title="Text reaches the application whole, in its own encoding",
  statement="Whatever the encoding of the document (UTF-8, UTF-16 in either byte order, ISO-8859-1, US-ASCII), the names, character data, attribute values, entity values, comments, processing instructions and default text that the application receives are the document's text in UTF-8: no character is lost, doubled, altered or split between two deliveries, however long the text is and wherever the parser's conversion buffers and string storage happen to end. A handler that is unset while a text is delivered in parts just receives no more of it.",
  over=["inputs"], q="all texts, lengths and encodings, all divisions into pieces",
  why="Conversion buffers end at 1024 units and string storage at sizes that double; only a multi-byte character placed exactly there shows an error, and the tests have short ASCII texts.",
  files=["src/lib/xmltok.rs", "src/string_pool.rs", "src/lib/xmlparse.rs"], mech=[("conversion", "src/lib/xmltok.rs: utf8Convert, utf16Convert of each encoding"), ("storage", "src/string_pool.rs: StringPool::append, append_char, store_c_string, copy_c_string"), ("delivery in parts", "src/lib/xmlparse.rs: doContent, doCdataSection, reportDefault")],
  technique="contracts (equality with a specification of the converted text) on the extracted converters and the string pool, discharged by Verus/Z3",
  note="The converters of all built-in encodings and the string pool are proved for every text, room and filling. The delivery of comments, processing instructions, CDATA sections and default text in parts is proved as well (reportDefault, reportComment, reportProcessingInstruction, doCdataSection), and so is that of ordinary content (doContent and its arms for data, line ends, character references and CDATA sections, with element tags and entity references as an assumed contract); all of it is also exercised against the C library at every length around the buffer size. Encodings described by the application are C16."),
 dict(id="C07", title="The encoding of a document is found as XML prescribes",
  statement="The encoding of the document and of each external entity is decided by the encoding the application names, the byte order mark and the first bytes as XML 1.0 (appendix F) prescribes, then by the encoding declaration: a byte order mark is removed, once, and only where the encoding has one; UTF-16 is recognised in both byte orders with and without a mark; names of encodings are recognised without regard to case, and only the names themselves; a declared encoding that contradicts the bytes, or is unknown, is the documented error. None of this depends on how the bytes are divided into pieces (a document that begins neither with a mark nor with '<' may be decided by its first byte alone, if that comes alone).",
  over=["inputs", "configurations"], q="all first bytes, all protocol encodings, all names, documents and external entities, all divisions",
  why="The tests cover a few marks with UTF-8 and UTF-16; the decision depends on four bytes, the protocol encoding and the kind of entity together, and on names that differ in one character.",
  files=["src/lib/xmltok.rs", "src/lib/xmlparse.rs"], mech=[("detection", "src/lib/xmltok.rs: initScan, InitEncoding::prologTok, InitEncoding::contentTok, InitEncoding::new"), ("names", "src/lib/xmltok.rs: streqci, getEncodingIndex, findEncoding, findEncodingNS"), ("use", "src/lib/xmlparse.rs: initializeEncoding, processXmlDecl, handleUnknownEncoding")],
  technique="contracts (equality with a decision table of the first bytes, and with the list of names) on the extracted functions, discharged by Verus/Z3",
  note="Detection and names are proved for every text, piece and protocol encoding. What the parser does with the result (three call sites) is exercised against the C library for all prefixes of two bytes and more, not proved."),
 dict(id="C08", title="XML declarations and text declarations are read as XML prescribes",
  statement="An XML declaration or text declaration is accepted exactly when its parts (version, encoding, standalone) are present, spelled, quoted, separated and ordered as XML 1.0 prescribes for the kind of entity it stands in, and has its meaning: the application is told exactly the declared version, encoding and standalone status, and standalone='yes' takes effect. Otherwise the documented error is reported at the offending place. This holds in every encoding and however the text is divided into pieces.",
  over=["inputs"], q="all declarations, all encodings, document entity and external entities",
  why="The tests use a few well-formed declarations and fewer broken ones; a wrong case shows only in one particular spelling, order, or quote.",
  files=["src/lib/xmltok.rs", "src/lib/xmlparse.rs"], mech=[("syntax", "src/lib/xmltok.rs: parsePseudoAttribute, doParseXmlDecl, isSpace, toAscii"), ("use", "src/lib/xmlparse.rs: processXmlDecl, parsePseudoAttribute callers")],
  technique="contracts (functional equality with a reference parser of declarations) on the extracted functions, discharged by Verus/Z3",
  note="The functions are proved equal to a specification written from XML 1.0, for every text and encoding. What processXmlDecl does with the result is exercised against the C library, not proved."),
 dict(id="C16", title="An encoding described by the application works as described",
  statement="An application may describe an encoding by a table of 256 entries and a conversion function. A description is accepted exactly if the ASCII characters that mean something in XML stand for themselves and for nothing else, every other character lies in the basic plane, sequences are at most four bytes long, and a function is given where there are sequences; otherwise the error 'unknown encoding' is reported. A document in an accepted encoding is parsed exactly as the same document in UTF-8 would be: each byte or sequence has the class (name start, name, character, illegal, malformed) of the character it stands for, and the application receives that character. The description's release function is called exactly once, with the description's data, whether or not the description is accepted; the handler's data reaches the handler in external entities too.",
  over=["inputs", "configurations"], q="all tables and conversion functions, all documents in them",
  why="The tests describe four encodings, all but one of them nearly Latin-1; a wrong class or conversion shows only for a table that has the entry in question.",
  files=["src/lib/xmltok.rs", "src/lib/xmlparse.rs"], mech=[("description", "src/lib/xmltok.rs: UnknownEncoding::initialize"), ("use", "src/lib/xmltok.rs: impl XmlEncodingImpl for UnknownEncoding"), ("handler", "src/lib/xmlparse.rs: handleUnknownEncoding, XML_ExternalEntityParserCreate")],
  technique="contracts with a data-structure invariant (what each table entry means) on the extracted functions, discharged by Verus/Z3",
  note="initialize establishes the invariant for every table; the classes, name tests and both conversions are proved from it for every text the scanners accept, against the same specification of converted text as the built-in encodings (C05) and the same contract the scanners assume (C01, C02). The calls of handler and release function are exercised with made-up tables against the C library, not proved. Defect found and repaired: the handler's data was lost in external entities (CVE-2026-24515)."),
 dict(id="C19", title="Content models are handed over as they are declared",
  statement="For each element declaration the handler receives, once, the content model the declaration describes: its groups and names nested as written and in the order written, each with its type (EMPTY, ANY, mixed, choice, sequence, name), its quantifier, its number of children and, for a name, exactly that name, in one block of memory that holds the whole model and is never overrun. This holds for models of any depth and width (nothing is limited by the stack, and no size overflows), in every encoding, and also where a parameter entity's parser was given up in the middle of a declaration: declarations that follow are delivered whole, and nothing crashes.",
  over=["inputs", "histories"], q="all declarations: any nesting, any number of members, any names; declarations left unfinished in parameter entities",
  why="The tests declare a few flat models; mistakes in links, sizes or order show only for particular shapes, for very deep or long models, and for a declaration that follows an abandoned one.",
  files=["src/lib/xmlparse.rs"], mech=[("scaffold", "src/lib/xmlparse.rs: DTDScaffold::next_part, in_group"), ("model", "src/lib/xmlparse.rs: XML_ParserStruct::build_model"), ("reading", "src/lib/xmlparse.rs: doProlog, arms ELEMENT_NAME, CONTENT_*, GROUP_*")],
  technique="contracts (a ghost tree as data-structure invariant of the scaffold; the block equals the tree) on extracted functions and match arms, discharged by Verus/Z3",
  note="next_part, build_model and the 23 arms of doProlog that read element declarations are proved for every scaffold: each arm keeps the invariant (the scaffold is a tree in document order, the open groups are in it, the names fit into the size kept for them), build_model copies exactly that tree (a bijection of nodes and parts, names whole, no access outside the block, terminates without recursion), and the reports are exactly those. That the roles arrive in the order of the text is C09 and C02; the names are C05. After a refused allocation nothing is claimed. Companion: models of depth 100000 and width 1000000, made-up declarations read by an independent program, declarations given up in parameter entities. Defects found and repaired: recursion (CVE-2022-25313), a declaration left unfinished by a parameter entity's parser, size overflows (also CVE-2021-46143)."),
]
NA = []
