// Documents and call programs of the API driver, one group per property.
fn docs(group: &str) -> Vec<String> {
    let s: &[&str] = match group {
        "charrefs" => &[
            "<a>&#65;&#x41;&#x4a;&#xFF;&#xffff;&#x10FFFF;&#x10000;&#9;&#10;&#13;&#32;&#xD7FF;&#xE000;&#xFFFD;</a>", "<a b='&#65;&#x9;&#xA;&#xd;&#x20;x&#x10ffff;'/>",
            "<a>&lt;&gt;&amp;&quot;&apos;</a>", "<a b='&lt;&gt;&amp;&quot;&apos;'/>", "<!DOCTYPE a [<!ENTITY e '&#60;b/&#62;&#38;lt;&#x26;#65;'><!ENTITY l '&#38;#60;'>]><a b='&l;'>&e;&l;</a>",
            "<a>&#0;</a>", "<a>&#8;</a>", "<a>&#x1F;</a>", "<a>&#xD800;</a>", "<a>&#xDFFF;</a>", "<a>&#xFFFE;</a>", "<a>&#xffff;</a>", "<a>&#1114112;</a>", "<a>&#x110000;</a>", "<a>&#99999999999;</a>", "<a>&#xFFFFFFFFF1;</a>", "<a>&#x100000041;</a>", "<a>&#4294967361;</a>",
            "<a b='&#0;'/>", "<a b='&#xD800;'/>", "<a b='&#x110000;'/>", "<!DOCTYPE a [<!ENTITY e '&#0;'>]><a/>", "<!DOCTYPE a [<!ENTITY e '&#xDBFF;'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA '&#65;&lt;&#x20;'>]><a/>",
            "<!DOCTYPE a [<!ENTITY atos '1'><!ENTITY apxs '2'><!ENTITY apot '3'><!ENTITY xpos '4'><!ENTITY qxot '5'><!ENTITY quxt '6'><!ENTITY quos '7'><!ENTITY axp '8'><!ENTITY amx '9'><!ENTITY xmp 'a'><!ENTITY lx 'b'><!ENTITY gx 'c'><!ENTITY xt 'd'><!ENTITY am 'e'><!ENTITY apo 'f'><!ENTITY ampx 'g'><!ENTITY ltt 'h'><!ENTITY quota 'i'>]><a b='&atos;&apxs;&apot;&xpos;&qxot;&quxt;&quos;&axp;&amx;&xmp;&lx;&gx;&xt;&am;&apo;&ampx;&ltt;&quota;'>&atos;&apxs;&apot;&xpos;&qxot;&quxt;&quos;&axp;&amx;&xmp;&lx;&gx;&xt;&am;&apo;&ampx;&ltt;&quota;</a>", "<a>&lT;</a>", "<a>&ltt;</a>", "<a>&l;</a>", "<a>&am;</a>", "<a>&quo;</a>", "<a>&apox;</a>", "<a>&quoz;</a>", "<a>&Amp;</a>", "<a>&gt</a>", "<a>&#65</a>", "<a>&#6x;</a>", "<a>&#xG;</a>", "<a>&#X41;</a>", "<a>&#000000065;&#x0000000041;</a>", "<a>&#127;&#128;&#159;&#160;&#2047;&#2048;&#65533;&#65536;</a>",
            "<!DOCTYPE a [<!ENTITY lt '&#38;#60;'><!ENTITY gt '&#62;'><!ENTITY amp '&#38;#38;'><!ENTITY apos '&#39;'><!ENTITY quot '&#34;'>]><a>&lt;&gt;&amp;&apos;&quot;</a>",
            "<a>&\u{e9};</a>", "<a>\u{e9}&#233;\u{20ac}&#8364;\u{10400}&#66560;</a>",
        ],
        "text" => &[
            "<a>plain</a>", "<a>caf\u{e9} \u{fc}\u{ff}\u{a0}</a>", "<a>\u{7ff}\u{800}\u{d7ff}\u{e000}\u{fffd}\u{10000}\u{10ffff}\u{80}\u{7f}</a>", "<\u{e9}l\u{e8}ve \u{e0}='\u{e7}'>\u{f1}</\u{e9}l\u{e8}ve>", "<a>\u{3042}\u{3044}\u{3046}\u{10400}x\u{1F600}\u{1F601}y</a>", "<\u{3042} \u{3044}='\u{1F600}\u{e9}'/>",
            "<a><!--\u{e9}\u{3042}\u{1F600}--><?p \u{e9}\u{3042}\u{1F600}?><![CDATA[\u{e9}\u{3042}\u{1F600}]]></a>", "<!DOCTYPE a [<!ENTITY e '\u{e9}\u{3042}\u{1F600}'><!ATTLIST a b CDATA '\u{e9}\u{3042}'>]><a>&e;</a>", "<a>\u{e9}\n\u{3042}\r\n\u{1F600}\r]</a>",
        ],
        "xmldecl" => &[
            "<?xml version='1.0'?><a/>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?><a>\u{e9}</a>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?><a/>", "<?xml version='1.0' standalone='no'?><a/>", "<?xml version='1.0' standalone='yes' ?><a/>", "<?xml  version = '1.0'\tencoding\n=\r'us-ascii'  ?><a/>",
            "<?xml version='1.1'?><a/>", "<?xml version='2.0'?><a/>", "<?xml version=''?><a/>", "<?xml version='1.0\u{e9}'?><a/>", "<?xml version='a.b-c:D_9'?><a/>", "<?xml version='1 0'?><a/>", "<?xml encoding='UTF-8'?><a/>", "<?xml encoding='UTF-8' version='1.0'?><a/>", "<?xml version='1.0' encoding=''?><a/>", "<?xml version='1.0' encoding='8UTF'?><a/>", "<?xml version='1.0' encoding='UTF 8'?><a/>",
            "<?xml version='1.0' standalone='maybe'?><a/>", "<?xml version='1.0' standalone='YES'?><a/>", "<?xml version='1.0' standalone='ye'?><a/>", "<?xml version='1.0' standalone='nope'?><a/>", "<?xml version='1.0' standalone='yes' encoding='UTF-8'?><a/>", "<?xml version='1.0' foo='bar'?><a/>", "<?xml version='1.0'encoding='UTF-8'?><a/>", "<?xml version='1.0\"?><a/>", "<?xml version=\"1.0'?><a/>", "<?xml version '1.0'?><a/>", "<?xml?><a/>", "<?xml ?><a/>", "<?xml version='1.0' encoding='UTF-8' standalone='no' x='y'?><a/>", "<?xml version='1.0' encoding='UTF-8' standalone='no' x?><a/>", "<?xml version='1.0' encoding?><a/>", "<?xml version='1.0' encoding=UTF-8?><a/>", "<?xml version='1.0' encoding='UTF-8?><a/>",
            "<?xml version='1.0' encoding='ISO-8859-1'?><a>\u{e9}</a>", "<?xml version='1.0' encoding='UTF-16'?><a/>", "<?xml version='1.0' encoding='UTF-16LE'?><a/>", "<?xml version='1.0' encoding='utf-16be'?><a/>", "<?xml version='1.0' encoding='no-such'?><a/>", "<?xml version='1.0' encoding='x-latin'?><a>\u{e9}</a>", "<?xml version='1.0' encoding='US-ASCII'?><a>\u{e9}</a>", "<?xml version='1.0' encoding='iso-8859-1' standalone='no'?><a/>",
            "<?xml version='1.0' encoding='a.b_c-d9'?><a/>", "<?xml version='1.0' encoding='UTF-8' standalone='yes'?><!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<?xml encoding='UTF-8'?><!ENTITY e 'x'>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<?xml version='1.0' encoding='ISO-8859-1'?>x<b/>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<?xml version='1.0'?>x", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<?xml encoding='UTF-8'?>x", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<?xml encoding='UTF-8' standalone='yes'?>x", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<?xml version='1.0' standalone='yes'?>x",
            "<?xml version='1.0' encoding='aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmm'?><a/>", "<?xml version='1.0' encoding='aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmmm'?><a/>", " <?xml version='1.0'?><a/>", "<a/><?xml version='1.0'?>", "<a><?xml version='1.0'?></a>", "<!-- --><?xml version='1.0'?><a/>",
        ],
        "prolog" => &[
            "<!DOCTYPE a><a/>", "<!DOCTYPE a SYSTEM 's'><a/>", "<!DOCTYPE a PUBLIC 'p' 's'><a/>", "<!DOCTYPE a []><a/>", "<!DOCTYPE a SYSTEM 's' [ ]><a/>", "<!DOCTYPE a PUBLIC 'p' \"s\" [<!-- c --><?p d?> %x; ]><a/>", "<!DOCTYPE a PUBLIC 'p'><a/>", "<!DOCTYPE a SYSTEM><a/>", "<!DOCTYPE><a/>", "<!DOCTYPE a><!DOCTYPE a><a/>", "<a/><!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY e 'v'><!ENTITY e 'w'><!ENTITY % p 'x'><!ENTITY x SYSTEM 's'><!ENTITY y PUBLIC 'p' 's'><!ENTITY z SYSTEM 's' NDATA n><!ENTITY % q SYSTEM 's'><!ENTITY % r PUBLIC 'p' 's'>]><a>&e;</a>",
            "<!DOCTYPE a [<!NOTATION n SYSTEM 's'><!NOTATION m PUBLIC 'p'><!NOTATION o PUBLIC 'p' 's'>]><a/>", "<!DOCTYPE a [<!ELEMENT a EMPTY><!ELEMENT b ANY><!ELEMENT c (#PCDATA)><!ELEMENT d (#PCDATA)*><!ELEMENT e (#PCDATA|a|b)*><!ELEMENT f (a,b?,c*,d+)><!ELEMENT g (a|(b,c)+|d)*>]><a/>",
            "<!DOCTYPE a [<!ATTLIST a b CDATA #IMPLIED c ID #REQUIRED d IDREF #IMPLIED e IDREFS #IMPLIED f ENTITY #IMPLIED g ENTITIES #IMPLIED h NMTOKEN 'x' i NMTOKENS ' x  y ' j (x|y|z) 'x' k NOTATION (n|m) #IMPLIED l CDATA #FIXED 'v'>]><a c='1'/>", "<!DOCTYPE a [<!ATTLIST a><!ATTLIST a b CDATA 'x'><!ATTLIST a b CDATA 'y' c CDATA 'z'>]><a/>",
            "<!DOCTYPE a [<!ENTITY e>]><a/>", "<!DOCTYPE a [<!ENTITY % e>]><a/>", "<!DOCTYPE a [<!ENTITY e 'v' NDATA n>]><a/>", "<!DOCTYPE a [<!ENTITY % e SYSTEM 's' NDATA n>]><a/>", "<!DOCTYPE a [<!ENTITY e SYSTEM 's' NDATA>]><a/>", "<!DOCTYPE a [<!ENTITY e PUBLIC 'p'>]><a/>", "<!DOCTYPE a [<!NOTATION n>]><a/>", "<!DOCTYPE a [<!NOTATION n SYSTEM>]><a/>", "<!DOCTYPE a [<!NOTATION n FOO 's'>]><a/>",
            "<!DOCTYPE a [<!ELEMENT a>]><a/>", "<!DOCTYPE a [<!ELEMENT a b>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b,c|d)>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b|c,d)>]><a/>", "<!DOCTYPE a [<!ELEMENT a ()>]><a/>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA|b)>]><a/>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA,b)*>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b|#PCDATA)*>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b)c>]><a/>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA)+>]><a/>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA)?>]><a/>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA|b)?>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b?>]><a/>", "<!DOCTYPE a [<!ELEMENT a (b))>]><a/>",
            "<!DOCTYPE a [<!ATTLIST a b>]><a/>", "<!DOCTYPE a [<!ATTLIST a b FOO 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA #FOO>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA #FIXED>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA x>]><a/>", "<!DOCTYPE a [<!ATTLIST a b (x,y) 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b () 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b NOTATION 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b (x|) 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA #IMPLIED 'x'>]><a/>", "<!DOCTYPE a [<!ATTLIST>]><a/>", "<!DOCTYPE a [<!FOO a>]><a/>", "<!DOCTYPE a [<!element a ANY>]><a/>", "<!doctype a><a/>", "<!DOCTYPE a [<![INCLUDE[<!ELEMENT a ANY>]]>]><a/>", "<!DOCTYPE a []]><a/>", "<!DOCTYPE a [x]><a/>", "<!DOCTYPE a [ <a/> ]><a/>", "<!DOCTYPE a b><a/>", "<!DOCTYPE a 's'><a/>", "<!DOCTYPE a SYSTEM 's' 't'><a/>",
            "<!DOCTYPE a SYSTEM 'e1'><a>&x;</a>\n%%%%e1\n<!ENTITY x 'y'><![INCLUDE[<!ELEMENT a ANY><![IGNORE[ <!FOO]]>x<![ y ]]> ]]>]]><!ENTITY % p '<!ENTITY z \"1\">'>%p;<!ATTLIST a b CDATA 'd'>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<!ENTITY % i 'INCLUDE'><![%i;[<!ELEMENT a ANY>]]><!ENTITY % g 'IGNORE'><![ %g; [<!ELEMENT a ANY>]]>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<!ELEMENT a (%m;)><!ENTITY % m 'b'><!ELEMENT c (%m;|d)>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<![FOO[]]>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<![INCLUDE<!ELEMENT a ANY>]]>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<![INCLUDE[<!ELEMENT a ANY>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<![IGNORE[<!ELEMENT a ANY>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n]]>",
            "<!DOCTYPE a [<!ENTITY % p SYSTEM 'e1'>%p;]><a>&x;</a>\n%%%%e1\n<!ENTITY x 'y'>", "<!DOCTYPE a [<!ENTITY % p '<!ENTITY x \"y\">'>%p;]><a>&x;</a>", "<!DOCTYPE a [<!ENTITY % p 'x'><!ENTITY y '%p;'>]><a/>", "<!DOCTYPE a [%u;<!ENTITY x 'y'>]><a>&x;&w;</a>", "<!DOCTYPE a [<!ENTITY % p SYSTEM 'none'>%p;<!ENTITY x 'y'><!ATTLIST a b CDATA 'v'>]><a>&x;</a>", "<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'e1'><a>&x;</a>\n%%%%e1\n<!ENTITY x 'y'>", "", " ", "x", "<!---->", "<a/>x", "<a/> <!--c--> <?p?> ", "<a/><b/>", "<!DOCTYPE a [", "<!DOCTYPE a", "<!-- x", "<?p", "<a", "<a>",
            "<!DOCTYPE a [<!ENTITY e SYSTEM 'f' NDATA n><!NOTATION n PUBLIC 'pub'><!ATTLIST a b ENTITY #IMPLIED>]><a b='e'>&e;</a>", "<!DOCTYPE a PUBLIC 'a\tb' 's'><a/>", "<!DOCTYPE a PUBLIC 'a{b' 's'><a/>", "<!DOCTYPE a [<!NOTATION n PUBLIC '|'>]><a/>",
        ],
        "positions" => &[
            "<a>\n <b/>\r\n\t<c>x\ry</c>\n\n</a>\n", "<a\n  b='1\n2'\r\n c='\r'>\u{e9}\u{3042}\u{1F600}<d/>\u{e9}<e/></a>", "<?xml version='1.0'?>\n<!DOCTYPE a [\n<!ENTITY e 'x\ny<b/>z'>\n<!ELEMENT a ANY>\r\n]>\n<a>&e;\n<b>&e;</b></a>", "<a>\r\r\n\n\r\n\r</a>", "<a>\r\r <b/>\r\r\r\n\n</b>", "<!--\r\r--><?p \r\r\r\n\r?>\r\r<a b='\r\r'\r\r/>\r\rx", "<a>\n<!--\nx\n--><?p\ny\n?><![CDATA[\n\r\n]]>\n</b>", "\n\n<a></b>", "<a>\u{e9}\u{3042}&bad;</a>", "<a>\r", "<a>\r\n\n", "<a>x\u{10400}\ny</a>x", "<a>]]></a>", "<a b='<'/>", "<a\n\n\nb=>", "<a>&#xD800;</a>", "<a>xyz&#65;&lt;abc\ndef</a>", "<a><b\r/>\r<c\r\n/></a>",
            "<!DOCTYPE a SYSTEM 'e1'>\n<a>\n&x;</a>\n%%%%e1\n\n<!ENTITY x 'y'>\n <!FOO>", "<a xml:space='x'\nb='\u{e9}\u{3042}'\nb='2'/>",
        ],
        "normalize" => &[
            "<a b=' x  y\tz\nw\r\nv\rq ' c='&#10;&#13;&#9;&#32;x'/>", "<!DOCTYPE a [<!ATTLIST a i NMTOKENS #IMPLIED j ID #IMPLIED k CDATA #IMPLIED l (x|y) #IMPLIED>]><a i='  a   b\tc\n\nd  ' j='  z ' k='  a  b ' l=' x '/>", "<!DOCTYPE a [<!ATTLIST a i NMTOKENS '  a   b&#32;&#32;c ' k CDATA '  a \t\n b '>]><a/>", "<a>x\r\ny\rz\n\r\n\r\rw</a>", "<a><![CDATA[x\r\ny\rz\r\r\n]]></a>", "<a><!--x\r\ny\rz\r--><?p x\r\ny\rz\r?></a>", "<!DOCTYPE a PUBLIC ' a  b\n\nc\r\nd ' 's'><a/>", "<!DOCTYPE a [<!NOTATION n PUBLIC '  '><!NOTATION m PUBLIC ''><!NOTATION o PUBLIC 'x'><!NOTATION p PUBLIC '\n x\n'><!ENTITY e PUBLIC ' p  q ' ' s  t '>]><a/>", "<!DOCTYPE a [<!ENTITY e ' x\r\ny\rz\tw '>]><a b='&e;'>&e;</a>", "<!DOCTYPE a [<!ENTITY e ' x  y '><!ATTLIST a b NMTOKENS #IMPLIED>]><a b=' &e;&e; &#32; z'/>", "<a b='&#xd;&#xa;'>&#xd;&#xa;\r</a>", "<a b='x\u{e9} \u{3042}  '/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='a b'/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='a  b'/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='a '/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='\n'/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b=' '/>", "<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='&#32;x&#9;&#32;y&#32;'/>", "\r\n<a>\r</a>\r\n", "<a>\r</a>", "<a>x\r<b/>\ry</a>", "<!DOCTYPE a PUBLIC \"-//W3C//DTD X'HTML 1.0//EN?;!*#@$_%=\" 's'><a/>",
        ],
        "namespaces" => &[
            "<a xmlns='u'/>", "<a xmlns='u' xmlns:p='v' p:b='1' b='2'><p:c p:d='3'/></a>", "<p:a xmlns:p='v'><b xmlns='w'><c xmlns=''/></b><p:d xmlns:p='x'/><p:e/></p:a>", "<a><p:b/></a>", "<a p:b='1'/>", "<a xmlns:p=''/>", "<a xmlns:p='u' xmlns:q='u' p:b='1' q:b='2'/>", "<a xmlns:p='u' p:b='1' p:b='2'/>", "<a b='1' b='2'/>", "<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:b='1'/>", "<a xmlns:xml='u'/>", "<a xmlns:xmlns='u'/>", "<a xmlns:p='http://www.w3.org/XML/1998/namespace'/>", "<a xmlns:p='http://www.w3.org/2000/xmlns/'/>", "<a xmlns='http://www.w3.org/XML/1998/namespace'/>", "<a xmlns='http://www.w3.org/2000/xmlns/'/>", "<a xml:lang='en' xml:space='preserve'/>", "<xml:a/>", "<xmlns:a/>", "<a xmlns:p='u'><p:b/><p:b></p:b></a>", "<p:a xmlns:p='u'></p:b>", "<p:a xmlns:p='u' xmlns:q='u'></q:a>", "<a:b:c xmlns:a='u'/>", "<:a/>", "<a:/>", "<a :b='1'/>", "<a b:='1'/>",
            "<!DOCTYPE a [<!ATTLIST a xmlns CDATA 'd' xmlns:p CDATA 'e' p:q CDATA 'f'>]><a/>", "<!DOCTYPE a [<!ATTLIST a xmlns:p CDATA #FIXED 'e'>]><a><p:b/></a>", "<!DOCTYPE a:b [<!ELEMENT a:b ANY><!ATTLIST a:b c:d CDATA 'v'><!ENTITY e:f 'g'>]><a:b xmlns:a='u' xmlns:c='v'/>", "<a xmlns:p='u' xmlns:p='v'/>", "<a xmlns='u' xmlns='v'/>", "<a xmlns='u'><b xmlns='v'><c/></b><c/></a>", "<p:a xmlns:p='u'><p:b xmlns:p='v' p:x='1'><p:c p:y='2'/></p:b><p:d p:z='3'/></p:a>", "<a xmlns:ab='1' xmlns:b='2' ab:c='x' b:c='y'/>", "<a xmlns='u v'/>", "<a xmlns='\u{e9}' xmlns:\u{3042}='\u{1F600}' \u{3042}:b='1'/>", "<a xmlns='http://www.w3.org/XML/1998/namespacex' xmlns:q='http://www.w3.org/XML/1998/namespac' xmlns:r='http://www.w3.org/2000/xmlns/x' xmlns:s='http://www.w3.org/2000/xmlns'/>", "<a xmlns:xm='u' xmlns:xmlx='v' xm:b='1' xmlx:c='2'/>", "<a xmlns:xmln='u' xmlns:xmlnsx='v' xmln:b='1' xmlnsx:c='2'/>", "<a xmlns:p='&#65;&lt;' p:b='1'/>", "<a xmlns:p=' u '/>",
            "<a xmlns:a='1' xmlns:b='2' xmlns:c='3' xmlns:d='4' xmlns:e='5' a:x='' b:x='' c:x='' d:x='' e:x='' x=''><b:b xmlns:b='6'/></a>",
        ],
        "entities" => &[
            "<!DOCTYPE a [<!ENTITY e 'x<b>y</b>z'>]><a>&e;&e;</a>", "<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f 'v'>]><a b='&e;'>&e;</a>", "<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f '&e;'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e '&e;'>]><a b='&e;'/>", "<!DOCTYPE a [<!ENTITY e '<b>'>]><a>&e;</b></a>", "<!DOCTYPE a [<!ENTITY e '</b>'>]><a><b>&e;</a>", "<!DOCTYPE a [<!ENTITY e '<b/'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a>&e;</a>\n%%%%e1\n<b>t&amp;</b>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'>]><a b='&e;'/>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'fail'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e1'><!ENTITY f '[&e;]'>]><a>&f;</a>\n%%%%e1\n<b/>&f2;", "<a>&undef;</a>", "<!DOCTYPE a SYSTEM 'none'><a b='&undef;'>&undef;</a>", "<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'none'><a>&undef;</a>", "<!DOCTYPE a [<!ENTITY e 'x'>]><a>&e</a>", "<!DOCTYPE a [<!ENTITY e '<![CDATA[x]]>'><!ENTITY f '<?p d?><!--c-->'>]><a>&e;&f;</a>", "<!DOCTYPE a [<!ENTITY e '&#38;#38;'><!ENTITY f '&#38;lt;'>]><a b='&e;&f;'>&e;&f;</a>", "<!DOCTYPE a [<!ENTITY e '<'>]><a b='&e;'/>", "<!DOCTYPE a [<!ENTITY e 'a]]'>]><a>&e;></a>", "<!DOCTYPE a [<!ENTITY e ''>]><a b='&e;'>&e;</a>", "<!DOCTYPE a [<!ENTITY % p 'ANY'><!ELEMENT a %p;>]><a/>", "<!DOCTYPE a SYSTEM 'e1'><a>&f;</a>\n%%%%e1\n<!ENTITY % p 'q'><!ENTITY f '1%p;2'><!ENTITY % r '%p;%p;'><!ENTITY g '%r;'>", "<!DOCTYPE a SYSTEM 'e1'><a/>\n%%%%e1\n<!ENTITY % p '%p;'>%p;", "<!DOCTYPE a [<!ENTITY % p SYSTEM 'e1'>%p;]><a/>\n%%%%e1\n%p;",
        ],
        "attributes" => &[
            "<a b='1' c=\"2\" d = '3'\te\n=\r'4'/>", "<a b='' c=\"'\" d='\"'>x</a>", "<a b='x>y' c='/' d='/>'/>", "<a b='1'c='2'/>", "<a b='1' b='2'/>", "<a b=1/>", "<a b/>", "<a b='1' c/>", "<a b='<'/>", "<a b='&'/>", "<a b='&lt;&amp;x'/>", "<a\u{e9} \u{e9}='\u{3042}' \u{3042}='\u{1F600}' b\u{e9}c='x'/>", "<a:b c:d='e' f='g:h'/>", "<a b ='1' c= '2'  ></a>", "<a b='1'\n/>", "<a\tb='1'\r\n></a\n>", "<a a1='1' a2='2' a3='3' a4='4' a5='5' a6='6' a7='7' a8='8' a9='9' a10='10' a11='11' a12='12' a13='13' a14='14' a15='15' a16='16' a17='17' a18='18' a19='19' a20='20'/>", "<!DOCTYPE a [<!ATTLIST a i ID #IMPLIED z CDATA 'd' y CDATA #FIXED 'f' b CDATA 'no'>]><a b='1' i='x'><a/><a i='y' z='z'/></a>", "<!DOCTYPE a [<!ATTLIST a b CDATA 'x' b CDATA 'y'><!ATTLIST c d ID #IMPLIED e ID #IMPLIED>]><a><c e='1' d='2'/></a>", "<a b=' x ' c='  ' d=' y  z ' e='&#32;'/>", "<a abc='1' ab='2' abcd='3' a='4'/>", "<e a='>' b=\">\" c='/' >></e>",
        ],
        "wellformed" => &[
            "<a><b></b></a>", "<a><b></a></b>", "<a></a><b/>", "<a></A>", "<ab></a>", "<a></ab>", "<\u{e9}a></\u{e9}a>", "<\u{e9}a></\u{e8}a>", "<a>]]></a>", "<a>]]&gt;</a>", "<a><![CDATA[]]></a>", "<a><![CDATA[x]]y]]]></a>", "<a><![CDATA[x</a>", "<![CDATA[x]]><a/>", "<a><!-- -- --></a>", "<a><!----></a>", "<a><?p?><?p x?></a>", "<a><?xml?></a>", "<a><?XML x?></a>", "x<a/>", "<a/>x", "<a/>&#32;", "<a>", "</a>", "<a/></a>", "<1a/>", "<a 1='b'/>", "<a></a >", "< a/>", "<a / >", "<a>\u{fffe}</a>", "<a>\u{1}</a>", "<a>\u{b}</a>", "<a b='\u{c}'/>", "<a>\0</a>", "<a/>\0", "<a><b/><c/><d><e><f></f></e></d></a>", "<a>&#1;</a>", "<a><b>1</b>2<b>3</b>4</a>", "<!--x--><a/><!--y-->", "<?p?><a/><?q?>", "<a><?a b ?c?></a>", "<a><?\u{e9}\u{3042} x?></a>",
            "<long_element_name_that_is_longer_than_others attribute_name='a value that is quite long, to need more than one block of the pool'>text text text text text text text text text text text text text text text text text text text text text text text text</long_element_name_that_is_longer_than_others>",
        ],
        _ => &[],
    };
    s.iter().map(|x| x.to_string()).collect()
}
fn utf16(s: &str, be: bool, bom: bool) -> Vec<u8> {
    let mut v = Vec::new();
    let mut put = |x: u16| if be { v.push((x >> 8) as u8); v.push(x as u8) } else { v.push(x as u8); v.push((x >> 8) as u8) };
    if bom { put(0xfeff) }
    for x in s.encode_utf16() { put(x) }
    v
}
fn latin(s: &str) -> Option<Vec<u8>> { let mut v = Vec::new(); for c in s.chars() { if (c as u32) < 256 { v.push(c as u8) } else { return None } } Some(v) }
// the document in a form, its external entities in the same
fn encode(s: &str, form: usize) -> Option<(i64, Vec<u8>)> {
    let m = std::str::from_utf8(PCT).unwrap();
    let mut it = s.split(m);
    let f = |t: &str| -> Option<(i64, Vec<u8>)> { Some(match form {
        0 => (0, t.as_bytes().to_vec()),
        1 => (0, { let mut v = vec![0xef, 0xbb, 0xbf]; v.extend_from_slice(t.as_bytes()); v }),
        2 => (0, utf16(t, false, true)),
        3 => (0, utf16(t, true, true)),
        4 => (3, latin(t)?),
        5 => (1, t.as_bytes().to_vec()),
        6 => (5, utf16(t, false, false)),
        7 => (6, utf16(t, true, false)),
        8 => (2, utf16(t, true, true)),
        9 => (0, utf16(t, true, false)),
        10 => (0, utf16(t, false, false)),
        11 => (4, t.as_bytes().to_vec()),
        12 => (7, latin(t)?),
        _ => (2, utf16(t, false, true)),
    }) };
    let (k, mut b) = f(it.next()?)?;
    for e in it {
        let i = e.find('\n').unwrap_or(e.len());
        b.extend_from_slice(PCT);
        b.extend_from_slice(&e.as_bytes()[..i]);
        b.push(b'\n');
        b.extend_from_slice(&f(&e[(i + 1).min(e.len())..])?.1);
    }
    Some((k, b))
}
const WALK: &str = include_str!(concat!(env!("VGEN"), "/walk.txt"));
const FULL: i64 = M_ALL;
// every document of the group under the call programs that bear on the property
fn sweep(c: &mut Ctx, group: &str, forms: &[usize], chunks: &[i64], rest: &[[i64; 7]]) {
    for d in docs(group) { for &f in forms { if let Some((e, b)) = encode(&d, f) {
        for q in rest { for &k in chunks {
            // [enc, ns, chunk, feed, mask, pe, act, at, flags]
            c.case(&[e, q[0], k, q[1], q[2], q[3], q[4], q[5], q[6]], &b);
        } }
        if c.late() { return; }
    } } }
}
fn every_split(c: &mut Ctx, group: &str, forms: &[usize], rest: &[[i64; 7]]) {
    for d in docs(group) { for &f in forms { if let Some((e, b)) = encode(&d, f) {
        for q in rest { for k in 1..(b.len() as i64).min(120) { c.case(&[e, q[0], -k, q[1], q[2], q[3], q[4], q[5], q[6]], &b); } }
        if c.late() { return; }
    } } }
}
const GROUPS: &[&str] = &["charrefs", "text", "xmldecl", "prolog", "positions", "normalize", "namespaces", "entities", "attributes", "wellformed"];
fn search(c: &mut Ctx) {
    search_own(c);
    let n = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 300000 } else { 12000 };
    let g = c.prop.clone();
    match g.as_str() { "fuzz" | "fuzz1" | "fuzz2" => {} "unknown" | "models" => {} "pieces" => vary(c, "wellformed", n / 2), "vary" => vary(c, "wellformed", 1 << 30), _ => vary(c, &g, n) }
}
fn search_own(c: &mut Ctx) {
    let prop = c.prop.clone();
    let g = prop.as_str();
    if g == "fuzz" { return fuzz(c, GROUPS, 0) }
    if g == "fuzz1" { return fuzz(c, GROUPS, 1) }
    if g == "fuzz2" { return fuzz(c, GROUPS, 2) }
    if g == "unknown" { return described(c) }
    if g == "pieces" { return pieces(c) }
    if g == "models" { return models(c) }
    if g == "prolog" {
        for (i, d) in WALK.split('\0').enumerate() {
            let f = if i % 16 == 5 { 2 } else { 0 };
            if let Some((e, b)) = encode(d, f) { c.case(&[e, (i & 1) as i64, if i % 8 == 3 { 1 } else { 0 }, 0, FULL, 2, 0, 0, F_POS], &b); }
        }
    }
    if g == "buffers" {
        let mut ds: Vec<String> = docs("wellformed");
        ds.extend(docs("positions"));
        let long: String = (0..400).map(|i| format!("<b n='{}'>line {}\n\u{e9}</b>", i, i)).collect();
        ds.insert(0, format!("<a>{}</a>", long));
        ds.insert(1, format!("<a b='{}'/>", "x".repeat(5000)));
        ds.insert(2, format!("<a>{}<b>", long));
        for d in ds { for &f in &[0, 2] { if let Some((e, b)) = encode(&d, f) {
            for feed in 0..5 { for &k in &[0, 1, 3, 7, 100, 700, 1023, 1024, 1025, 2047, 2048, 2049, -1, -3, -1100, -2500] {
                if k != 0 && b.len() as i64 <= if k < 0 { -k } else { k } { continue }
                for &fl in &[F_POS, F_EMPTY, F_BUF | F_CTX, F_DUP | F_POS, F_RESET] { c.case(&[e, 0, k, feed, FULL, 0, 0, 0, fl], &b); }
            } }
            if c.late() { return; }
        } } }
        // long constructs in pieces of all sizes, so that the window is moved and grown in every way
        let body = |r: &mut Ctx| { let n = [0, 5, 900, 1024, 3000, 7000, 12000][r.below(7)]; let z = r.below(23); (0..n).map(|i| ((i * 7 + z) % 23 + 97) as u8 as char).collect::<String>() };
        for k in 0..if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 4000 } else { 200 } {
            let mut d = "<a>".to_string();
            for _ in 0..2 + c.below(4) { let t = body(c); d.push_str(&match c.below(6) { 0 => format!("<!--{}-->", t), 1 => format!("<?p {}?>", t), 2 => format!("<b c='{}'/>", t), 3 => format!("<b{}/>", t), 4 => format!("<![CDATA[{}]]>", t), _ => t }) }
            d.push_str("</a>");
            if let Some((e, b)) = encode(&d, if k % 5 == 4 { 2 } else { 0 }) { for i in 0..4 { c.case(&[e, 0, 1 + k * 4 + i, 5, FULL, 0, 0, 0, [0, F_EMPTY, F_POS, F_BUF][i as usize]], &b); } }
            if c.late() { return; }
        }
        return;
    }
    if g == "states" {
        // suspend and stop at every event, in every way of handing over the text; alone or against the C library
        for &gr in &["wellformed", "entities", "prolog", "namespaces", "positions"] { for d in docs(gr) { if d.contains("]]'>") { continue } for &f in &[0, 3] { if let Some((e, b)) = encode(&d, f) {
            for &k in &[0, 1, 5, -9] { for &at in &[-1, -2, 1, 2, 3, 5] { for &feed in &[0, 1] {
                c.case(&[e, 0, k, feed, FULL, 2, 1, at, F_EMPTY, 1], &b);
                if gr == "wellformed" || gr == "positions" { c.case(&[e, 1, k, feed, FULL, 2, 1, at, F_DUP], &b); }
            } }
            for at in 1..7 { for &act in &[2, 4, 6] { c.case(&[e, 0, k, 0, FULL, 2, act, at, F_DUP | F_POS], &b); } } }
            c.case(&[e, 0, 0, 0, FULL, 2, 0, 0, F_DUP | F_RESET], &b);
            if d.contains("%%%%") { for &k in &[0, 4] { for &at in &[-1, 2, 3] { for &fl in &[0, F_DUP, F_EMPTY] { c.case(&[e, 0, k, k & 1, FULL, 2, 8, at, fl], &b); } } } }
            if c.late() { return; }
        } } } }
        // suspended inside an entity of its own, the rest in pieces of all sizes; the same for a child parser
        for k in 0..if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 3000 } else { 150 } {
            let mut d = String::new();
            let mut open = Vec::new();
            for i in 0..3 + c.below(7) {
                let n = [1, 4, 30, 900, 3000][c.below(5)];
                let t: String = (0..n).map(|j| ((j * 7 + i) % 23 + 97) as u8 as char).collect();
                match c.below(9) { 0 | 1 | 2 => d.push_str(["&e;", "&f;", "&g;"][c.below(3)]), 3 => d.push_str(&format!("<!--{}-->", t)), 4 => d.push_str(&format!("<?p {}?>", t)), 5 | 6 => { d.push_str(&format!("<{}>", t)); open.push(t) }, 7 => { if let Some(t) = open.pop() { d.push_str(&format!("</{}>", t)) } }, _ => d.push_str(&t) }
            }
            while let Some(t) = open.pop() { d.push_str(&format!("</{}>", t)) }
            let child = k % 3 == 2;
            let ents = "<!ENTITY e '<i/>'><!ENTITY f '<i>x</i>&e;<j k=\"l\"/>y'><!ENTITY g '<![CDATA[u]]>v<!--w-->'>";
            let d = if child { format!("<!DOCTYPE a [{}<!ENTITY x SYSTEM 'x'>]><a>&x;</a>\n%%%%x\n{}", ents, d) } else { format!("<!DOCTYPE a [{}]><a>{}</a>", ents, d) };
            if let Some((e, b)) = encode(&d, if k % 5 == 4 { 2 } else { 0 }) { for i in 0..8 {
                let at = match i { 0 => -1, 1 => -2, _ => 4 + c.below(16) as i64 };
                let ch = 1 + k * 8 + i;
                if child { c.case(&[e, 0, [0, 7, 100, 1000, 3000][(ch % 5) as usize], k & 1, FULL, 2, 8, at, 0, 1], &b) } else { c.case(&[e, k & 1, ch, 5, FULL, 2, 1, at, F_EMPTY, 1], &b) }
            } }
            if c.late() { return; }
        }
        return;
    }
    if g == "text" {
        // default text asked for where the event has none
        for d in &["<!DOCTYPE a [<!ENTITY e '&#xDBFF;'>]><a/>", "<!DOCTYPE a [<!ENTITY % p 'x'><!ENTITY y '%p;'>]><a/>", "<!DOCTYPE a [<!ENTITY y 'a&b'>]><a/>", "<!DOCTYPE a [<!ENTITY y 'a&#0;b'>]><a/>"] {
            for &f in &[0, 2, 3, 4] { if let Some((e, b)) = encode(d, f) { for at in 1..6 { for &k in &[0, 1] { c.case(&[e, 0, k, 0, FULL | M_DF, 2, 3, at, 0, 3], &b); c.case(&[e, 0, k, 0, FULL | M_DE, 2, 3, at, 0, 3], &b); } } } }
        }
        // characters of every length at the ends of the conversion buffers (1024 units), in every construct
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        for (i, sp) in ["\u{e9}", "\u{3042}", "\u{1F600}", "\u{e9}\u{1F600}", "\u{7ff}\u{800}\u{ffff}".trim_end_matches('\u{ffff}'), "\u{10ffff}"].iter().enumerate() {
            for n in if thorough { 1010..1032 } else { 1018..1027 } {
                let t = format!("{}{}", "x".repeat(n), sp.repeat(3));
                let t2 = format!("{}{}{}z", t, "y".repeat(1030 - n), sp.repeat(345));
                let d = format!("<!DOCTYPE a [<!ENTITY e '{}'>]><a b='{}'>{}<!--{}-->&e;<?p {}?><![CDATA[{}]]><c>{}\n</c></a>", t, t2, t2, t2, t, t2, sp.repeat(1030));
                for f in if thorough { 0..14 } else { 0..6 } { if let Some((e, b)) = encode(&d, f) {
                    c.case(&[e, 0, [0, 1000, -(n as i64) - 40][(n + i) % 3], 0, FULL, 0, 0, 0, F_POS], &b);
                    c.case(&[e, 0, 0, 0, M_DF, 0, 9, 2 + n as i64 % 9, 0, 3], &b);
                    c.case(&[e, 0, 0, 0, FULL, 0, 6, 2 + n as i64 % 5, 0, 3], &b);
                    c.case(&[e, 0, [0, 700][n % 2], 1, [M_DF, M_DF | M_DE | M_EL, M_DE | M_PI][n % 3], 0, 0, 0, 0], &b);
                } }
                if c.late() { return; }
            }
        }
    }
    if g == "encodings" {
        // the first bytes of a document and of an entity under every encoding named from outside
        let al: &[u8] = &[0, b'<', b'?', 0xef, 0xbb, 0xbf, 0xfe, 0xff, b'a', b'\r', 0x20];
        let mut pre: Vec<Vec<u8>> = vec![vec![]];
        for &x in al { pre.push(vec![x]); for &y in al { pre.push(vec![x, y]); for &z in al { pre.push(vec![x, y, z]); } } }
        let t = |k: usize| -> Vec<u8> { match k { 0 => vec![], 1 => b"<a/>".to_vec(), 2 => utf16("<a/>", false, false), 3 => utf16("<a/>", true, false), 4 => b"x\xe9".to_vec(), 5 => utf16("x\u{e9}", false, false), _ => utf16("x\u{e9}", true, false) } };
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        for (i, q) in pre.iter().enumerate() {
            for k in 0..7 { for e in 0..ENCS.len() {
                // every prefix of up to two bytes; a third of the longer ones
                if q.len() == 3 && !thorough && (i + k * 5 + e) % 7 != 0 { continue }
                let mut b = q.clone();
                b.extend(t(k));
                c.case(&[e as i64, (i & 1) as i64, [0, 1][(i + k + e) % 2], ((i + e) % 3) as i64, FULL, 0, 0, 0, F_POS], &b);
                let form = (i + k) % 3;
                let at = if e == 0 { "".to_string() } else { format!("@{}", ENCS[e]) };
                let mut d = if form == 2 { format!("<!DOCTYPE a SYSTEM 'e{}'><a/>", at) } else { format!("<!DOCTYPE a [<!ENTITY x SYSTEM 'e{}'>]><a>&x;</a>", at) }.into_bytes();
                d.extend_from_slice(PCT);
                d.extend_from_slice(format!("e{}\n", at).as_bytes());
                d.extend(&b);
                c.case(&[0, (i & 1) as i64, [0, 1][(i + k + e) % 2], 0, FULL, 2, 0, 0, if e == 0 && form == 0 { 0 } else { F_POS }], &d);
            } }
            if c.late() { return; }
        }
        // names of encodings, spelled nearly right
        for n in &["UTF-8", "UTF-16", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "x-latin"] {
            let mut v = vec![n.to_string(), n.to_lowercase(), format!("{}x", n), n[1..].to_string(), n[..n.len() - 1].to_string(), format!("x{}", n)];
            for i in 0..n.len() { for r in &["", "x", "-", "_", "."] { v.push(format!("{}{}{}", &n[..i], r, &n[i + 1..])) } let lo = n[i..i + 1].to_lowercase(); v.push(format!("{}{}{}", &n[..i], lo, &n[i + 1..])); }
            for s in v { for ty in 0..2 { for &f in &[0, 2, 3, 4, 6] {
                let d = if ty == 0 { format!("<?xml version='1.0' encoding='{}'?><a>\u{e9}</a>", s) } else { format!("<!DOCTYPE a [<!ENTITY x SYSTEM 'e'>]><a>&x;</a>\n%%%%e\n<?xml encoding='{}'?>\u{e9}", s) };
                if let Some((e, b)) = encode(&d, f) { c.case(&[e, ty, 0, 0, FULL, 2, 0, 0, F_POS], &b); }
            } } }
            if c.late() { return; }
        }
        // long names around the size of the conversion buffer
        for n in 120..136 { for &f in &[0, 2] { if let Some((e, b)) = encode(&format!("<?xml version='1.0' encoding='{}'?><a/>", "x".repeat(n)), f) { c.case(&[e, 0, 0, 0, FULL, 2, 0, 0, F_POS], &b); c.case(&[e, 1, 1, 0, FULL & !M_UE, 2, 0, 0, F_POS], &b); } } }
        return;
    }
    if g == "xmldecl" {
        // what a standalone declaration is for: references that a standalone document may not leave undeclared
        for x in &["", "<?xml version='1.0'?>", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>", "<?xml version='1.0' encoding='UTF-8' standalone=\"yes\" ?>", "<?xml version='1.0' encoding='ISO-8859-1' standalone = 'no'?>"] {
            for ty in &["", "<!DOCTYPE a SYSTEM 'e'>", "<!DOCTYPE a SYSTEM 'e' [<!ENTITY i 'v'>]>", "<!DOCTYPE a [<!ENTITY % p SYSTEM 'e'>%p;]>", "<!DOCTYPE a [<!ENTITY % p SYSTEM 'e'>%p;<!ENTITY i 'v'><!ATTLIST a b CDATA 'x'>]>", "<!DOCTYPE a [%p;<!ENTITY i 'v'>]>", "<!DOCTYPE a [<!ENTITY i '&u;'>]>"] {
                for body in &["<a/>", "<a>&u;</a>", "<a>&i;</a>", "<a b='&u;'/>", "<a b='&i;'/>", "<a>&w;</a>", "<a b='&w;'/>"] {
                    for ent in &["", "<!ENTITY w 'ww'>", "<?xml encoding='UTF-8'?><!ATTLIST a d CDATA '&u;'><!ENTITY w 'ww'>", "<?xml encoding='UTF-8' standalone='no'?>", "<!ENTITY % q SYSTEM 'f'>%q;<!ENTITY w 'ww'>"] {
                        if !ty.contains("'e'") && !ent.is_empty() { continue }
                        let d = format!("{}{}{}\n%%%%e\n{}", x, ty, body, ent);
                        for &f in &[0, 2] { if let Some((e, b)) = encode(&d, f) { for pe in &[0, 1, 2, 16, 18, 6] { for &m in &[FULL, FULL | M_SA, FULL & !M_SK, FULL & !M_XE] { c.case(&[e, 0, 0, 0, m, *pe, 0, 0, 0], &b); } } } }
                    }
                }
                if c.late() { return; }
            }
        }
        // declarations put together from parts
        let part = |c: &mut Ctx| -> String {
            let n = *c.pick(&["version", "version", "encoding", "encoding", "standalone", "standalone", "Version", "versio", "encodin", "standalones", "x", ""]);
            let v = match n.bytes().next() { Some(b'v') => *c.pick(&["1.0", "1.1", "", "1_0", "a:b", "\u{e9}", "1 0"]), Some(b'e') => *c.pick(&["UTF-8", "utf-8", "ISO-8859-1", "x-latin", "UTF-16", "8", "", "no-such", "_u", "Utf.8", "us-ascii"]), _ => *c.pick(&["yes", "no", "Yes", "ye", "nos", "", "yesno"]) };
            let s = *c.pick(&[" ", " ", " ", " ", " ", "\t", "\r\n", "  ", ""]);
            let e = *c.pick(&["=", "=", "=", "=", " = ", "\n=\t", "", "=="]);
            let (q, r) = *c.pick(&[("'", "'"), ("'", "'"), ("\"", "\""), ("\"", "\""), ("'", "\""), ("", ""), ("''", "'")]);
            format!("{}{}{}{}{}{}", s, n, e, q, v, r)
        };
        let good = |c: &mut Ctx| -> String {
            let mut s = String::new();
            if c.below(4) > 0 { s += *c.pick(&[" version='1.0'", "\tversion = \"1.0\"", "\r\nversion='1.1'"]) }
            if c.below(3) > 0 { s += *c.pick(&[" encoding='UTF-8'", "\n encoding\t=\"utf-8\"", " encoding='ISO-8859-1'", " encoding='x-latin'", " encoding='UTF-16'"]) }
            if c.below(3) == 0 { s += *c.pick(&[" standalone='yes'", "  standalone = 'no'", "\nstandalone=\"yes\""]) }
            s
        };
        for _ in 0..if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 40000 } else { 3000 } {
            let mut x = "<?xml".to_string();
            if c.below(2) == 0 { let n = 1 + c.below(4); for _ in 0..n { x += &part(c) } } else { x += &good(c); if c.below(3) == 0 { x += &part(c) } }
            x += *c.pick(&["", "", "", " ", "\n", "x", "\u{e9}", "?"]);
            x += "?>";
            let d = match c.below(4) { 0 | 1 => format!("{}<a>\u{e9}</a>", x), 2 => format!("<!DOCTYPE a [<!ENTITY x SYSTEM 'e'>]><a>&x;</a>\n%%%%e\n{}\u{e9}", x), _ => format!("<!DOCTYPE a SYSTEM 'e' [<!ENTITY % p '{}'>]><a/>\n%%%%e\n{}<!ENTITY e 'v'>", if c.below(2) == 0 { "<!ELEMENT a ANY>" } else { "" }, x) };
            let f = *c.pick(&[0, 0, 2, 3, 4, 5, 6, 7, 11]);
            if let Some((e, b)) = encode(&d, f) { let p = [e, c.below(2) as i64, *c.pick(&[0, 0, 1, 3, -7, -20]), c.below(3) as i64, if c.below(3) == 0 { FULL | M_DF } else { FULL }, 2, 0, 0, F_POS]; c.case(&p, &b); }
            if c.late() { return; }
        }
    }
    if GROUPS.contains(&g) {
        sweep(c, g, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[0, 1, 2, 5], &[[0, 0, FULL, 1, 0, 0, F_POS], [1, 0, FULL, 2, 0, 0, 0], [5, 1, FULL | M_DF, 0, 0, 0, F_POS]]);
        every_split(c, g, &[0, 2, 3], &[[1, 0, FULL, 2, 0, 0, F_POS], [0, 1, FULL | M_DE, 0, 0, 0, F_EMPTY]]);
        if g == "positions" {
            sweep(c, g, &[0, 2, 4], &[0, 1, 3, 7, -11], &[[0, 0, FULL, 1, 0, 0, F_POS | F_LATE], [0, 2, M_EL, 1, 0, 0, F_POS], [0, 0, 0, 2, 0, 0, F_POS]]);
            // suspended and resumed between the pieces
            for d in docs(g) { if d.contains("ENTITY") { continue } for &f in &[0, 2] { if let Some((e, b)) = encode(&d, f) {
                for k in 0..(b.len() as i64).min(60) { for &at in &[-1, -2, 1, 3] { for &feed in &[0, 2] { c.case(&[e, 0, if k == 0 { 4 } else { -k }, feed, FULL, 0, 1, at, F_POS | F_EMPTY], &b); } } }
                if c.late() { return; }
            } } }
        }
        return;
    }
}
// random variations; for hunting, and for the thorough tier
fn fuzz(c: &mut Ctx, groups: &[&str], own: i64) {
    let all: Vec<String> = groups.iter().flat_map(|g| docs(g)).collect();
    let frag = ["<", ">", "&", ";", "'", "\"", "]]>", "<!", "<?", "?>", "-->", "<!--", "&#", "%", "\r", "\n", "\r\n", " ", "\t", "=", ":", "xmlns", "xmlns:p='u'", "p:", "#", "(", ")", "|", ",", "*", "+", "?", "\u{e9}", "\u{3042}", "\u{1F600}", "&amp;", "&e;", "%p;", "CDATA", "<![CDATA[", "]", "[", "/", "/>", "SYSTEM 'e1'", "PUBLIC 'p' 's'", "\u{0}", "\u{1}", "\u{fffe}", "\u{85}", "\u{2028}", "encoding='UTF-8'", "standalone='yes'", "#PCDATA", "#REQUIRED", "NMTOKENS", "NDATA n", "<b>", "</b>", "</a>", "\n%%%%e1\n"];
    while !c.late() {
        let mut d: Vec<char> = c.pick(&all).chars().collect();
        for _ in 0..c.below(4) {
            match c.below(5) {
                0 => { if d.len() > 0 { let i = c.below(d.len()); d.remove(i); } }
                1 => { if d.len() > 1 { let i = c.below(d.len()); let n = c.below(8); let e = (i + n).min(d.len()); d.drain(i..e); } }
                2 => { let f: Vec<char> = c.pick(&frag).chars().collect(); let i = c.below(d.len() + 1); for (k, x) in f.into_iter().enumerate() { d.insert(i + k, x) } }
                3 => { let o: Vec<char> = c.pick(&all).chars().collect(); if o.len() > 0 { let a = c.below(o.len()); let b = (a + c.below(30)).min(o.len()); let i = c.below(d.len() + 1); for k in 0..b - a { d.insert(i + k, o[a + k]) } } }
                _ => { if d.len() > 0 { let i = c.below(d.len()); let n = c.below(10); let e = (i + n).min(d.len()); let x: Vec<char> = d[i..e].to_vec(); for (k, y) in x.into_iter().enumerate() { d.insert(i + k, y) } } }
            }
        }
        let s: String = d.into_iter().collect();
        let form = if c.below(2) == 0 { 0 } else { c.below(14) };
        let (e, mut b) = match encode(&s, form) { Some(x) => x, None => continue };
        if c.below(6) == 0 && b.len() > 0 { let i = c.below(b.len()); b[i] = c.rnd() as u8; }
        if b.windows(5).any(|w| w == b"<!DOC") && b.len() > 3000 { continue }
        let chunk = *c.pick(&[0, 0, 1, 2, 3, 7, -1, -2, -5, -17, -40]);
        let mask = if c.below(3) > 0 { FULL } else { (c.rnd() & 524287) as i64 & !M_SA };
        let (act, at) = if c.below(3) == 0 { (*c.pick(&[1, 1, 2, 4, 6]), 1 + c.below(8) as i64) } else { (0, 0) };
        let p = [e, c.below(8) as i64, chunk, c.below(4) as i64, mask, c.below(32) as i64, act, at, (if c.below(2) == 0 { F_POS } else { c.below(32) as i64 }) & if act == 1 { !(F_POS | F_CTX) } else { -1 }];
        let mut p = p.to_vec();
        match own { 1 => { p[6] = 1; p[7] = c.below(11) as i64 - 2; if p[7] == 0 { p[7] = -3 } p[8] &= !(F_POS | F_CTX | F_RESET | F_DUP); p.push(1) } 2 => { if b.iter().take(2).any(|&x| x == 0) { continue } p[6] = 0; p[8] &= F_EMPTY; p.push(2) } _ => {} }
        c.case(&p, &b);
    }
}
// documents in encodings that the application describes
fn described(c: &mut Ctx) {
    let n = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 600000 } else { 25000 };
    let m = std::str::from_utf8(PCT).unwrap();
    for k in 0..n {
        let seed = 1 + c.below(100000) as u64;
        let map = rand_map(seed);
        let decl = format!("<?xml {}encoding='{}{}'?>", "version='1.0' ", c.pick(&["x-r", "x-r", "X-R"]), seed);
        let d = match k % 4 {
            0 => format!("<a b='{}'>{}</a>", run_of(c), chars(c, true)),
            1 => { let w = format!("n{}", word(c)); format!("<{} {}='{}'>{}<![CDATA[{}]]><?{} {}?><!--{}--></{}>", w, word(c), run_of(c), run_of(c), run_of(c), w, word(c), word(c), w) }
            2 => { let x = content(c, 1); format!("<!DOCTYPE a [<!ENTITY x SYSTEM 'e1'><!ENTITY k '{}'><!ATTLIST a {} CDATA '{}'>]><a>&x;&k;</a>{}e1\n<?xml encoding='x-r{}'?>{}", run_of(c), word(c), run_of(c), m, if c.below(2) == 0 { seed } else { 1 + c.below(1000) as u64 }, x) }
            _ => made_up(c).replace("<?xml version='1.0'?>", "").replace("<?xml version=\"1.0\" standalone='yes'?>\n", "").replace("<?xml version='1.0' standalone='no' ?>\r\n", ""),
        };
        let mut b = decl.into_bytes();
        if c.below(20) == 0 { b.clear() }
        // other characters than ASCII become one character of the encoding, now and then any bytes at all
        let lead: Vec<usize> = (0..256).filter(|&i| i >= 128 && (map[i] > 0x7f || map[i] < -1)).collect();
        let all: Vec<usize> = (0..256).filter(|&i| i >= 128 || "$@\\^`{}~".contains(i as u8 as char)).collect();
        let wild = c.below(6) == 0;
        // letters where letters are called for
        for ch in d.chars() {
            if (ch as u32) < 0x80 { if c.below(400) == 0 { b.push(*c.pick(b"$@\\^`{}~")) } else { b.push(ch as u8) } continue }
            let mut done = false;
            for _ in 0..12 {
                let i = if wild || lead.is_empty() { *c.pick(&all) } else { *c.pick(&lead) };
                let n = if map[i] < -1 { -map[i] as usize } else { 1 };
                let mut t = vec![i as u8];
                for _ in 1..n { t.push((0x40 + c.below(0xbf)) as u8) }
                let cp = if n == 1 { map[i] } else { let e = Rand { run: std::ptr::null_mut(), seed, map }; unsafe { conv_r(&e as *const Rand as *mut c_void, t.as_ptr() as *const cc) } };
                if wild && c.below(3) == 0 || std::char::from_u32(cp as u32).map_or(false, |x| cp < 0xfff0 && cp > 0x7f && (x.is_alphabetic() || d.len() > 300 || (0x300..0x345).contains(&cp) || cp == 0xb7 || (0x660..0x669).contains(&cp))) { b.extend(t); done = true; break }
            }
            if !done { b.push(b'z') }
        }
        if c.below(10) == 0 && b.len() > 60 { let i = 45 + c.below(b.len() - 45); b[i] = c.rnd() as u8; }
        let chunk = match c.below(4) { 0 | 1 => 0, 2 => *c.pick(&[1, 2, 3, 7, 64]), _ => -1 - c.below(b.len() + 1) as i64 };
        let mask = match c.below(4) { 0 | 1 => FULL, 2 => FULL & !M_CD | M_DF, _ => (c.rnd() & 524287) as i64 & !M_SA | M_UE };
        let p = [0, c.below(4) as i64, chunk, c.below(4) as i64, mask, *c.pick(&[0, 2, 2]), 0, 0, *c.pick(&[0, F_POS, F_POS, F_RESET, F_EMPTY])];
        c.case(&p, &b);
        if c.late() { return; }
    }
}
// documents made up at random, most of them well-formed, under call programs made up at random
fn word(c: &mut Ctx) -> String { let n = 1 + c.below(3); (0..n).map(|_| *c.pick(&["a", "b", "cc", "x1", "-", "_", ".", "\u{e9}", "\u{3042}", "Q"])).collect::<String>() }
fn name(c: &mut Ctx) -> String { if c.below(3) > 0 { c.pick(&["a", "b", "c", "item", "p:b", "q:c", "p:item"]).to_string() } else { format!("n{}", word(c)) } }
fn run_of(c: &mut Ctx) -> String {
    // a run of text: mostly short, sometimes as long as the conversion buffer
    let n = match c.below(12) { 0 => 1000 + c.below(60), 1 => 300 + c.below(900), 2 => 2000 + c.below(300), _ => c.below(9) };
    let wide = c.below(3);
    let mut s = String::new();
    for _ in 0..n { s.push_str(match wide { 0 => *c.pick(&["x", "y", "z ", "7"]), 1 => *c.pick(&["x", "\u{e9}", "y", "\u{fc}"]), _ => *c.pick(&["x", "\u{3042}", "\u{1F600}", "\u{e9}"]) }) }
    s
}
fn chars(c: &mut Ctx, lines: bool) -> String {
    let mut s = String::new();
    for _ in 0..c.below(4) { s += &run_of(c); if lines && c.below(2) == 0 { s += *c.pick(&["\n", "\r\n", "\r", "\n\n", "\t", " \r\n "]) } }
    s
}
fn value(c: &mut Ctx) -> String {
    let mut s = String::new();
    for _ in 0..c.below(4) { s += &match c.below(6) { 0 => c.pick(&["&lt;", "&amp;", "&#10;", "&#x20;", "&#9;", "&#233;", "&quot;", "&apos;"]).to_string(), 1 => c.pick(&[" ", "  ", "\t", "\n", "\r\n", "\r"]).to_string(), 2 => c.pick(&["&i;", "&j;"]).to_string(), 3 => run_of(c), _ => word(c) } }
    s
}
fn atts(c: &mut Ctx) -> String {
    let mut s = String::new();
    let mut used: Vec<String> = vec![];
    for _ in 0..c.below(5) {
        let n = match c.below(8) { 0 => "xmlns".to_string(), 1 => "xmlns:p".to_string(), 2 => "xmlns:q".to_string(), _ => name(c) };
        if used.contains(&n) && c.below(20) > 0 { continue }
        let v = if n.starts_with("xmlns") { c.pick(&["u", "v", "urn:w", "http://x/y"]).to_string() } else { value(c) };
        let q = *c.pick(&["'", "\""]);
        s += &format!("{}{}{}{}{}{}", c.pick(&[" ", "\n", "  ", "\r\n\t"]), n, c.pick(&["=", "=", " = ", "=\n"]), q, v, q);
        used.push(n);
    }
    s
}
fn content(c: &mut Ctx, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..c.below(6) {
        s += &match c.below(if depth == 0 { 9 } else { 12 }) {
            0 | 1 => chars(c, true), 2 => format!("<![CDATA[{}]]>", chars(c, true)), 3 => format!("<!--{}-->", chars(c, true)), 4 => { let w = word(c); format!("<?t{} {}?>", w, chars(c, true)) }
            5 => c.pick(&["&lt;", "&#65;", "&#x1F600;", "&amp;", "&#13;", "&gt;"]).to_string(), 6 => c.pick(&["&i;", "&j;", "&x;", "&k;", "&nope;"]).to_string(), 7 => "]]".to_string(), 8 => c.pick(&["\n", "\r\n", "\r", "]", "> "]).to_string(),
            _ => element(c, depth - 1),
        }
    }
    s
}
fn element(c: &mut Ctx, depth: usize) -> String {
    let n = name(c);
    let a = atts(c);
    let w = c.pick(&["", "", " ", "\n"]).to_string();
    if c.below(4) == 0 { return format!("<{}{}{}/>", n, a, w) }
    let t = content(c, depth);
    format!("<{}{}{}>{}</{}{}>", n, a, w, t, n, c.pick(&["", "", " ", "\r\n"]))
}
fn model(c: &mut Ctx, d: usize) -> String {
    let q = |c: &mut Ctx| c.pick(&["", "", "?", "*", "+"]).to_string();
    if d == 0 || c.below(3) == 0 { let n = name(c); return format!("{}{}", n, q(c)) }
    let sep = *c.pick(&[",", "|", " , ", "\n|"]);
    let n = 1 + c.below(4);
    let v: Vec<String> = (0..n).map(|_| model(c, d - 1)).collect();
    format!("({}){}", v.join(sep), q(c))
}
fn decl(c: &mut Ctx) -> String {
    match c.below(11) {
        0 => { let n = name(c); match c.below(4) { 0 => format!("<!ELEMENT {} EMPTY>", n), 1 => format!("<!ELEMENT {}\nANY >", n), 2 => { let m = name(c); format!("<!ELEMENT {} (#PCDATA{})*>", n, if c.below(2) == 0 { String::new() } else { format!("|m{}|{}", m, m) }) } _ => { let m = (0..1 + c.below(3)).map(|_| model(c, 2)).collect::<Vec<_>>().join(","); format!("<!ELEMENT {} ({})>", n, m) } } }
        1 | 2 | 3 => { let mut s = format!("<!ATTLIST {}", name(c)); for _ in 0..c.below(4) {
            let ty = *c.pick(&["CDATA", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x|y|zz)", "( x | y )", "NOTATION (n|m)"]);
            let n = match c.below(7) { 0 => "xmlns:p".to_string(), 1 => "xmlns".to_string(), _ => name(c) };
            let v = if n.starts_with("xmlns") { c.pick(&["u", "v", "w"]).to_string() } else { value(c).replace("&i;", "&k;").replace("&j;", "") };
            s += &format!(" {} {} {}", n, ty, match c.below(4) { 0 => "#REQUIRED".to_string(), 1 => "#IMPLIED".to_string(), 2 => format!("#FIXED '{}'", v), _ => format!("\"{}\"", v) });
        } s += *c.pick(&[">", " >", "\n>"]); s }
        4 => { let v = chars(c, true); format!("<!ENTITY {} '{}{}'>", c.pick(&["i", "j", "z"]), v, c.pick(&["", "&lt;", "&#38;#60;b/>", "<b>&k;</b>", "<![CDATA[x\n]]>", "<!--c--><?p q?>", "&#233;"])) }
        5 => format!("<!ENTITY {} SYSTEM 'e1'{}>", c.pick(&["x", "w"]), c.pick(&["", "", " NDATA n"])),
        6 => format!("<!NOTATION {} {}>", c.pick(&["n", "m"]), c.pick(&["SYSTEM 's'", "PUBLIC 'p  q'", "PUBLIC ' a ' 's'"])),
        7 => "<!--d\r\nd-->".to_string(), 8 => "<?d\te\rf?>".to_string(), 9 => "\r\n\t".to_string(),
        _ => format!("<!ENTITY % {} {}>{}", c.pick(&["pa", "pb"]), c.pick(&["'<!ENTITY k \"kk\">'", "SYSTEM 'e2'", "'<!ATTLIST a d CDATA \"dd\">'"]), c.pick(&["", "\n"])),
    }
}
fn made_up(c: &mut Ctx) -> String {
    let mut s = String::new();
    if c.below(4) == 0 { s += *c.pick(&["<?xml version='1.0'?>", "<?xml version=\"1.0\" standalone='yes'?>\n", "<?xml version='1.0' standalone='no' ?>\r\n"]) }
    if c.below(4) == 0 { s += *c.pick(&["\n", "<!--c-->", "<?p d?>\r\n", " "]) }
    let dtd = c.below(3) > 0;
    if dtd {
        s += *c.pick(&["<!DOCTYPE a", "<!DOCTYPE a SYSTEM 'e3'", "<!DOCTYPE p:b PUBLIC 'pu  b' 'e3'", "<!DOCTYPE a"]);
        s += "\n[<!ENTITY k 'kay'><!ENTITY i '1&k;2'><!ENTITY j '<c>&i;\n</c>'><!ENTITY x SYSTEM 'e1'><!ENTITY % pa '<!--pe-->'><!ENTITY % pb SYSTEM 'e2'>";
        for _ in 0..c.below(7) { s += &decl(c); if c.below(6) == 0 { s += *c.pick(&["%pa;", "%pb;"]) } }
        s += "]>\n";
    }
    let depth = c.below(4);
    s += &element(c, depth);
    if c.below(4) == 0 { s += *c.pick(&["\n", "<!--c-->", "<?p d?>\r\n", " \r"]) }
    if !dtd { return s.replace("&i;", "").replace("&j;", "").replace("&x;", "").replace("&k;", ""); }
    let m = std::str::from_utf8(PCT).unwrap();
    s += &format!("{}e1\n{}{}", m, c.pick(&["", "<?xml encoding='UTF-8'?>"]).to_string().replace("<?xml encoding='UTF-8'?>", ""), content(c, 1).replace("&x;", "").replace("&nope;", ""));
    s += &format!("{}e2\n", m);
    for _ in 0..c.below(4) { s += &decl(c) }
    s += &format!("{}e3\n", m);
    for _ in 0..c.below(6) { if c.below(4) == 0 { let d = decl(c); s += &format!("<![{}[{}]]>", c.pick(&["INCLUDE", "IGNORE", " INCLUDE "]), d) } else { s += &decl(c) } }
    s
}
// every division into two pieces, and pieces of one size, against the same text in one piece
// element declarations: as they are written (own 4), and against the C library
fn tree(c: &mut Ctx, depth: usize) -> String {
    let q = |c: &mut Ctx| *c.pick(&["", "", "?", "*", "+"]);
    let w = |c: &mut Ctx| c.pick(&["", "", "", " ", "\n ", "\t"]).to_string();
    let name = |c: &mut Ctx| { let n = match c.below(12) { 0 => 100, 1 => 1500, 2 => 0, _ => c.below(7) }; let z = c.below(23); let s: String = (0..n).map(|i| (97 + (i * 7 + z) % 23) as u8 as char).collect(); format!("{}{}", c.pick(&["a", "b", "x:y", "\u{e9}", "\u{4e01}", "_"]), s) };
    if depth == 0 || c.below(3) == 0 { let n = name(c); return n + q(c) }
    let n = if c.below(30) == 0 { 200 } else { 1 + c.below(5) };
    let sep = c.pick(&[",", "|"]).to_string();
    let mut s = "(".to_string();
    for i in 0..n { if i > 0 { s += &w(c); s += &sep } s += &w(c); s += &tree(c, if n > 5 { depth.min(2) - 1 } else { depth - 1 }); s += &w(c) }
    s + ")" + q(c)
}
fn declaration(c: &mut Ctx, i: usize) -> String {
    let m = match c.below(9) {
        0 => "EMPTY".to_string(), 1 => "ANY".to_string(), 2 => format!("({}#PCDATA )", c.pick(&["", " "])),
        3 => { let n = c.below(6); let mut s = "(#PCDATA".to_string(); for _ in 0..n { s += "|"; s += tree(c, 0).trim_end_matches(|x| x == '?' || x == '*' || x == '+') } s + ")*" }
        4 => { let n = 1 + c.below(60); format!("{}{}{}", "(".repeat(n), tree(c, 0), (0..n).map(|_| format!("){}", c.pick(&["", "?", "*", "+"]))).collect::<String>()) }
        _ => { let m = tree(c, 1 + i % 5); if m.starts_with('(') { m } else { format!("({})", m) } }
    };
    format!("<!ELEMENT{}e{} {}>", " ", i, m)
}
fn models(c: &mut Ctx) {
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    // nested as deeply, and as long, as memory allows
    for &n in if thorough { &[10, 1000, 100000, 1000000, 3000000][..] } else { &[10, 1000, 100000][..] } {
        for &(l, m, r) in &[("(", "a", ")"), ("(a,", "b", ")"), ("(", "a", "|b)*"), ("(a?,(b|c),", "d+", ")+")] {
            let d = format!("<!DOCTYPE e0 [<!ELEMENT e0 {}{}{}>]><e0/>", l.repeat(n), m, r.repeat(n));
            for &k in &[0, 1000] { { let p = [0, 0, k, 0, M_ED, 0, 0, 0, 0, 4]; c.case(&p, d.as_bytes()) }; }
        }
        let d = format!("<!DOCTYPE e0 [<!ELEMENT e0 (a{})>]><e0/>", "|bc*".repeat(n));
        { let p = [0, 0, 0, 0, M_ED, 0, 0, 0, 0, 4]; c.case(&p, d.as_bytes()) };
        if c.late() { return; }
    }
    let m = std::str::from_utf8(PCT).unwrap();
    for k in 0..if thorough { 200000 } else { 5000 } {
        let n = 1 + c.below(6);
        let ds: Vec<String> = (0..n).map(|i| { let d = declaration(c, i); if c.below(4) == 0 { d + "<!ATTLIST x y CDATA 'z'>" } else { d } }).collect();
        let d = format!("<!DOCTYPE e0 [{}]><e0/>", ds.join(*c.pick(&["", "\n", "<!--c-->", "<!ENTITY e 'x'>"])));
        let ch = match c.below(4) { 0 => 1 + c.below(40) as i64, 1 => -1 - c.below(d.len() + 1) as i64, _ => 0 };
        { let p = [0, c.below(8) as i64, ch, c.below(4) as i64, FULL, *c.pick(&[0, 2, 8]), *c.pick(&[0, 0, 1]), 1 + c.below(4) as i64, *c.pick(&[0, F_POS, F_EMPTY]), 4]; c.case(&p, d.as_bytes()) };
        // parts of a declaration from parameter entities, broken declarations, parsers given up: against the C library
        let mut body = ds.join("\n");
        let mut pe = String::new();
        if c.below(2) == 0 { for j in 0..1 + c.below(2) { if let Some(i) = (0..10).map(|_| c.below(body.len())).find(|&i| body.is_char_boundary(i) && b",|( )>".contains(&body.as_bytes()[i])) {
            let l = body[i + 1..].find(|x| ",|()>".contains(x)).map_or(body.len(), |z| i + 1 + z);
            pe.push_str(&format!("<!ENTITY % p{} '{}'>", j, &body[i + 1..l].replace('\'', "").replace('%', "")));
            body = format!("{} %p{}; {}", &body[..i + 1], j, &body[l..]);
        } } }
        if c.below(4) == 0 { let i = c.below(body.len()); if i + 1 <= body.len() && body.is_char_boundary(i) && body.is_char_boundary(i + 1) { let x = c.pick(&["(", ")", "|", ",", "*", " ", "x", "", ">", "#PCDATA", "<!ELEMENT z (y"]).to_string(); body.replace_range(i..i + 1, &x) } }
        let doc = match c.below(3) { 0 if pe.is_empty() => format!("<!DOCTYPE e0 [{}]><e0/>", body), 1 => format!("<!DOCTYPE e0 [<!ENTITY % q SYSTEM 's'>{}\n%q;<!ELEMENT last (x)>]><e0/>{}s\n{}", pe, m, body), _ => format!("<!DOCTYPE e0 SYSTEM 's'><e0/>{}s\n{}{}", m, pe, body) };
        if let Some((e, b)) = encode(&doc, if k % 3 == 0 { c.below(14) } else { 0 }) {
            let ch = match c.below(4) { 0 => 1 + c.below(40) as i64, 1 => -1 - c.below(b.len() + 1) as i64, _ => 0 };
            { let p = [e, c.below(8) as i64, ch, c.below(4) as i64, if c.below(4) == 0 { FULL | M_DE } else { FULL }, 2, *c.pick(&[0, 0, 1, 2, 4]), 1 + c.below(6) as i64, *c.pick(&[0, F_POS, F_LATE, F_DUP])]; c.case(&p, &b) };
        }
        // a declaration given up in the middle of another one
        if k % 10 == 0 { for x in &["<!ELEMENT z", "<!ELEMENT z ", "<!ELEMENT z (", "<!ELEMENT z (y", "<!ELEMENT z (y)", "<!ELEMENT z ((y),(w", "<!ELEMENT z (#PCDATA|", "<!ELEMENT z (y)>", "<!ELEMENT z ANY", "<!ELEMENT z ANY>"] {
            let i = (0..10).map(|_| c.below(ds[0].len())).find(|&i| ds[0].is_char_boundary(i) && b",|(".contains(&ds[0].as_bytes()[i])).unwrap_or(0);
            let d = format!("<!DOCTYPE e0 SYSTEM 's'><e0/>{}s\n<!ENTITY % q SYSTEM 'ignore'>{} %q; {}<!ELEMENT last (x|y)>{}ignore\n{}", m, &ds[0][..i + 1], &ds[0][i + 1..], m, x);
            { let p = [0, 0, 0, 0, FULL, 2, 0, 0, 0, 3]; c.case(&p, d.as_bytes()) };
        } }
        if c.late() { return; }
    }
}
fn pieces(c: &mut Ctx) {
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let all: Vec<String> = GROUPS.iter().flat_map(|g| docs(g)).collect();
    for (i, d) in all.iter().enumerate() {
        for f in if thorough { 0..14 } else { i % 5..i % 5 + 2 } { if let Some((e, b)) = encode(d, f) {
            let n = b.len() as i64;
            let (ns, pe, fl) = ((i & 1) as i64, [2, 0, 1][i % 3], [F_POS, 0, F_EMPTY | F_POS, F_LATE][i % 4]);
            for &k in &[1, 2, 3, 7] { c.case(&[e, ns, k, (i % 3) as i64, FULL, pe, 0, 0, fl, 2], &b); }
            let step = if thorough { 1 } else { 1 + n / 40 };
            let mut k = 1 + i as i64 % step;
            while k < n { c.case(&[e, ns, -k, (k + i as i64) % 3, FULL, pe, 0, 0, fl, 2], &b); k += step; }
        } }
        if c.late() { return; }
    }
    for k in 0..if thorough { 200000 } else { 6000 } {
        let d = made_up(c);
        let form = if c.below(2) == 0 { 0 } else { c.below(14) };
        if let Some((e, b)) = encode(&d, form) {
            let p = [e, c.below(8) as i64, if k % 3 == 0 { 1 + c.below(9) as i64 } else { -1 - c.below(b.len() + 1) as i64 }, c.below(4) as i64, FULL, *c.pick(&[0, 1, 2, 2, 4, 8]), 0, 0, *c.pick(&[0, F_POS, F_EMPTY, F_LATE]), 2];
            c.case(&p, &b);
        }
        if c.late() { return; }
    }
}
fn vary(c: &mut Ctx, group: &str, n: usize) {
    let own = docs(group);
    for k in 0..n {
        let given = own.len() > 0 && k % 4 == 0;
        let d = if given { c.pick(&own).clone() } else { made_up(c) };
        let form = if c.below(2) == 0 { 0 } else { c.below(14) };
        if let Some((e, b)) = encode(&d, form) {
            let mask = match c.below(6) { 0 | 1 | 2 => FULL, 3 => FULL | *c.pick(&[M_DF, M_DE]), 4 => *c.pick(&[M_DF, M_DE, M_DF | M_EL, M_EL, M_CD, M_DE | M_CD, M_DF | M_CS, M_EL | M_CD | M_SK, FULL & !M_CD, FULL & !M_CD | M_DF, FULL & !M_XE, FULL & !M_CS | M_DE]), _ => (c.rnd() & 524287) as i64 & !M_SA };
            let chunk = match if group == "buffers" { 2 + c.below(3) } else { c.below(5) } { 0 | 1 => 0, 2 => *c.pick(&[1, 2, 3, 7, 64, 1000]), _ => -1 - c.below(b.len() + 1) as i64 };
            let (act, at) = if group == "states" || c.below(5) == 0 { (*c.pick(if given { &[1, 2, 1] } else { &[1, 2, 3] }), 1 + c.below(12) as i64) } else { (0, 0) };
            let fl = if group == "positions" || c.below(2) == 0 { F_POS } else { *c.pick(&[0, F_EMPTY, F_POS | F_EMPTY, F_CTX, F_DUP, F_RESET, F_LATE]) };
            let p = [e, c.below(8) as i64, chunk, c.below(4) as i64, mask, *c.pick(&[0, 1, 2, 2, 3, 4, 6, 8, 10]), act, at, if act == 1 { fl & !(F_POS | F_CTX) } else { fl }];
            c.case(&p, &b);
        }
        if c.late() { return; }
    }
}
