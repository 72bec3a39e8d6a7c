--------------------------------- MODULE Config ---------------------------------
(* What the derive attribute, the file name and the configuration file decide. *)
(* A configuration is chosen field by field (all combinations of a group's     *)
(* pools), then resolved: to an error, or to the file that is read, the        *)
(* escaper, the extension, the MIME type, white space and delimiters.          *)
EXTENDS FileName, FiniteSets, Json, TLC

CONSTANTS Group, Part, Parts
VARIABLES ph, c, todo
vars == <<ph, c, todo>>

NoSeq == <<No>>

Default == [src |-> "path", name |-> "a.html", ext |-> No, escape |-> No, escapers |-> <<>>, probe |-> No,
            wsconf |-> No, wsattr |-> No, ml |-> "", mr |-> "",
            dirs |-> NoSeq, present |-> {"templates", "d2"}, defsyn |-> No, syn |-> No, syntaxes |-> <<>>, conf |-> "named",
            attrs |-> <<>>, delims |-> <<>>]

E1(xs) == [path |-> "hk::Esc1", exts |-> xs]
E2(xs) == [path |-> "hk::Esc2", exts |-> xs]
BH(xs) == [path |-> "askama::Html", exts |-> xs]
BT(xs) == [path |-> "::askama::Text", exts |-> xs]
Cust == [name |-> "cust", keys |-> [es |-> "<(", ee |-> ")>"]]
Two  == [name |-> "two", keys |-> [cs |-> "<#", ce |-> "#>"]]
All3 == [name |-> "all", keys |-> [es |-> "<(", ee |-> ")>", cs |-> "<#", ce |-> "#>", bs |-> "<%", be |-> "%>"]]
Redef == [name |-> "default", keys |-> [es |-> "<("]]
BadSyn == [name |-> "bad", keys |-> [es |-> "{"]]

Names == <<"a.html", "a.htm", "a.svg", "a.xml", "a.md", "a.none", "a.txt", "a.typ", "a.yml", "a", "a.j2", "a.jinja", "a.jinja2", "a.html.j2",
           "a.txt.jinja", "a.css.jinja2", "a.foo", "a.foo.j2", "a.HTML", ".html", "a.html.foo", "a.foo.html", "a.json", "a.css", "a.csv", "a.tsv", "a.html.txt", "a.j2.html", "a b.txt", "a.é">>
DelimPool == <<"{%", "{{", "%%", "%", "é", "é«", "{ %", "\t{", "||", "&&", "..", "<<", ">=", "{", "", "{%%", "{{{", "{#", "..=", "||x", "=", "%}", "日本語", "<!--", "!=", "==", "<=", ">>">>
Roles == <<"bs", "be", "es", "ee", "cs", "ce">>

\* the fields that a group varies, with their pools
PoolsOf(g) ==
  CASE g = "escaper" ->
         << [f |-> "name", p |-> Names],
            [f |-> "ext", p |-> <<No, "html", "txt", "foo">>],
            [f |-> "escape", p |-> <<No, "html", "none", "foo", "">>],
            [f |-> "escapers", p |-> <<<<>>, <<E1(<<"foo">>)>>, <<E2(<<"txt", "j2", "">>), E1(<<"foo", "txt">>)>>, <<E1(<<"html">>), E2(<<"html", "foo", "none">>)>>,
                                       <<BT(<<"html", "é">>), BH(<<"foo", "txt">>), E1(<<"foo">>)>> >>] >>
    [] g = "inline" ->
         << [f |-> "src", p |-> <<"inline">>],
            [f |-> "ext", p |-> <<No, "html", "txt", "foo", "j2", "css", "svg", "none", "md", "jinja", "HTML">>],
            [f |-> "escape", p |-> <<No, "html", "none", "foo", "", "xml">>],
            [f |-> "escapers", p |-> <<<<>>, <<E1(<<"foo", "html">>)>>, <<E2(<<"txt", "j2", "">>), E1(<<"foo", "txt">>)>> >>] >>
    [] g = "probe" ->
         << [f |-> "name", p |-> <<"a.html", "a.txt", "a.foo">>],
            [f |-> "escape", p |-> <<No, "none", "html">>],
            [f |-> "probe", p |-> <<No, "html", "none", "txt", "foo", "", "j2", "zzz", "Html", "svg">>],
            [f |-> "escapers", p |-> <<<<>>, <<E1(<<"foo">>)>>, <<E1(<<"html">>), E2(<<"foo", "txt", "zzz">>)>>, <<BT(<<"html">>), BH(<<"txt">>)>> >>] >>
    [] g = "space" ->
         << [f |-> "conf", p |-> <<"named", "none", "root", "named2">>],
            [f |-> "wsconf", p |-> <<No, "preserve", "suppress", "minimize", "trim", "Suppress">>],
            [f |-> "wsattr", p |-> <<No, "preserve", "suppress", "minimize", "trim", "Minimize", "">>],
            [f |-> "ml", p |-> <<"", "-", "+", "~">>],
            [f |-> "mr", p |-> <<"", "-", "+", "~">>] >>
    [] g = "dirs" ->
         << [f |-> "conf", p |-> <<"named", "root", "none">>],
            [f |-> "name", p |-> <<"a.html", "sub/a.html">>],
            [f |-> "dirs", p |-> <<NoSeq, <<>>, <<"d1">>, <<"d1", "d2">>, <<"d2", "d1">>, <<"d3", "d2">>, <<"d1/e", "d1">>, <<"d1", "templates", "d2">>, <<"d2/../d1">>, <<"">> >>],
            [f |-> "present", p |-> <<{}, {"templates"}, {"d1"}, {"d2"}, {"d1", "d2"}, {"d1/e", "d1"}, {"templates", "d1", "d2"}, {"templates", "d2"}, {"templates", "d1/e"}, {"", "templates"}>>] >>
    [] g = "syntax" ->
         << [f |-> "conf", p |-> <<"named", "none", "root">>],
            [f |-> "defsyn", p |-> <<No, "default", "cust", "two", "nope">>],
            [f |-> "syn", p |-> <<No, "default", "cust", "two", "all", "nope", "Cust">>],
            [f |-> "syntaxes", p |-> <<<<>>, <<Cust>>, <<Two>>, <<Cust, Two>>, <<Two, All3, Cust>>, <<Cust, Cust>>, <<Redef>>, <<Cust, BadSyn>> >>] >>
    [] g = "files" ->
         << [f |-> "conf", p |-> <<"named", "named2", "missing", "missing2", "bad", "none", "root", "badroot", "dir">>],
            [f |-> "escapers", p |-> <<<<>>, <<E1(<<"html">>)>> >>],
            [f |-> "wsconf", p |-> <<No, "minimize">>],
            [f |-> "escape", p |-> <<No, "html", "foo">>],
            [f |-> "name", p |-> <<"a.html", "a.foo">>] >>
    [] g = "delims" ->
         << [f |-> "delims", p |-> [k \in 1..(6 * Len(DelimPool)) |-> <<[r |-> Roles[1 + ((k - 1) % 6)], s |-> DelimPool[1 + ((k - 1) \div 6)]]>>]] >>
    [] g = "openings" ->
         LET q == <<"{%", "{{", "{#", "<<<", "<<<%", "%{", "{%%", "é«", "é«{">> IN
         << [f |-> "delims", p |-> [k \in 1..(81 * 9) |-> <<[r |-> "bs", s |-> q[1 + ((k - 1) % 9)]], [r |-> "es", s |-> q[1 + (((k - 1) \div 9) % 9)]], [r |-> "cs", s |-> q[1 + ((k - 1) \div 81)]]>>]] >>
    [] g = "attrs" ->
         LET a(n, v) == [n |-> n, v |-> v]
             q == <<a("path", "str"), a("source", "str"), a("ext", "str"), a("ext", "int"), a("escape", "str"), a("path", "int"), a("source", "bool"), a("print", "none"),
                    a("print", "str"), a("block", "int"), a("syntax", "int"), a("config", "bool"), a("whitespace", "int"), a("escape", "char"), a("nope", "str"), a("path", "bare"),
                    a("path", "list"), a("ext", "expr"), a("x::y", "str"), a("Path", "str")>> IN
         << [f |-> "attrs", p |-> [k \in 1..(Len(q) * Len(q)) |-> <<q[1 + ((k - 1) % Len(q))], q[1 + ((k - 1) \div Len(q))]>>]
                                  \o [k \in 1..Len(q) |-> <<q[k]>>] \o [k \in 1..Len(q) |-> <<q[2], q[3], q[k]>>] \o << <<[n |-> "", v |-> ""]>> >> ] >>

\* ---- the configuration in force -------------------------------------------------
\* the askama.toml of the second package
RootConf == [Default EXCEPT !.dirs = <<"d2">>, !.wsconf = "suppress", !.escapers = <<E2(<<"foo", "html">>)>>, !.syntaxes = <<Cust>>, !.defsyn = "cust"]
Conf(x) == IF x.conf \in {"named", "named2", "bad"} THEN x ELSE IF x.conf = "root" THEN RootConf ELSE Default

Builtin == <<[path |-> "Html", exts |-> <<"html", "htm", "svg", "xml">>], [path |-> "Text", exts |-> <<"md", "none", "txt", "typ", "yml", "">>],
             [path |-> "Html", exts |-> <<"j2", "jinja", "jinja2">>]>>
RECURSIVE Find(_, _)
Find(es, e) == IF es = <<>> THEN No ELSE IF \E k \in 1..Len(es[1].exts) : es[1].exts[k] = e THEN es[1].path ELSE Find(Tail(es), e)
EscaperFor(x, e) == Find(Conf(x).escapers \o Builtin, e)
EscKey(x) == IF x.escape # No THEN x.escape
             ELSE LET e == IF x.src = "inline" THEN LastExt("T." \o x.ext) ELSE LastExt(x.name) IN IF e = No THEN "" ELSE e
Escaper(x) == EscaperFor(x, EscKey(x))

ExtOf(x) == IF x.ext # No THEN x.ext ELSE Ext(x.name)
Mime(x) == MimeOf(ExtOf(x))

WsNames == {"preserve", "suppress", "minimize"}
WsOf(x) == IF x.wsattr # No THEN x.wsattr ELSE IF Conf(x).wsconf # No THEN Conf(x).wsconf ELSE "preserve"

DirsOf(x) == IF Conf(x).dirs = NoSeq THEN <<"templates">> ELSE Conf(x).dirs
SameDir(d) == IF d = "d2/../d1" THEN "d1" ELSE d
RECURSIVE Search(_, _)
Search(ds, have) == IF ds = <<>> THEN No ELSE IF SameDir(ds[1]) \in have THEN SameDir(ds[1]) ELSE Search(Tail(ds), have)
FoundIn(x) == IF x.src = "inline" THEN "inline" ELSE Search(DirsOf(x), x.present)

DefSyn == [bs |-> "{%", be |-> "%}", es |-> "{{", ee |-> "}}", cs |-> "{#", ce |-> "#}"]
SynNamed(x, n) == LET ss == Conf(x).syntaxes IN
  IF n = "default" THEN [ok |-> TRUE, s |-> DefSyn]
  ELSE IF \E k \in 1..Len(ss) : ss[k].name = n THEN LET k == CHOOSE k \in 1..Len(ss) : ss[k].name = n IN [ok |-> TRUE, s |-> ss[k].keys @@ DefSyn]
  ELSE [ok |-> FALSE, s |-> DefSyn]
DefName(x) == IF Conf(x).defsyn = No THEN "default" ELSE Conf(x).defsyn
SynName(x) == IF x.syn = No THEN DefName(x) ELSE x.syn

Operators == {"||", "&&", "==", "!=", ">=", "<=", "<<", ">>", "..", "..="}
GoodDelim(s) == Len(s) >= 2 /\ s \notin Operators /\ ~\E k \in 1..Len(s) : Ch(s, k) \in {" ", "\t", "\n", "\r"}
Clash(a, b) == IsPrefixOf(a, b) \/ IsPrefixOf(b, a)
GoodSyntax(s) == /\ \A r \in DOMAIN s : GoodDelim(s[r])
                 /\ ~Clash(s.bs, s.es) /\ ~Clash(s.bs, s.cs) /\ ~Clash(s.es, s.cs)
RECURSIVE DelimRec(_, _)
DelimRec(ds, s) == IF ds = <<>> THEN s ELSE DelimRec(Tail(ds), [s EXCEPT ![ds[1].r] = ds[1].s])

\* ---- validity of the attributes' values -------------------------------------------
Count(as, n) == Cardinality({k \in 1..Len(as) : as[k].n = n})
StrKeys == {"path", "source", "ext", "escape", "block", "syntax", "config", "whitespace"}
GoodAttr(a) == \/ a.n \in StrKeys /\ a.v = "str"
               \/ a.n = "print" /\ a.v \in {"none"}
GoodAttrs(as) == /\ \A k \in 1..Len(as) : GoodAttr(as[k])
                 /\ Count(as, "path") + Count(as, "source") = 1
                 /\ (Count(as, "source") = 1 => Count(as, "ext") >= 1)

\* ---- the result ---------------------------------------------------------------------
Faults(x) ==
  LET cf == Conf(x) IN
     (IF x.conf \in {"missing", "missing2", "bad", "badroot", "dir"} THEN {"configuration file"} ELSE {})
  \union (IF cf.wsconf \notin WsNames \union {No} \/ x.wsattr \notin WsNames \union {No} THEN {"white space"} ELSE {})
  \union (IF \E k \in 1..Len(cf.syntaxes) : cf.syntaxes[k].name = "default" \/ \E j \in 1..(k - 1) : cf.syntaxes[j].name = cf.syntaxes[k].name THEN {"syntax twice"} ELSE {})
  \union (IF \E k \in 1..Len(cf.syntaxes) : ~GoodSyntax(cf.syntaxes[k].keys @@ DefSyn) THEN {"delimiters"} ELSE {})
  \union (IF ~GoodSyntax(DelimRec(x.delims, DefSyn)) THEN {"delimiters"} ELSE {})
  \union (IF ~SynNamed(x, DefName(x)).ok \/ ~SynNamed(x, SynName(x)).ok THEN {"unknown syntax"} ELSE {})
  \union (IF FoundIn(x) = No THEN {"no file"} ELSE {})
  \union (IF x.src = "inline" /\ x.ext = No THEN {"no ext"} ELSE {})
  \union (IF (x.src # "inline" \/ x.ext # No) /\ Escaper(x) = No THEN {"no escaper"} ELSE {})
  \union (IF x.probe # No /\ EscaperFor(x, x.probe) = No THEN {"no escaper in filter"} ELSE {})
  \union (IF x.attrs # <<>> /\ ~GoodAttrs(x.attrs) THEN {"attributes"} ELSE {})

\* ---- the template, and what it renders to ---------------------------------------------
S0 == "<\"&'>"
Escd(p) == CASE p \in {"Html", "askama::Html"} -> "&lt;&quot;&amp;&#x27;&gt;" [] p \in {"Text", "::askama::Text"} -> S0
             [] p = "hk::Esc1" -> "1(" \o S0 \o ")" [] p = "hk::Esc2" -> "2(" \o S0 \o ")"
Ch0(m, w) == CASE m = "-" -> "suppress" [] m = "+" -> "preserve" [] m = "~" -> "minimize" [] m = "" -> w
Body(x) == "|{{ s }}|<( s )>|[ \n{#" \o x.ml \o " c " \o x.mr \o "#}  ]<# d #>" \o (IF x.probe = No THEN "" ELSE "{{ s|escape(\"" \o x.probe \o "\") }}")
Source(x) == IF x.delims # <<>> \/ x.attrs # <<>> THEN "plain" ELSE Body(x)
Output(x) ==
  IF x.delims # <<>> \/ x.attrs # <<>> THEN "plain"
  ELSE LET s == SynNamed(x, SynName(x)).s  e == Escd(Escaper(x))
           l == Ch0(x.ml, WsOf(x))  r == Ch0(x.mr, WsOf(x)) IN
       "|" \o (IF s.es = "{{" THEN e ELSE "{{ s }}") \o "|" \o (IF s.es = "{{" THEN "<( s )>" ELSE e) \o "|["
       \o (IF s.cs = "{#" THEN (CASE l = "suppress" -> "" [] l = "minimize" -> "\n" [] OTHER -> " \n") \o (CASE r = "suppress" -> "" [] r = "minimize" -> " " [] OTHER -> "  ")
           ELSE " \n{#" \o x.ml \o " c " \o x.mr \o "#}  ")
       \o "]" \o (IF s.cs = "{#" THEN "<# d #>" ELSE "")
       \o (IF x.probe = No THEN "" ELSE IF s.es = "{{" THEN Escd(EscaperFor(x, x.probe)) ELSE "{{ s|escape(\"" \o x.probe \o "\") }}")

Case == LET fs == Faults(c) IN
  [group |-> Group, c |-> c, faults |-> fs, source |-> Source(c)]
  @@ (IF fs # {} THEN <<>> ELSE [out |-> Output(c), found |-> FoundIn(c), ext |-> ExtOf(c), mime |-> Mime(c)])

\* ---- the machine ------------------------------------------------------------------------
Init == ph = "choose" /\ c = Default /\ todo = PoolsOf(Group)
Choose == /\ ph = "choose" /\ todo # <<>>
          /\ \E k \in 1..Len(todo[1].p) :
               /\ (todo = PoolsOf(Group) => k % Parts = Part)
               /\ c' = [c EXCEPT ![todo[1].f] = todo[1].p[k]]
          /\ todo' = Tail(todo) /\ UNCHANGED ph
Resolve == /\ ph = "choose" /\ todo = <<>>
           /\ PrintT("CASE " \o ToJson(Case)) /\ ph' = "done" /\ UNCHANGED <<c, todo>>
Next == Choose \/ Resolve
Spec == Init /\ [][Next]_vars

\* ---- what the resolution guarantees ---------------------------------------------------------
Ready == ph = "choose" /\ todo = <<>>
\* the attribute decides alone
EscapeAttrWins == Ready /\ c.escape # No => \A k \in 1..Len(Names) : Escaper([c EXCEPT !.name = Names[k]]) = Escaper(c)
\* configured escapers go before the built-in ones, in their order
ConfiguredFirst == Ready => \A k \in 1..Len(Conf(c).escapers) :
   ((\E j \in 1..Len(Conf(c).escapers[k].exts) : Conf(c).escapers[k].exts[j] = EscKey(c))
    /\ ~\E i \in 1..(k - 1) : \E j \in 1..Len(Conf(c).escapers[i].exts) : Conf(c).escapers[i].exts[j] = EscKey(c)) => Escaper(c) = Conf(c).escapers[k].path
\* an escaper for other extensions changes nothing
OthersDontMatter == Ready /\ c.conf = "named" => Escaper([c EXCEPT !.escapers = <<[path |-> "x", exts |-> <<"zzzz">>]>> \o @]) = Escaper(c)
\* the file comes from the first directory that has it
FirstDirWins == Ready /\ c.src = "path" /\ FoundIn(c) # No =>
   \E k \in 1..Len(DirsOf(c)) : SameDir(DirsOf(c)[k]) = FoundIn(c) /\ \A j \in 1..(k - 1) : SameDir(DirsOf(c)[j]) \notin c.present
\* the ext attribute decides the MIME type alone
ExtAttrWins == Ready /\ c.ext # No => \A k \in 1..Len(Names) : Mime([c EXCEPT !.name = Names[k]]) = Mime(c)
\* without a configuration file the defaults apply
DefaultsApply == Ready /\ c.conf = "none" /\ c.wsattr = No => WsOf(c) = "preserve" /\ DirsOf(c) = <<"templates">> /\ DefName(c) = "default"
=============================================================================
