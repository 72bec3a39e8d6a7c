------------------------------ MODULE Template ------------------------------
(* Templates.  A template file is a sequence of tokens: texts and tags.     *)
(* This module says how a file is spelled (Source), what its texts become   *)
(* under whitespace control (TextAt), how tags belong together, and how     *)
(* files refer to each other.                                               *)
EXTENDS Gen

-----------------------------------------------------------------------------
(* Patterns *)
PName(n) == [k |-> "name", n |-> n]
PWild == [k |-> "wild"]
PInt(i) == [k |-> "int", i |-> i]
PStr(s) == [k |-> "str", s |-> s]
PBool(b) == [k |-> "bool", b |-> b]
PTup(ps) == [k |-> "tup", ps |-> ps]
PSome(p) == [k |-> "some", p |-> p]
PNone == [k |-> "none"]
POk(p) == [k |-> "ok", p |-> p]
PErr == [k |-> "err"]
PEnum(var, ps) == [k |-> "enum", var |-> var, ps |-> ps]
POr(ps) == [k |-> "or", ps |-> ps]
PElse == [k |-> "else"]
PRec(p, q) == [k |-> "rec", p |-> p, q |-> q, o |-> FALSE]
PRecK(p, q) == [k |-> "rec", p |-> p, q |-> q, o |-> FALSE, kw |-> TRUE]     \* by the field whose name is a keyword of Rust
PRecO(p, q) == [k |-> "rec", p |-> p, q |-> q, o |-> TRUE]     \* of the type with an owned string

RECURSIVE ShowP(_), ShowPs(_, _, _)
ShowPs(ps, sep, i) == IF i > Len(ps) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ShowP(ps[i]) \o ShowPs(ps, sep, i + 1)
ShowP(p) ==
  CASE p.k = "name" -> p.n
    [] p.k = "wild" -> "_"
    [] p.k = "int" -> ToString(p.i)
    [] p.k = "str" -> StrLit(p.s)
    [] p.k = "bool" -> IF p.b THEN "true" ELSE "false"
    [] p.k = "tup" -> "(" \o ShowPs(p.ps, ", ", 1) \o ")"
    [] p.k = "some" -> "Some with (" \o ShowP(p.p) \o ")"
    [] p.k = "none" -> "None"
    [] p.k = "ok" -> "Ok(" \o ShowP(p.p) \o ")"
    [] p.k = "err" -> "Err with (_)"
    [] p.k = "enum" -> "E::" \o p.var \o (IF p.ps = <<>> THEN ""
         ELSE IF p.var = "B" THEN "(" \o ShowP(p.ps[1]) \o ")"
         ELSE " { n: " \o ShowP(p.ps[1]) \o ", s: " \o ShowP(p.ps[2]) \o " }")
    [] p.k = "or" -> ShowPs(p.ps, " or ", 1)
    [] p.k = "rec" -> (IF p.o THEN "DD { v: _, o: _, " ELSE IF "kw" \in DOMAIN p THEN "D { n: _, " ELSE "D { type: _, ")
        \o (IF "kw" \in DOMAIN p THEN (IF p.p = PName("type") THEN "type" ELSE "type: " \o ShowP(p.p)) ELSE IF p.p = PName("n") THEN "n" ELSE "n: " \o ShowP(p.p))
                      \o ", " \o (IF p.q = PName("s") THEN "s" ELSE "s: " \o ShowP(p.q)) \o " }"

\* [ok, b]: whether v matches, and what is bound, as pairs
NoMatch == [ok |-> FALSE, b |-> <<>>]
RECURSIVE Match(_, _), MatchAll(_, _, _), MatchAny(_, _, _)
MatchAll(ps, vs, i) ==
  IF i > Len(ps) THEN [ok |-> TRUE, b |-> <<>>]
  ELSE LET m == Match(ps[i], vs[i]) IN
       IF ~m.ok THEN NoMatch
       ELSE LET q == MatchAll(ps, vs, i + 1) IN IF q.ok THEN [ok |-> TRUE, b |-> m.b \o q.b] ELSE NoMatch
MatchAny(ps, v, i) == IF i > Len(ps) THEN NoMatch
                      ELSE LET m == Match(ps[i], v) IN IF m.ok THEN m ELSE MatchAny(ps, v, i + 1)
Match(p, v) ==
  CASE p.k = "name" -> [ok |-> TRUE, b |-> <<<<p.n, v>>>>]
    [] p.k = "wild" -> [ok |-> TRUE, b |-> <<>>]
    [] p.k = "int" -> [ok |-> v.x = p.i, b |-> <<>>]
    [] p.k = "str" -> [ok |-> v.x = p.s, b |-> <<>>]
    [] p.k = "bool" -> [ok |-> v.x = p.b, b |-> <<>>]
    [] p.k = "tup" -> MatchAll(p.ps, v.x, 1)
    [] p.k = "some" -> IF v.x = <<>> THEN NoMatch ELSE Match(p.p, v.x[1])
    [] p.k = "none" -> [ok |-> v.x = <<>>, b |-> <<>>]
    [] p.k = "ok" -> IF v.ok THEN Match(p.p, v.x) ELSE NoMatch
    [] p.k = "err" -> [ok |-> ~v.ok, b |-> <<>>]
    [] p.k = "enum" -> IF v.var # p.var THEN NoMatch ELSE MatchAll(p.ps, v.x, 1)
    [] p.k = "or" -> MatchAny(p.ps, v, 1)
    [] p.k = "rec" -> MatchAll(<<p.p, p.q>>, <<v.x.n, v.x.s>>, 1)

-----------------------------------------------------------------------------
(* Tokens.  Every tag has marks l and r: "", "+", "-" or "~". *)
TText(s) == [k |-> "t", s |-> s]
Marked(t, l, r) == [t EXCEPT !.l = l, !.r = r]
TExpr(e) == [k |-> "e", l |-> "", r |-> "", e |-> e]
TComment(s) == [k |-> "c", l |-> "", r |-> "", s |-> s]
TTag(k) == [k |-> k, l |-> "", r |-> ""]      \* raw, endraw, else, endif, forelse, endfor, melse, endmatch, endfilter, brk, cont
TIf(k, p, e, alt) == [k |-> k, l |-> "", r |-> "", p |-> p, e |-> e, alt |-> alt]     \* k: "if" or "elif"; p: <<>> or <<pattern>>
TFor(p, e, c) == [k |-> "for", l |-> "", r |-> "", p |-> p, e |-> e, c |-> c]  \* c: <<>> or <<condition>>
TMatch(e) == [k |-> "match", l |-> "", r |-> "", e |-> e]
TWhen(p) == [k |-> "when", l |-> "", r |-> "", p |-> p]
TLet(p, e, alt) == [k |-> "let", l |-> "", r |-> "", p |-> p, e |-> e, alt |-> alt]
TDecl(n) == [k |-> "decl", l |-> "", r |-> "", n |-> n]
TBlock(n) == [k |-> "block", l |-> "", r |-> "", n |-> n]
TEndBlock(n) == [k |-> "endblock", l |-> "", r |-> "", n |-> n]
TMacro(n, ps) == [k |-> "macro", l |-> "", r |-> "", n |-> n, ps |-> ps]
TEndMacro(n) == [k |-> "endmacro", l |-> "", r |-> "", n |-> n]
TCall(sc, n, as) == [k |-> "call", l |-> "", r |-> "", scope |-> sc, n |-> n, as |-> as]  \* as: [n, e], n = "" if positional
TSuper == [k |-> "super", l |-> "", r |-> ""]
TInc(p) == [k |-> "inc", l |-> "", r |-> "", p |-> p]
TImp(p, sc) == [k |-> "imp", l |-> "", r |-> "", p |-> p, scope |-> sc]
TExt(p) == [k |-> "ext", l |-> "", r |-> "", p |-> p]
TFilter(fs) == [k |-> "filter", l |-> "", r |-> "", fs |-> fs]   \* fs: filters [f, as], applied in order

-----------------------------------------------------------------------------
(* Spelling *)
DefaultSyn == [bs |-> "{%", be |-> "%}", es |-> "{{", ee |-> "}}", cs |-> "{#", ce |-> "#}"]

RECURSIVE ShowArgs(_, _), ShowChain(_, _)
ShowArgs(as, i) == IF i > Len(as) THEN ""
  ELSE (IF i > 1 THEN ", " ELSE "") \o (IF as[i].n = "" THEN "" ELSE as[i].n \o " = ") \o Show(as[i].e, 0) \o ShowArgs(as, i + 1)
ShowChain(fs, i) == IF i > Len(fs) THEN ""
  ELSE (IF i > 1 THEN "|" ELSE "") \o fs[i].f \o (IF fs[i].f = "fmt" THEN "(\"<{}>\")" ELSE IF fs[i].as = <<>> THEN "" ELSE "(" \o ShowAll(fs[i].as, 1) \o ")") \o ShowChain(fs, i + 1)

TagBody(t) ==
  CASE t.k \in {"raw", "endraw", "endif", "endfor", "endmatch", "endfilter"} -> t.k
    [] t.k \in {"else", "forelse", "melse"} -> "else"
    [] t.k = "brk" -> "break"
    [] t.k = "cont" -> "continue"
    [] t.k \in {"if", "elif"} ->
         (IF t.k = "if" THEN "if" ELSE IF t.alt THEN "elif" ELSE "else if")
         \o (IF t.p = <<>> THEN "" ELSE " let " \o ShowP(t.p[1]) \o " =") \o " " \o Show(t.e, 0)
    [] t.k = "for" -> "for " \o ShowP(t.p) \o " in " \o Show(t.e, 0)
         \o (IF t.c = <<>> THEN "" ELSE " if " \o Show(t.c[1], 0))
    [] t.k = "match" -> "match " \o Show(t.e, 0)
    [] t.k = "when" -> "when " \o ShowP(t.p)
    [] t.k = "let" -> (IF t.alt THEN "set " ELSE "let ") \o ShowP(t.p) \o " = " \o Show(t.e, 0)
    [] t.k = "decl" -> "let " \o t.n
    [] t.k = "block" -> "block " \o t.n
    [] t.k = "endblock" -> "endblock" \o (IF t.n = "" THEN "" ELSE " " \o t.n)
    [] t.k = "macro" -> "macro " \o t.n \o "(" \o Join(t.ps, ", ") \o ")"
    [] t.k = "endmacro" -> "endmacro" \o (IF t.n = "" THEN "" ELSE " " \o t.n)
    [] t.k = "call" -> "call " \o (IF t.scope = "" THEN "" ELSE t.scope \o "::") \o t.n \o "(" \o ShowArgs(t.as, 1) \o ")"
    [] t.k = "super" -> "call super()"
    [] t.k = "inc" -> "include " \o StrLit(t.p)
    [] t.k = "imp" -> "import " \o StrLit(t.p) \o " as " \o t.scope
    [] t.k = "ext" -> "extends " \o StrLit(t.p)
    [] t.k = "filter" -> "filter " \o ShowChain(t.fs, 1)
    [] t.k = "bad" -> t.s

RECURSIVE ShowTok(_, _)
ShowTok(t, syn) ==
  CASE t.k = "cut" -> ShowTok(t.t, [syn EXCEPT !.be = "", !.ee = "", !.ce = ""])   \* a tag that is not closed
    [] t.k = "t" -> t.s
    [] t.k = "e" -> syn.es \o t.l \o " " \o Show(t.e, 0) \o " " \o t.r \o syn.ee
    [] t.k = "c" -> syn.cs \o t.l \o t.s \o t.r \o syn.ce
    [] t.k = "junk" -> t.s
    [] OTHER -> syn.bs \o t.l \o " " \o TagBody(t) \o " " \o t.r \o syn.be

RECURSIVE SourceFrom(_, _, _)
SourceFrom(ts, i, syn) == IF i > Len(ts) THEN "" ELSE ShowTok(ts[i], syn) \o SourceFrom(ts, i + 1, syn)
Source(ts, syn) == SourceFrom(ts, 1, syn)

-----------------------------------------------------------------------------
(* Whitespace control.  mark is a tag's mark on the side of the text, or     *)
(* "start" / "end" where the file begins or ends; dflt the default.          *)
Eff(mark, dflt) == CASE mark = "+" -> "preserve" [] mark = "-" -> "suppress" [] mark = "~" -> "minimize"
                     [] mark \in {"start", "end"} -> "preserve" [] OTHER -> dflt
Handle(how, w) == CASE how = "preserve" -> w [] how = "suppress" -> "" [] how = "minimize" -> Minimal(w)

TrimText(s, l, r, dflt) ==
  IF AllWs(s)
  THEN IF Eff(l, dflt) = "suppress" THEN ""
       ELSE IF r = "end" THEN Handle(Eff(l, dflt), s)
       ELSE IF Eff(r, dflt) = "preserve" /\ l = "~" THEN Minimal(s)
       ELSE Handle(Eff(r, dflt), s)
  ELSE Handle(Eff(l, dflt), LeadWs(s)) \o Core(s) \o Handle(Eff(r, dflt), TrailWs(s))

\* A file loses one line break at its very end.
FileText(ts, i) == LET s == ts[i].s IN
  IF i = Len(ts) /\ IsSuffixOf("\n", s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s

\* texts between {% match %} and its first arm are not part of the template
RECURSIVE InMatchHead(_, _)
InMatchHead(ts, i) == i >= 1 /\ (ts[i].k = "match" \/ (ts[i].k \in {"t", "c"} /\ InMatchHead(ts, i - 1)))

TextAt(ts, i, dflt) ==
  IF InMatchHead(ts, i) THEN ""
  ELSE TrimText(FileText(ts, i),
                IF i = 1 THEN "start" ELSE ts[i - 1].r,
                IF i = Len(ts) THEN "end" ELSE ts[i + 1].l, dflt)

-----------------------------------------------------------------------------
(* Which tags belong together *)
Openers == {"if", "for", "match", "block", "macro", "filter", "raw"}
Closers == {"endif", "endfor", "endmatch", "endblock", "endmacro", "endfilter", "endraw"}
RECURSIVE NextOf(_, _, _, _)
\* first token at or after i, at nesting depth 0, whose kind is in ks
NextOf(ts, i, d, ks) ==
  IF d = 0 /\ ts[i].k \in ks THEN i
  ELSE NextOf(ts, i + 1, IF ts[i].k \in Openers THEN d + 1 ELSE IF ts[i].k \in Closers THEN d - 1 ELSE d, ks)

\* index of the last token of that kind and name, 0 if none
RECURSIVE LastDef(_, _, _, _)
LastDef(ts, k, n, i) == IF i = 0 THEN 0 ELSE IF ts[i].k = k /\ ts[i].n = n THEN i ELSE LastDef(ts, k, n, i - 1)
RECURSIVE FirstKind(_, _, _)
FirstKind(ts, k, i) == IF i > Len(ts) THEN 0 ELSE IF ts[i].k = k THEN i ELSE FirstKind(ts, k, i + 1)

-----------------------------------------------------------------------------
(* A program: [files: path -> tokens, main, esc, ws, frag, dirs, syn] *)
RECURSIVE DirFrom(_, _)
DirFrom(p, i) == IF i = 0 THEN "" ELSE IF Ch(p, i) = "/" THEN SubSeq(p, 1, i) ELSE DirFrom(p, i - 1)
DirOf(p) == DirFrom(p, Len(p))

\* the file that path p denotes in file `from` (from = "" : in the derive attribute); "" if none
RECURSIVE InDirs(_, _, _, _)
InDirs(fs, ds, p, i) == IF i > Len(ds) THEN "" ELSE IF (ds[i] \o p) \in fs THEN ds[i] \o p ELSE InDirs(fs, ds, p, i + 1)
Resolve(pg, from, p) ==
  LET fs == DOMAIN pg.files IN
  IF from # "" /\ (DirOf(from) \o p) \in fs THEN DirOf(from) \o p ELSE InDirs(fs, pg.dirs, p, 1)

Parent(pg, f) == LET i == FirstKind(pg.files[f], "ext", 1) IN
                 IF i = 0 THEN "" ELSE Resolve(pg, f, pg.files[f][i].p)
RECURSIVE ChainOf(_, _)
ChainOf(pg, f) == IF Parent(pg, f) = "" THEN <<f>> ELSE <<f>> \o ChainOf(pg, Parent(pg, f))

\* the definitions of a block, most derived first, as [f, i]
RECURSIVE DefsIn(_, _, _, _)
DefsIn(pg, ch, n, j) == IF j > Len(ch) THEN <<>>
  ELSE LET i == LastDef(pg.files[ch[j]], "block", n, Len(pg.files[ch[j]])) IN
       (IF i = 0 THEN <<>> ELSE <<[f |-> ch[j], i |-> i]>>) \o DefsIn(pg, ch, n, j + 1)
BlockDefs(pg, main, n) == DefsIn(pg, ChainOf(pg, main), n, 1)

\* macro n (in scope sc, "" if none) as seen from the context cx, a sequence of files
RECURSIVE FindMacro(_, _, _, _), FindImport(_, _, _, _)
FindMacro(pg, cx, n, j) == IF j > Len(cx) THEN [f |-> "", i |-> 0]
  ELSE LET i == LastDef(pg.files[cx[j]], "macro", n, Len(pg.files[cx[j]])) IN
       IF i # 0 THEN [f |-> cx[j], i |-> i] ELSE FindMacro(pg, cx, n, j + 1)
RECURSIVE ImportIn(_, _, _)
ImportIn(ts, sc, i) == IF i = 0 THEN 0 ELSE IF ts[i].k = "imp" /\ ts[i].scope = sc THEN i ELSE ImportIn(ts, sc, i - 1)
FindImport(pg, cx, sc, j) == IF j > Len(cx) THEN ""
  ELSE LET i == ImportIn(pg.files[cx[j]], sc, Len(pg.files[cx[j]])) IN
       IF i # 0 THEN Resolve(pg, cx[j], pg.files[cx[j]][i].p) ELSE FindImport(pg, cx, sc, j + 1)
=============================================================================
