--------------------------------- MODULE Valid ---------------------------------
(* Which programs are templates: the rules of the language, decided on the    *)
(* tokens of a program.  Verdict(pg) is                                       *)
(*   ""      the program is valid                                             *)
(*   "any"   left open by the documentation; it must only not crash           *)
(*   else    the rule that is broken                                          *)
(* Rules of three kinds: the grammar and the placement of definitions, which  *)
(* hold for every file that is used; and rules of use (names, arguments,      *)
(* super(), ...), which hold for everything that is reached when the template *)
(* is put together: the body of a macro where it is called, the definition of *)
(* a block where the block is placed.                                         *)
EXTENDS Profiles

ElseKs == {"else", "forelse", "melse"}
EndOf == [if |-> "endif", for |-> "endfor", match |-> "endmatch", block |-> "endblock", macro |-> "endmacro", filter |-> "endfilter"]
Blank(s) == AllWs(s)

-----------------------------------------------------------------------------
(* Expressions and targets.  "xs" is an expression that cannot be read, "xg"  *)
(* one that is read but misuses a filter or the loop variable.                *)
RECURSIVE HasK(_, _), HasAny(_, _, _)
HasAny(es, k, i) == i <= Len(es) /\ (HasK(es[i], k) \/ HasAny(es, k, i + 1))
HasK(e, k) ==
  e.k = k
  \/ (e.k \in {"par", "un", "pr", "try", "att"} /\ HasK(e.a, k))
  \/ (e.k \in {"bin", "idx", "rng"} /\ (HasK(e.a, k) \/ HasK(e.c, k)))
  \/ (e.k \in {"flt", "mth"} /\ (HasK(e.a, k) \/ HasAny(e.as, k, 1)))
  \/ (e.k \in {"cyc", "tup", "arr", "fm"} /\ HasAny(e.as, k, 1))
RECURSIVE FArgs(_, _)
FArgs(fs, i) == IF i > Len(fs) THEN <<>> ELSE fs[i].as \o FArgs(fs, i + 1)
ExprsOf(t) ==
  CASE t.k \in {"e", "if", "elif", "match", "let"} -> <<t.e>>
    [] t.k = "for" -> <<t.e>> \o t.c
    [] t.k = "call" -> [j \in 1..Len(t.as) |-> t.as[j].e]
    [] t.k = "filter" -> FArgs(t.fs, 1)
    [] OTHER -> <<>>
TargetsOf(t) == CASE t.k \in {"if", "elif"} -> t.p [] t.k \in {"for", "when", "let"} -> <<t.p>> [] t.k = "decl" -> <<PName(t.n)>> [] OTHER -> <<>>
Reserved(t) == \E j \in 1..Len(TargetsOf(t)) : LET ns == PNamesOf(TargetsOf(t)[j]) IN \E q \in 1..Len(ns) : ns[q] \in {"self", "writer"}
\* the arguments of a call: named ones last, none of them twice
BadArgs(as) == \/ \E j, l \in 1..Len(as) : j < l /\ as[j].n # "" /\ (as[l].n = "" \/ as[l].n = as[j].n)
Unreadable(t) ==
  \/ t.k \in {"bad", "cut", "endraw"}
  \/ HasAny(ExprsOf(t), "xs", 1)
  \/ Reserved(t)
  \/ (t.k = "call" /\ BadArgs(t.as))
  \/ (t.k = "macro" /\ t.n = "super")
  \/ (t.k = "ext" /\ "l" \in DOMAIN t /\ (t.l # "" \/ t.r # ""))

-----------------------------------------------------------------------------
(* The grammar: scanning a file with the stack of the constructs open in it.  *)
(* A frame is [k, i, ph, n]; the phase ph tells which part of a construct is  *)
(* being read.  enc: for each token the constructs around it; twice: tokens   *)
(* that follow the else branch of an if as another branch of it.              *)
ScanEr(er) == [er |-> er, enc |-> <<>>, twice |-> {}]
InLoop(st) == \E j \in 1..Len(st) : st[j].k = "for" /\ st[j].ph = "body"
RECURSIVE Scan(_, _, _, _, _)
Scan(ts, i, st, enc, tw) ==
  IF i > Len(ts) THEN IF st = <<>> THEN [er |-> "", enc |-> enc, twice |-> tw] ELSE ScanEr("unclosed " \o Last(st).k)
  ELSE
  LET t == ts[i]  top == IF st = <<>> THEN [k |-> "", i |-> 0, ph |-> "", n |-> ""] ELSE Last(st)
      go(s2) == Scan(ts, i + 1, s2, Append(enc, st), tw)
      push(ph, n) == go(Append(st, [k |-> t.k, i |-> i, ph |-> ph, n |-> n]))
      pop == go(Front(st))
      phase(ph) == go(Append(Front(st), [top EXCEPT !.ph = ph]))
      head == top.k = "match" /\ top.ph = "head" IN
  IF top.k = "raw" THEN IF t.k = "endraw" THEN pop ELSE go(st)
  ELSE IF t.k \in {"t", "junk"} THEN IF head /\ ~Blank(t.s) THEN ScanEr("text before the first when") ELSE go(st)
  ELSE IF t.k = "c" THEN go(st)
  ELSE IF Unreadable(t) THEN ScanEr("unreadable " \o t.k)
  ELSE IF t.k = "when" THEN IF top.k = "match" /\ top.ph # "else" THEN phase("arms") ELSE ScanEr("stray when")
  ELSE IF head THEN ScanEr("tag before the first when")
  ELSE IF t.k \in {"e", "let", "decl", "call", "super", "inc", "imp", "ext"} THEN go(st)
  ELSE IF t.k \in {"brk", "cont"} THEN IF InLoop(st) THEN go(st) ELSE ScanEr("break outside of a loop")
  ELSE IF t.k = "if" THEN push("body", "")
  ELSE IF t.k = "for" THEN push("body", "")
  ELSE IF t.k = "match" THEN push("head", "")
  ELSE IF t.k \in {"block", "macro"} THEN push("", t.n)
  ELSE IF t.k \in {"filter", "raw"} THEN push("", "")
  ELSE IF t.k = "elif" THEN IF top.k # "if" THEN ScanEr("stray elif")
                            ELSE IF top.ph = "else" THEN Scan(ts, i + 1, st, Append(enc, st), tw \union {i}) ELSE go(st)
  ELSE IF t.k \in ElseKs THEN
       IF top.k = "if" THEN IF top.ph = "else" THEN Scan(ts, i + 1, st, Append(enc, st), tw \union {i}) ELSE phase("else")
       ELSE IF top.k = "for" /\ top.ph = "body" THEN phase("else")
       ELSE IF top.k = "match" /\ top.ph = "arms" THEN phase("else")
       ELSE ScanEr("stray else")
  ELSE IF t.k \in Closers THEN
       IF top.k \notin DOMAIN EndOf \/ EndOf[top.k] # t.k THEN ScanEr("stray " \o t.k)
       ELSE IF t.k \in {"endblock", "endmacro"} /\ t.n # "" /\ t.n # top.n THEN ScanEr("wrong name in " \o t.k)
       ELSE pop
  ELSE ScanEr("unknown token " \o t.k)
ScanFile(ts) == Scan(ts, 1, <<>>, <<>>, {})

-----------------------------------------------------------------------------
(* A scanned program: pg with sc: path -> scan, for the files that are used.  *)
Enc(pg, f, i) == pg.sc[f].enc[i]
IsTop(pg, f, i) == Enc(pg, f, i) = <<>>
Within(pg, f, i, k) == \E j \in 1..Len(Enc(pg, f, i)) : Enc(pg, f, i)[j].k = k
\* the tag that closes the construct opened at i
CloseOf(pg, f, i) == CHOOSE j \in 1..Len(pg.files[f]) : /\ pg.files[f][j].k \in Closers /\ Enc(pg, f, j) # <<>> /\ Last(Enc(pg, f, j)).i = i
Macros(pg, f, i) == Cardinality({j \in 1..Len(Enc(pg, f, i)) : Enc(pg, f, i)[j].k = "macro"})
Live(pg, f, i) == ~Within(pg, f, i, "raw")
Ix(ts) == 1..Len(ts)
\* where a file is referred to: extends and import at the top, include anywhere but in a macro inside of a macro
Refs(pg, f) == {i \in Ix(pg.files[f]) : Live(pg, f, i) /\ \/ pg.files[f][i].k \in {"ext", "imp"} /\ IsTop(pg, f, i)
                                                          \/ pg.files[f][i].k = "inc" /\ Macros(pg, f, i) < 2}
Deps(pg, f) == {Resolve(pg, f, pg.files[f][i].p) : i \in Refs(pg, f)}
RECURSIVE Used(_, _, _)
\* [er, sc]: the files used, scanned
Used(pg, todo, sc) ==
  IF todo = {} THEN [er |-> "", sc |-> sc]
  ELSE LET f == CHOOSE f \in todo : TRUE  s == ScanFile(pg.files[f])  sc2 == (f :> s) @@ sc IN
       IF s.er # "" THEN [er |-> s.er, sc |-> sc2]
       ELSE LET ds == Deps([sc |-> sc2] @@ pg, f) IN
            IF "" \in ds THEN [er |-> "missing file", sc |-> sc2]
            ELSE Used(pg, ((todo \ {f}) \union ds) \ DOMAIN sc2, sc2)

\* definitions may stand at the top of a file only; those inside macros are judged where the macro is called
Placement(pg, f) ==
  LET ts == pg.files[f]  ks(i) == Live(pg, f, i) /\ ts[i].k \in {"ext", "imp", "macro"} IN
  IF \E i \in Ix(ts) : ks(i) /\ ~IsTop(pg, f, i) /\ ~Within(pg, f, i, "macro") THEN "definition below the top level"
  ELSE IF Cardinality({i \in Ix(ts) : ts[i].k = "ext" /\ IsTop(pg, f, i)}) > 1 THEN "two extends"
  ELSE ""
TopExt(pg, f) == {i \in Ix(pg.files[f]) : pg.files[f][i].k = "ext" /\ IsTop(pg, f, i)}
ParentOf(pg, f) == IF TopExt(pg, f) = {} THEN "" ELSE Resolve(pg, f, pg.files[f][CHOOSE i \in TopExt(pg, f) : TRUE].p)
RECURSIVE Cyclic(_, _, _)
Cyclic(pg, f, n) == LET p == ParentOf(pg, f) IN p # "" /\ (n = 0 \/ Cyclic(pg, p, n - 1))
RECURSIVE Anc(_, _)
Anc(pg, f) == IF ParentOf(pg, f) = "" THEN <<f>> ELSE <<f>> \o Anc(pg, ParentOf(pg, f))

-----------------------------------------------------------------------------
(* Putting a template together *)
\* blocks count wherever they are not inside a macro
BlocksOf(pg, f) == {i \in Ix(pg.files[f]) : Live(pg, f, i) /\ pg.files[f][i].k = "block" /\ ~Within(pg, f, i, "macro")}
NamesOf(pg, f) == {pg.files[f][i].n : i \in BlocksOf(pg, f)}
DefOf(pg, f, n) == {i \in BlocksOf(pg, f) : pg.files[f][i].n = n}
RECURSIVE Lineage(_, _, _, _)
\* the definitions of block n along the chain ch, most derived first: sets of candidates
Lineage(pg, ch, n, j) == IF j > Len(ch) THEN <<>>
  ELSE (IF DefOf(pg, ch[j], n) = {} THEN <<>> ELSE <<[f |-> ch[j], is |-> DefOf(pg, ch[j], n)]>>) \o Lineage(pg, ch, n, j + 1)
TopMacros(pg, f, n) == {i \in Ix(pg.files[f]) : pg.files[f][i].k = "macro" /\ pg.files[f][i].n = n /\ IsTop(pg, f, i)}
TopImports(pg, f, s) == {i \in Ix(pg.files[f]) : pg.files[f][i].k = "imp" /\ pg.files[f][i].scope = s /\ IsTop(pg, f, i)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE MacroIn(_, _, _, _), ScopeIn(_, _, _, _)
MacroIn(pg, cx, n, j) == IF j > Len(cx) THEN [f |-> "", i |-> 0]
  ELSE IF TopMacros(pg, cx[j], n) # {} THEN [f |-> cx[j], i |-> MaxOf(TopMacros(pg, cx[j], n))] ELSE MacroIn(pg, cx, n, j + 1)
ScopeIn(pg, cx, s, j) == IF j > Len(cx) THEN ""
  ELSE IF TopImports(pg, cx[j], s) # {} THEN Resolve(pg, cx[j], pg.files[cx[j]][MaxOf(TopImports(pg, cx[j], s))].p) ELSE ScopeIn(pg, cx, s, j + 1)

\* the parameters of a macro against the arguments of a call
RECURSIVE Given(_, _, _, _)
Given(ps, as, j, pos) ==
  IF j > Len(ps) THEN TRUE
  ELSE IF \E q \in 1..Len(as) : as[q].n = ps[j] THEN Given(ps, as, j + 1, FALSE)
  ELSE pos /\ Given(ps, as, j + 1, pos)
ArgsFault(ps, as) ==
  IF Len(ps) # Len(as) THEN "number of arguments"
  ELSE IF \E q \in 1..Len(as) : as[q].n # "" /\ \A j \in 1..Len(ps) : ps[j] # as[q].n THEN "unknown argument"
  ELSE IF ~Given(ps, as, 1, TRUE) THEN "argument left out" ELSE ""

\* x: [f, cx, her, sup, mac, d]: file, macro context, heritage [ch, icx], block being expanded [n, lvl], inside a macro, depth
Worse(a, b) == IF a \notin {"", "any"} THEN a ELSE IF b \notin {"", "any"} THEN b ELSE IF a = "any" THEN a ELSE b
CxOf(h, f) == IF f = h.ch[1] THEN <<f>> \o h.icx ELSE <<f>>
NoSup == [n |-> "", lvl |-> 0]
Hers(pg, h) == UNION {NamesOf(pg, h.ch[j]) : j \in 1..Len(h.ch)}
Deepest == 30
RECURSIVE Walk(_, _, _, _), Place(_, _, _, _), UseFile(_, _, _)
\* the tokens i..j of file x.f
Walk(pg, x, i, j) ==
  IF i > j THEN ""
  ELSE
  LET ts == pg.files[x.f]  t == ts[i]
      then(v) == IF v \notin {"", "any"} THEN v ELSE Worse(v, Walk(pg, x, i + 1, j))
      skip(v, q) == IF v \notin {"", "any"} THEN v ELSE Worse(v, Walk(pg, x, q + 1, j)) IN
  IF ~Live(pg, x.f, i) THEN Walk(pg, x, i + 1, j)
  ELSE IF t.k = "macro" THEN IF x.mac THEN "definition below the top level" ELSE skip("", CloseOf(pg, x.f, i))
  ELSE IF t.k \in {"imp", "ext"} THEN then(IF x.mac THEN "definition below the top level" ELSE "")
  ELSE IF HasAny(ExprsOf(t), "xg", 1) THEN IF pg.frag # "" /\ t.k \in {"e", "filter"} THEN then("any") ELSE "misused filter or loop variable"
  ELSE IF t.k = "let" /\ t.p.k \notin {"name", "wild", "tup", "rec", "enum", "some", "ok"} THEN "literal in let"
  ELSE IF i \in pg.sc[x.f].twice THEN "branch after else"
  ELSE IF t.k \in {"brk", "cont"} /\ Within(pg, x.f, i, "filter") THEN then("any")
  ELSE IF t.k = "block" THEN
       LET e == CloseOf(pg, x.f, i) IN
       IF x.sup.n = t.n THEN "recursive block"
       ELSE IF x.mac THEN IF t.n \in Hers(pg, x.her) THEN skip("any", e) ELSE "block in a macro"
       ELSE skip(Place(pg, x, t.n, 1), e)
  ELSE IF t.k = "super" THEN
       IF x.sup.n = "" THEN "super() outside of a block"
       ELSE IF Len(Lineage(pg, x.her.ch, x.sup.n, 1)) <= x.sup.lvl THEN "no super block"
       ELSE IF x.mac THEN then("any") ELSE then(Place(pg, x, x.sup.n, x.sup.lvl + 1))
  ELSE IF t.k = "call" THEN
       LET l == IF t.scope = "" THEN "" ELSE ScopeIn(pg, x.cx, t.scope, 1)
           m == IF t.scope = "" THEN MacroIn(pg, x.cx, t.n, 1) ELSE IF l = "" THEN [f |-> "", i |-> 0] ELSE MacroIn(pg, <<l>>, t.n, 1) IN
       IF t.scope # "" /\ l = "" THEN "unknown import"
       ELSE IF m.i = 0 THEN "unknown macro"
       ELSE LET a == ArgsFault(pg.files[m.f][m.i].ps, t.as) IN
            IF a # "" THEN a
            ELSE IF x.d >= Deepest THEN "recursion"
            ELSE then(Walk(pg, [x EXCEPT !.f = m.f, !.cx = IF t.scope = "" THEN @ ELSE <<l>>, !.mac = TRUE, !.d = @ + 1],
                           m.i + 1, CloseOf(pg, m.f, m.i) - 1))
  ELSE IF t.k = "inc" THEN
       LET p == Resolve(pg, x.f, t.p) IN
       IF p = "" THEN "missing file"
       ELSE IF p \notin DOMAIN pg.sc THEN then("any")
       ELSE IF x.d >= Deepest THEN "recursion"
       ELSE then(UseFile(pg, [x EXCEPT !.d = @ + 1], p))
  ELSE then("")
\* level lvl of block n of the heritage
Place(pg, x, n, lvl) ==
  LET d == Lineage(pg, x.her.ch, n, 1)[lvl]  i == CHOOSE i \in d.is : TRUE IN
  IF x.d >= Deepest THEN "recursion"
  \* which of two definitions in one file counts is not documented
  ELSE IF Cardinality(d.is) > 1 THEN "any"
  ELSE Walk(pg, [x EXCEPT !.f = d.f, !.cx = CxOf(x.her, d.f) \o @, !.sup = [n |-> n, lvl |-> lvl], !.mac = FALSE, !.d = @ + 1],
            i + 1, CloseOf(pg, d.f, i) - 1)
\* a file that is included: it has its own heritage, and sees the macros of where it is included
UseFile(pg, x, p) ==
  LET h == [ch |-> Anc(pg, p), icx |-> x.cx]  r == Last(h.ch) IN
  Walk(pg, [x EXCEPT !.f = r, !.cx = CxOf(h, r), !.her = h, !.sup = NoSup, !.mac = FALSE], 1, Len(pg.files[r]))

Verdict(pg0, frag) ==
  IF pg0.main \notin DOMAIN pg0.files THEN "missing file"
  ELSE
  LET u == Used(pg0, {pg0.main}, EmptyF) IN
  IF u.er # "" THEN u.er
  ELSE
  LET pg == [sc |-> u.sc, frag |-> frag] @@ pg0  fs == DOMAIN u.sc IN
  IF \E f \in fs : Placement(pg, f) # "" THEN Placement(pg, CHOOSE f \in fs : Placement(pg, f) # "")
  ELSE IF \E f \in fs : Cyclic(pg, f, Cardinality(fs)) THEN "cyclic extends"
  ELSE
  LET ch == Anc(pg, pg.main)  h == [ch |-> ch, icx |-> <<>>] IN
  IF frag # "" /\ frag \notin Hers(pg, h) THEN "unknown block"
  ELSE UseFile(pg, [f |-> "", cx |-> <<>>, her |-> h, sup |-> NoSup, mac |-> FALSE, d |-> 0], pg.main)
=============================================================================
