-------------------------------- MODULE MCValid --------------------------------
(* C18: programs that keep or break the rules.  Mode "mut": a program is      *)
(* written as in MC, then changed, tag by tag.  Mode "pos": every piece of    *)
(* the pool at every place.                                                   *)
EXTENDS MC, Valid
CONSTANTS Mode, Part, Parts
VARIABLE mu
mvars == <<vars, mu>>

XS(s) == [k |-> "xs", s |-> s]
XG(s) == [k |-> "xg", s |-> s]
BadReads == <<"a b", "(a", "a +", "a ? b", "a|", "f(", "'ab'", "''", "a.", ".a", "[1", "a[", "!", "a ||", "a)", "not a", "a and b", "'\\q'", "'\\x80'", "'\\u{110000}'",
              "f(x = 1)", "a |b| c|", "x!", "a::", "::", "s0|(1)", "[1 2]", "(1 2)", "{a}", "@", "a;">>
BadUses == <<"1 == 2 == 3", "1 < 2 > 3", "loop.foo", "loop.cycle()", "loop.cycle([])", "loop.cycle(l0, 1)", "loop.foo(1)", "s0|escape(\"nope\")", "s0|escape(s1)", "s0|e(\"html\", 1)", "s0|safe(1)",
             "n0|fmt", "n0|fmt(1)", "n0|fmt(\"a\", 1)", "n0|format(\"{}\")", "s0|json(1)", "s0|tojson(1)", "s0|as_ref(1)", "s0|deref(2)", "(s0|escape(\"nope\"))|upper", "-(loop.foo)">>
BadTags == <<"foo", "endfoo", "", "if", "for n1 l0", "for n1 in", "for in l0", "else foo", "when", "let", "let n1 =", "block", "block ba bb", "macro", "macro ma(", "macro ma(1)", "call", "call m1(",
             "include", "include inc1", "import \"lib1.html\"", "import \"lib1.html\" as", "import lib1 as la", "extends", "extends base", "match", "break 1", "continue x", "endif x", "endfor n1",
             "endmatch x", "endfilter upper", "filter", "filter |upper", "raw x", "if let Some(n1)", "elif", "elseif b0", "If b0", "ENDIF", "end", "set 1 2", "call a::b::c()", "call m1() x", "let n1 n2 = 1", "for n1 in l0 if",
             "if b0 else", "when 1 or", "include 'inc1'", "block 1", "macro 1()", "endraw">>
TBad(s) == [k |-> "bad", l |-> "", r |-> "", s |-> s]
Cut(t) == [k |-> "cut", l |-> "", r |-> "", t |-> t]
YES == EB(TRUE)

-----------------------------------------------------------------------------
(* Changes.  Every one gives a program [files, frag], and says what it was.   *)
Paths(g) == SetToSeq2(DOMAIN g.files)
Without(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
With(ts, i, q) == SubSeq(ts, 1, i - 1) \o q \o SubSeq(ts, i, Len(ts))      \* before the i-th
Swap(ts, i) == SubSeq(ts, 1, i - 1) \o <<ts[i + 1], ts[i]>> \o SubSeq(ts, i + 2, Len(ts))
IdxOf(ts, T(_)) == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : T(ts[i]))
Strays == <<TTag("else"), TTag("endif"), TTag("endfor"), TTag("endmatch"), TTag("endfilter"), TTag("endraw"), TEndBlock(""), TEndMacro(""), TEndBlock("ba"), TEndMacro("m1"),
            TTag("brk"), TTag("cont"), TSuper, TWhen(PWild), TWhen(PInt(1)), TIf("if", <<>>, YES, FALSE), TIf("elif", <<>>, YES, TRUE), TFor(PName("n1"), EV("l0"), <<>>), TMatch(EV("k1")),
            TBlock("ba"), TMacro("m1", <<>>), TFilter(<<[f |-> "upper", as |-> <<>>]>>), TTag("raw"), TLet(PInt(1), EI(1), FALSE), TLet(PName("self"), EI(1), FALSE),
            TCall("", "mz", <<>>), TCall("zz", "m1", <<>>), TInc("nope.html")>>
Pairs == << <<TMacro("mq", <<>>), TEndMacro("mq")>>, <<TBlock("bq"), TEndBlock("")>>, <<TBlock("ba"), TEndBlock("ba")>>, <<TIf("if", <<>>, YES, FALSE), TTag("endif")>>,
            <<TFor(PName("n1"), EV("l0"), <<>>), TTag("endfor")>>, <<TFilter(<<[f |-> "upper", as |-> <<>>]>>), TTag("endfilter")>>, <<TTag("raw"), TTag("endraw")>>,
            <<TBlock("ba"), TEndBlock("bb")>>, <<TMacro("mq", <<>>), TEndMacro("m1")>>, <<TMacro("super", <<>>), TEndMacro("")>> >>
Rel(g, sd) == LET q == Paths(g) IN q[1 + Roll(sd, 21, Len(q))]
Refer(g, sd) == PickQ(<<TExt(Rel(g, sd)), TImp(Rel(g, sd), "la"), TImp(Rel(g, sd), "lq"), TInc(Rel(g, sd))>>, sd, 22)
XE(sd) == LET x == IF Roll(sd, 31, 2) = 0 THEN XS(PickQ(BadReads, sd, 32)) ELSE XG(PickQ(BadUses, sd, 32)) IN
          CASE Roll(sd, 33, 5) = 0 -> EPar(x) [] Roll(sd, 33, 5) = 1 -> EBin("&&", EV("b0"), EPar(x)) [] Roll(sd, 33, 5) = 2 -> EFlt("pre", EV("s0"), <<x>>) [] OTHER -> x
WithExpr(t, x, sd) ==
  CASE t.k \in {"e", "if", "elif", "match", "let"} -> [t EXCEPT !.e = x]
    [] t.k = "for" -> IF t.c # <<>> /\ Roll(sd, 34, 2) = 0 THEN [t EXCEPT !.c = <<x>>] ELSE [t EXCEPT !.e = x]
    [] t.k = "call" -> [t EXCEPT !.as[1 + Roll(sd, 34, Len(t.as))].e = x]
    [] t.k = "filter" -> [t EXCEPT !.fs = @ \o <<[f |-> "pre", as |-> <<x>>]>>]
WithTarget(t, sd) ==
  LET p == PickQ(<<PName("self"), PName("writer"), PTup(<<PName("n1"), PName("writer")>>)>>, sd, 35) IN
  CASE t.k \in {"let"} -> [t EXCEPT !.p = PickQ(<<p, PInt(1), PStr("a"), PBool(TRUE), PNone>>, sd, 36)]
    [] t.k = "decl" -> [t EXCEPT !.n = PickQ(<<"self", "writer">>, sd, 36)]
    [] t.k \in {"for", "when"} -> [t EXCEPT !.p = p]
    [] OTHER -> [t EXCEPT !.p = <<p>>]
WithArgs(t, sd) ==
  LET n == Len(t.as)  named(a) == [n |-> a, e |-> EI(1)]  ps == {t.as[j].n : j \in 1..n} IN
  PickQ(<<[t EXCEPT !.n = "mz"], [t EXCEPT !.scope = IF @ = "" THEN "lib" ELSE ""], [t EXCEPT !.scope = "zz"], [t EXCEPT !.as = Append(@, named(""))], [t EXCEPT !.as = @ \o <<named("n1")>>]>>
        \o If(n > 0, <<[t EXCEPT !.as = Front(@)], [t EXCEPT !.as = Tail(@)], [t EXCEPT !.as = Append(@, @[1])], [t EXCEPT !.as[1].n = "n1"], [t EXCEPT !.as[n].n = "zz"],
                       [t EXCEPT !.as[n].n = "s1"], [t EXCEPT !.as[n].n = ""], [t EXCEPT !.as[1].n = ""]>>)
        \o If(n > 1, <<[t EXCEPT !.as = Tail(@) \o <<@[1]>>], [t EXCEPT !.as[2].n = t.as[1].n], [t EXCEPT !.as[1].n = "n2", !.as[2].n = "n2"]>>), sd, 37)
WithName(t, sd) ==
  LET n == PickQ(<<"ba", "bb", "m1", "m2", "zz", "super">>, sd, 38) IN
  CASE t.k \in {"block", "endblock", "endmacro"} -> [t EXCEPT !.n = IF @ = n \/ (n = "super" /\ t.k = "block") THEN "zz" ELSE n]
    [] t.k = "macro" -> [t EXCEPT !.n = n]
    [] t.k = "imp" -> [t EXCEPT !.scope = "zz"]
Ops == <<"del", "del", "dup", "swap", "move", "ins", "ins", "ins", "pair", "pair", "wrap", "wrap", "refer", "cut", "bad", "expr", "expr", "target", "args", "args", "name", "path", "mark", "drop", "frag">>
\* ts and i where it is to change
Change(g, op, f, i, sd) ==
  LET ts == g.files[f]  n == Len(ts)
      put(q) == [g EXCEPT !.files[f] = q]
      some(T(_)) == IdxOf(ts, T)
      at(T(_), C(_)) == LET q == some(T) IN IF q = <<>> THEN g ELSE LET a == PickQ(q, sd, 11) IN put([ts EXCEPT ![a] = C(ts[a])])
      j == IF n = 0 THEN 1 ELSE 1 + Roll(sd, 12, n) IN
  CASE op = "del" -> IF n = 0 THEN g ELSE put(Without(ts, i))
    [] op = "dup" -> IF n = 0 THEN g ELSE put(With(ts, i, <<ts[i]>>))
    [] op = "swap" -> IF n < 2 THEN g ELSE put(Swap(ts, 1 + Roll(sd, 13, n - 1)))
    [] op = "move" -> IF n = 0 THEN g ELSE put(With(Without(ts, i), j, <<ts[i]>>))
    [] op = "ins" -> put(With(ts, i, <<PickQ(Strays, sd, 14)>>))
    [] op = "pair" -> put(With(ts, i, PickQ(Pairs, sd, 14)))
    [] op = "wrap" -> LET a == IF i < j THEN i ELSE j  b == IF i < j THEN j ELSE i  p == PickQ(Pairs, sd, 14) IN
                      IF n = 0 THEN g ELSE put(With(With(ts, b, <<p[2]>>), a, <<p[1]>>))
    [] op = "refer" -> put(With(ts, i, <<Refer(g, sd)>>))
    [] op = "cut" -> at(LAMBDA t : t.k \notin {"t", "junk", "cut", "bad"}, Cut)
    [] op = "bad" -> put(With(ts, i, <<TBad(PickQ(BadTags, sd, 14))>>))
    [] op = "expr" -> at(LAMBDA t : (t.k = "filter" \/ ExprsOf(t) # <<>>), LAMBDA t : WithExpr(t, XE(sd), sd))
    [] op = "target" -> at(LAMBDA t : t.k \in {"let", "decl", "for", "when", "if", "elif"} /\ (t.k \notin {"if", "elif"} \/ t.p # <<>>), LAMBDA t : WithTarget(t, sd))
    [] op = "args" -> at(LAMBDA t : t.k = "call", LAMBDA t : WithArgs(t, sd))
    [] op = "name" -> at(LAMBDA t : t.k \in {"block", "endblock", "macro", "endmacro", "imp"}, LAMBDA t : WithName(t, sd))
    [] op = "path" -> at(LAMBDA t : t.k \in {"inc", "imp", "ext"}, LAMBDA t : [t EXCEPT !.p = IF Roll(sd, 15, 2) = 0 THEN "nope.html" ELSE Rel(g, sd)])
    [] op = "mark" -> at(LAMBDA t : t.k = "ext", LAMBDA t : IF Roll(sd, 15, 2) = 0 THEN [t EXCEPT !.l = "-"] ELSE [t EXCEPT !.r = "~"])
    [] op = "drop" -> IF Cardinality(DOMAIN g.files) < 2 \/ f = g.main THEN g ELSE [g EXCEPT !.files = [p \in DOMAIN g.files \ {f} |-> g.files[p]]]
    [] op = "frag" -> [g EXCEPT !.frag = PickQ(<<"ba", "bb", "zz", "m1">>, sd, 16)]
\* texts in raw blocks must not look like tags, as they may come out of it
Tame(ts) == [i \in 1..Len(ts) |-> IF ts[i].k = "t" /\ i > 1 /\ ts[i - 1].k = "raw" THEN TText("r") ELSE ts[i]]

Written == /\ Mode = "mut" /\ ph = "author" /\ au.roles = <<>>
           /\ pg' = [files |-> [f \in DOMAIN au.files |-> Tame(au.files[f])], dirs |-> au.dirs, frag |-> ""] @@ pg
           /\ \E sd \in PickSet(Seeds) : mu' = <<"">> \o [k \in 1..(1 + (Roll(sd, 1, 3) % 2)) |-> PickQ(Ops, sd, 1 + k)]
           /\ au' = None /\ ph' = "mut" /\ UNCHANGED <<rs, todo, done>>
Mutate == /\ ph = "mut" /\ Len(mu) > 1
          /\ \E sd \in PickSet(Seeds) :
               LET q == Paths(pg)  f == IF Roll(sd, 2, 3) = 0 THEN pg.main ELSE q[1 + Roll(sd, 3, Len(q))]  n == Len(pg.files[f]) IN
               pg' = Change(pg, mu[2], f, IF n = 0 THEN 1 ELSE 1 + Roll(sd, 4, n), sd)
          /\ mu' = <<mu[1] \o " " \o mu[2]>> \o SubSeq(mu, 3, Len(mu)) /\ UNCHANGED <<ph, au, rs, todo, done>>
Mutated == ph = "mut" /\ Len(mu) = 1 /\ ph' = "judge" /\ UNCHANGED <<au, pg, rs, todo, done, mu>>

-----------------------------------------------------------------------------
(* Every piece of the pool, inside of every construct, at every place.        *)
Wrapped(c, q) ==
  CASE c = "none" -> q
    [] c = "if" -> <<TIf("if", <<>>, YES, FALSE)>> \o q \o <<TTag("endif")>>
    [] c = "elif" -> <<TIf("if", <<>>, YES, FALSE), TIf("elif", <<>>, YES, FALSE)>> \o q \o <<TTag("endif")>>
    [] c = "else" -> <<TIf("if", <<>>, YES, FALSE), TTag("else")>> \o q \o <<TTag("endif")>>
    [] c = "for" -> <<TFor(PName("n1"), EV("l0"), <<>>)>> \o q \o <<TTag("endfor")>>
    [] c = "forelse" -> <<TFor(PName("n1"), EV("l0"), <<>>), TTag("forelse")>> \o q \o <<TTag("endfor")>>
    [] c = "when" -> <<TMatch(EV("k1")), TText(" "), TWhen(PInt(1))>> \o q \o <<TWhen(PWild), TTag("endmatch")>>
    [] c = "melse" -> <<TMatch(EV("k1")), TWhen(PInt(1)), TTag("melse")>> \o q \o <<TTag("endmatch")>>
    [] c = "head" -> <<TMatch(EV("k1"))>> \o q \o <<TWhen(PWild), TTag("endmatch")>>
    [] c = "filter" -> <<TFilter(<<[f |-> "upper", as |-> <<>>]>>)>> \o q \o <<TTag("endfilter")>>
    [] c = "blk" -> <<TBlock("bb")>> \o q \o <<TEndBlock("")>>
    [] c = "raw" -> <<TTag("raw")>> \o q \o <<TTag("endraw")>>
Mids == <<"none", "if", "elif", "else", "for", "forelse", "when", "melse", "head", "filter", "blk", "raw">>
T0 == TText("t")
Piece(q) == [q |-> q]
Pieces ==
  << <<T0>>, <<TExpr(EV("n0"))>>, <<TTag("brk")>>, <<TTag("cont")>>, <<TFor(PName("n2"), EV("l0"), <<>>), TTag("brk"), TTag("endfor")>>,
     <<TFor(PName("n2"), EV("l0"), <<>>), TTag("forelse"), TTag("cont"), TTag("endfor")>>, <<TSuper>>, <<TTag("else")>>, <<TTag("endif")>>, <<TTag("endfor")>>, <<TTag("endmatch")>>,
     <<TTag("endfilter")>>, <<TTag("endraw")>>, <<TEndBlock("")>>, <<TEndMacro("")>>, <<TWhen(PInt(3))>>, <<TIf("elif", <<>>, YES, FALSE)>>,
     <<TExt("base0.html")>>, <<TExt("main.html")>>, <<TImp("lib0.html", "l0")>>, <<TImp("main.html", "l0")>>, <<TMacro("my", <<>>), TEndMacro("my")>>, <<TMacro("my", <<>>), TSuper, TEndMacro("my"), TCall("", "my", <<>>)>>,
     <<TMacro("my", <<>>), TTag("brk"), TEndMacro("my")>>, <<TBlock("ba"), TEndBlock("")>>, <<TBlock("bb"), TEndBlock("bb")>>, <<TBlock("bc"), TSuper, TEndBlock("bc")>>, <<TBlock("bc"), TEndBlock("ba")>>,
     <<TBlock("bc"), TBlock("bd"), TBlock("bc"), TEndBlock(""), TEndBlock(""), TEndBlock("")>>, <<TMacro("mx", <<>>), TEndMacro("my")>>, <<TMacro("super", <<>>), TEndMacro("")>>,
     <<TInc("inc0.html")>>, <<TInc("nope.html")>>, <<TInc("main.html")>>, <<TInc("inc.html")>>, <<TInc("base0.html")>>, <<TImp("nope.html", "l0")>>,
     <<TCall("", "mz", <<>>)>>, <<TCall("", "mx", <<>>)>>, <<TCall("", "mx", <<[n |-> "", e |-> EI(1)]>>)>>, <<TCall("l0", "m0", <<>>)>>, <<TCall("lx", "mx", <<>>)>>, <<TCall("lx", "mz", <<>>)>>,
     <<TCall("", "mx", <<[n |-> "a", e |-> EI(1)], [n |-> "", e |-> EI(1)]>>)>>, <<TCall("", "m2", <<[n |-> "b", e |-> EI(1)], [n |-> "a", e |-> EI(1)]>>)>>, <<TCall("", "m2", <<[n |-> "", e |-> EI(1)], [n |-> "a", e |-> EI(1)]>>)>>,
     <<TCall("", "m2", <<[n |-> "a", e |-> EI(1)], [n |-> "a", e |-> EI(1)]>>)>>, <<TCall("", "m2", <<[n |-> "", e |-> EI(1)], [n |-> "b", e |-> EI(1)]>>)>>, <<TCall("", "m2", <<[n |-> "", e |-> EI(1)], [n |-> "c", e |-> EI(1)]>>)>>,
     <<TCall("", "m2", <<[n |-> "", e |-> EI(1)]>>)>>,
     <<TBad("foo")>>, <<TBad("endfoo")>>, <<TBad("if")>>, <<Cut(TExpr(EV("n0")))>>, <<Cut(TTag("endif"))>>, <<Cut(TComment(" c "))>>, <<TComment(" c ")>>, <<Cut(TIf("if", <<>>, YES, FALSE))>>,
     <<TExpr(XS("a b"))>>, <<TExpr(XS("(a"))>>, <<TExpr(XG("loop.foo"))>>, <<TExpr(XG("s0|escape(\"nope\")"))>>, <<TExpr(XG("n0|fmt(1)"))>>, <<TIf("if", <<>>, XS("a +"), FALSE), TTag("endif")>>,
     <<TIf("if", <<>>, XG("loop.cycle([])"), FALSE), TTag("endif")>>, <<TFor(PName("n2"), XG("s0|safe(1)"), <<>>), TTag("endfor")>>, <<TFor(PName("n2"), EV("l0"), <<XG("loop.foo")>>), TTag("endfor")>>,
     <<TMatch(XG("n0|fmt")), TWhen(PWild), TTag("endmatch")>>, <<TLet(PName("n2"), XG("n0|format(\"{}\")"), FALSE)>>, <<TFilter(<<[f |-> "pre", as |-> <<XG("loop.foo")>>]>>), TTag("endfilter")>>,
     <<TLet(PInt(1), EI(1), FALSE)>>, <<TLet(PName("self"), EI(1), FALSE)>>, <<TDecl("writer")>>, <<TFor(PName("writer"), EV("l0"), <<>>), TTag("endfor")>>,
     <<TMatch(EV("k1")), TTag("endmatch")>>, <<TMatch(EV("k1")), T0, TWhen(PWild), TTag("endmatch")>>, <<TMatch(EV("k1")), TTag("melse"), TTag("endmatch")>>, <<TMatch(EV("k1")), TWhen(PInt(1)), TTag("melse"), TWhen(PInt(2)), TTag("endmatch")>>,
     <<TMatch(EV("k1")), TComment(" c "), TWhen(PWild), TTag("endmatch")>>, <<TIf("if", <<>>, YES, FALSE)>>, <<TIf("if", <<>>, YES, FALSE), TTag("endfor")>>, <<TFor(PName("n2"), EV("l0"), <<>>), TTag("forelse"), TTag("forelse"), TTag("endfor")>>,
     <<TIf("if", <<>>, YES, FALSE), TTag("else"), TTag("else"), TTag("endif")>>, <<TIf("if", <<>>, YES, FALSE), TTag("else"), TIf("elif", <<>>, YES, FALSE), TTag("endif")>>, <<TTag("raw"), TTag("endif"), TTag("endraw")>>, <<TTag("raw"), TTag("endif")>>,
     <<[TExt("base0.html") EXCEPT !.l = "-"]>>, <<TExt("base0.html"), TExt("base0.html")>> >>
Outers == <<"top", "block", "child", "over", "macro", "idle", "lib", "inc", "incblk", "dead", "off">>
TxB == TMacro("mx", <<>>)
M2 == <<TMacro("m2", <<"a", "b">>), TExpr(EV("a")), TEndMacro("")>>
Files0 == ("base0.html" :> <<T0, TBlock("ba"), TEndBlock("")>>) @@ ("lib0.html" :> <<TMacro("m0", <<>>), T0, TEndMacro("")>>) @@ ("inc0.html" :> <<T0>>)
Around(o, q) ==
  CASE o = "top" -> ("main.html" :> M2 \o q)
    [] o = "block" -> ("main.html" :> M2 \o <<TBlock("ba")>> \o q \o <<TEndBlock("ba")>>)
    [] o = "child" -> ("base.html" :> <<T0, TBlock("ba"), T0, TEndBlock("")>>) @@ ("main.html" :> <<TExt("base.html")>> \o M2 \o <<TBlock("ba")>> \o q \o <<TEndBlock("ba")>>)
    [] o = "over" -> ("base.html" :> M2 \o <<TBlock("ba")>> \o q \o <<TEndBlock("")>>) @@ ("main.html" :> <<TExt("base.html"), TBlock("ba"), TSuper, TEndBlock("ba")>>)
    [] o = "macro" -> ("main.html" :> M2 \o <<TxB>> \o q \o <<TEndMacro("mx"), TCall("", "mx", <<>>)>>)
    [] o = "idle" -> ("main.html" :> M2 \o <<TxB>> \o q \o <<TEndMacro("mx")>>)
    [] o = "lib" -> ("lib.html" :> M2 \o <<TxB>> \o q \o <<TEndMacro("mx")>>) @@ ("main.html" :> <<TImp("lib.html", "lx"), TCall("lx", "mx", <<>>)>>)
    [] o = "inc" -> ("inc.html" :> q) @@ ("main.html" :> M2 \o <<TInc("inc.html")>>)
    [] o = "incblk" -> ("inc.html" :> <<TBlock("ba")>> \o q \o <<TEndBlock("")>>) @@ ("main.html" :> M2 \o <<TFor(PName("n1"), EV("l0"), <<>>), TInc("inc.html"), TTag("endfor")>>)
    [] o = "dead" -> ("base.html" :> <<T0, TBlock("ba"), T0, TEndBlock("")>>) @@ ("main.html" :> <<TExt("base.html"), TBlock("bz")>> \o q \o <<TEndBlock("bz")>>)
    [] o = "off" -> ("base.html" :> <<T0, TBlock("ba"), T0, TEndBlock("")>>) @@ ("main.html" :> <<TExt("base.html")>> \o q)
Depth2 == Parts > 1
Place3 == /\ Mode = "pos" /\ ph = "shape"
          /\ \E o \in 1..Len(Outers), a \in 1..Len(Mids), b \in (IF Depth2 THEN 1..Len(Mids) ELSE {1}), p \in 1..Len(Pieces) :
               /\ (o * 7 + a * 5 + b * 3 + p) % Parts = Part % Parts
               /\ pg' = [files |-> Around(Outers[o], Wrapped(Mids[a], Wrapped(Mids[b], Pieces[p]))) @@ Files0, dirs |-> <<"">>, frag |-> "", main |-> "main.html", mainrel |-> "main.html",
                         esc |-> "html", ws |-> "preserve", wsby |-> "none", syn |-> DefaultSyn, synconf |-> FALSE]
               /\ mu' = <<Outers[o] \o " " \o Mids[a] \o " " \o Mids[b] \o " " \o ToString(p)>>
          /\ ph' = "judge" /\ UNCHANGED <<au, rs, todo, done>>

\* every list of arguments of up to three (four) for macros of up to three parameters
ArgNames == <<"", "a", "b", "c">>
Params(n) == SubSeq(<<"a", "b", "c">>, 1, n)
ArgLists == UNION {[1..n -> 1..4] : n \in 0..(IF Depth2 THEN 4 ELSE 3)}
Call3 == /\ Mode = "pos" /\ ph = "shape"
         /\ \E n \in 0..3, as \in ArgLists, sc \in {"", "lx"} :
              LET q == <<TMacro("mx", Params(n)), T0>> \o [j \in 1..n |-> TExpr(EV(Params(n)[j]))] \o <<TEndMacro("mx")>>
                  c == <<TCall(sc, "mx", [j \in 1..Len(as) |-> [n |-> ArgNames[as[j]], e |-> EI(j)]])>>
                  Files == IF sc = "" THEN ("main.html" :> q \o c) ELSE ("lib.html" :> q) @@ ("main.html" :> <<TImp("lib.html", "lx")>> \o c) IN
              /\ (n + (IF sc = "" THEN 0 ELSE 1) + Len(as)) % Parts = Part % Parts
              /\ pg' = [files |-> Files, dirs |-> <<"">>, frag |-> "", main |-> "main.html", mainrel |-> "main.html",
                        esc |-> "html", ws |-> "preserve", wsby |-> "none", syn |-> DefaultSyn, synconf |-> FALSE]
              /\ mu' = <<"args " \o ToString(n) \o sc \o ToString(as)>>
         /\ ph' = "judge" /\ UNCHANGED <<au, rs, todo, done>>

-----------------------------------------------------------------------------
VCase == [main |-> pg.mainrel, esc |-> pg.esc, ws |-> pg.ws, wsby |-> pg.wsby, dirs |-> pg.dirs, syn |-> pg.syn, synconf |-> pg.synconf, frag |-> pg.frag,
          files |-> FilesOut(pg, DOMAIN pg.files, pg.syn), how |-> mu[1], verdict |-> Verdict(pg, pg.frag)]
Judge == /\ ph = "judge" /\ PrintT("CASE " \o ToJson(VCase))
         /\ ph' = "done" /\ UNCHANGED <<au, pg, rs, todo, done, mu>>
MInit == Init /\ mu = <<>>
MNext == (Mode = "mut" /\ (Shape \/ WriteAny) /\ UNCHANGED mu) \/ Written \/ Mutate \/ Mutated \/ Place3 \/ Call3 \/ Judge
MSpec == MInit /\ [][MNext]_mvars

\* what is written by the author is valid before it is changed
AuthorKeepsRules == ph = "mut" /\ Len(mu) > 1 /\ mu[1] = "" => LET v == Verdict(pg, "") IN v \in {"", "any"} \/ ~PrintT("BROKEN " \o ToJson(VCase))
=============================================================================
