------------------------------- MODULE Profiles -------------------------------
(* Data, shapes of programs, and the profiles that the checks explore.        *)
EXTENDS Author

\* ---- data ------------------------------------------------------------------
\* raw data of a run; EnvVal turns it into the values of the template's fields
RInt(sd, k) == Roll(sd, k, 12) - 3
RStr(sd, k) == PickQ(<<"a", "B c", "x<y", "&", "q\"'", "é", " p ", "<b>&\"'</b>", "", "Zz\nw", "日本", "&lt;", "a/b">>, sd, k)
RSeq(n, F(_)) == [j \in 1..n |-> F(j)]
ROwn(sd, k) == [n |-> RInt(sd, k), s |-> RStr(sd, k + 1), v |-> RSeq(Roll(sd, k + 2, 3), LAMBDA j : RStr(sd, k + 2 + j)), o |-> RSeq(Roll(sd, k + 5, 2), LAMBDA j : RStr(sd, k + 6))]
EnvOf(sd) ==
  [n0 |-> RInt(sd, 1), n1 |-> RInt(sd, 2), n2 |-> RInt(sd, 3), n3 |-> RInt(sd, 4),
   s0 |-> RStr(sd, 6), s1 |-> RStr(sd, 7), s2 |-> RStr(sd, 8), s3 |-> RStr(sd, 9),
   b0 |-> Roll(sd, 10, 2) = 0, b1 |-> Roll(sd, 11, 2) = 0, b2 |-> Roll(sd, 12, 2) = 0,
   l0 |-> RSeq(Roll(sd, 13, 5), LAMBDA j : RInt(sd, 20 + j)),
   m0 |-> RSeq(Roll(sd, 14, 4), LAMBDA j : RStr(sd, 30 + j)),
   f0 |-> RSeq(3, LAMBDA j : RInt(sd, 40 + j)),
   p1 |-> RSeq(Roll(sd, 15, 4), LAMBDA j : [n |-> RInt(sd, 50 + j), s |-> RStr(sd, 60 + j)]),
   d0 |-> [n |-> RInt(sd, 16), s |-> RStr(sd, 17)],
   r1 |-> [ok |-> Roll(sd, 18, 4) # 0, n |-> RInt(sd, 19), er |-> "e1"],
   r2 |-> [ok |-> Roll(sd, 70, 4) # 0, n |-> RInt(sd, 71), er |-> "e2"],
   x0 |-> Roll(sd, 79, 3) = 0,
   w0 |-> RStr(sd, 80), v0 |-> RSeq(Roll(sd, 81, 4), LAMBDA j : RStr(sd, 82 + j)), g0 |-> RSeq(3, LAMBDA j : RStr(sd, 90 + j)),
   q1 |-> RSeq(Roll(sd, 94, 4), LAMBDA j : [n |-> RInt(sd, 94 + j), s |-> RStr(sd, 98 + j)]),
   u0 |-> RSeq(1 + Roll(sd, 102, 3), LAMBDA i : RSeq(Roll(sd, 110 + i, 3), LAMBDA j : RStr(sd, 110 + 5 * i + j))),
   ow |-> RSeq(Roll(sd, 103, 2), LAMBDA j : RStr(sd, 104)), d1 |-> ROwn(sd, 130), d2 |-> [d |-> ROwn(sd, 140), t |-> [n |-> RInt(sd, 150), s |-> RStr(sd, 151)]],
   h1 |-> RSeq(Roll(sd, 160, 3), LAMBDA j : ROwn(sd, 160 + 10 * j)), t0 |-> [n |-> RInt(sd, 152), s |-> RStr(sd, 153)],
   o1 |-> RSeq(Roll(sd, 72, 2), LAMBDA j : RInt(sd, 73)),
   k1 |-> Roll(sd, 74, 4), m1 |-> PickQ(<<"a", "b", "x<">>, sd, 75),
   e1 |-> [var |-> PickQ(<<"A", "B", "C">>, sd, 76), n |-> RInt(sd, 77), s |-> RStr(sd, 78)]]
VSeq(q, F(_)) == VL([j \in 1..Len(q) |-> F(q[j])])
VOwn(d) == VD([n |-> VI(d.n), s |-> VS(d.s), v |-> VSeq(d.v, VS), o |-> VO([j \in 1..Len(d.o) |-> VS(d.o[j])])])
VPair(t) == VT(<<VI(t.n), VS(t.s)>>)
EnvVal(r) ==
  [n0 |-> VI(r.n0), n1 |-> VI(r.n1), n2 |-> VI(r.n2), n3 |-> VI(r.n3),
   s0 |-> VS(r.s0), s1 |-> VS(r.s1), s2 |-> VS(r.s2), s3 |-> VS(r.s3),
   b0 |-> VB(r.b0), b1 |-> VB(r.b1), b2 |-> VB(r.b2),
   l0 |-> VSeq(r.l0, VI), m0 |-> VSeq(r.m0, VS), f0 |-> VSeq(r.f0, VI),
   p1 |-> VSeq(r.p1, LAMBDA t : VT(<<VI(t.n), VS(t.s)>>)),
   d0 |-> VD([n |-> VI(r.d0.n), s |-> VS(r.d0.s)]),
   r1 |-> VR(r.r1.ok, VI(r.r1.n), r.r1.er), r2 |-> VR(r.r2.ok, VI(r.r2.n), r.r2.er),
   o1 |-> VO([j \in 1..Len(r.o1) |-> VI(r.o1[j])]),
   x0 |-> VF(IF r.x0 THEN "fmt" ELSE ""),
   w0 |-> VS(r.w0), v0 |-> VSeq(r.v0, VS), g0 |-> VSeq(r.g0, VS), q1 |-> VSeq(r.q1, LAMBDA t : VT(<<VI(t.n), VS(t.s)>>)),
   u0 |-> VSeq(r.u0, LAMBDA q : VSeq(q, VS)), ow |-> VO([j \in 1..Len(r.ow) |-> VS(r.ow[j])]),
   d1 |-> VOwn(r.d1), d2 |-> VD([d |-> VOwn(r.d2.d), t |-> VPair(r.d2.t)]), t0 |-> VPair(r.t0), h1 |-> VSeq(r.h1, VOwn),
   k1 |-> VI(r.k1), m1 |-> VS(r.m1),
   e1 |-> VE(r.e1.var, CASE r.e1.var = "A" -> <<>> [] r.e1.var = "B" -> <<VI(r.e1.n)>> [] OTHER -> <<VI(r.e1.n), VS(r.e1.s)>>)]

\* ---- profiles ---------------------------------------------------------------
BaseW == [text |-> 8, expr |-> 8, com |-> 1, raw |-> 1, if |-> 3, elif |-> 1, else |-> 2, for |-> 3, forelse |-> 1, match |-> 2, let |-> 2,
          lettup |-> 1, defer |-> 1, blk |-> 2, call |-> 3, super |-> 3, inc |-> 2, flt |-> 2, brk |-> 1, cont |-> 1, close |-> 5]
BaseFt == {"arith", "logic", "cmp", "filter", "paren", "attr", "idx", "loop", "cycle", "esc", "join", "format", "own", "self", "lit", "fn"}
Base == [w |-> BaseW, ft |-> BaseFt, d |-> 1, marks |-> 10, text |-> "plain", nest |-> 3, kw |-> FALSE, pats |-> TRUE, forif |-> 30, frags |-> FALSE,
         macfuel |-> 3, escs |-> <<"html", "html", "text">>, wss |-> <<"preserve">>, wsby |-> <<"none">>,
         shapes |-> <<"one", "inc", "lib", "chain", "all", "binc">>, fuel |-> 12, envs |-> 4, syns |-> FALSE,
         hexts |-> <<".html">>, texts |-> <<".txt">>]
Wt(m) == m @@ BaseW
ProfileOf(n) ==
  CASE n = "C01" -> [Base EXCEPT !.w = Wt([expr |-> 16, flt |-> 3, let |-> 1]), !.ft = @ \union {"show"}, !.d = 2]
    [] n = "C02" -> [Base EXCEPT !.w = Wt([text |-> 16, com |-> 4, raw |-> 5, expr |-> 6, flt |-> 1]), !.text = "full", !.marks = 5,
                                 !.ft = {"esc", "format"}, !.d = 1]
    [] n = "C03" -> [Base EXCEPT !.w = Wt([text |-> 30, com |-> 3, raw |-> 2]), !.text = "full", !.marks = 60, !.ft = {}, !.d = 0, !.nest = 4,
                                 !.wss = <<"preserve", "suppress", "minimize", "preserve">>, !.wsby = <<"none", "attr", "conf", "both">>]
    [] n = "C04" -> [Base EXCEPT !.w = Wt([if |-> 8, elif |-> 4, else |-> 3, match |-> 6, let |-> 1]), !.ft = @ \union {"probe"}, !.d = 2, !.envs = 6]
    [] n = "C05" -> [Base EXCEPT !.w = Wt([for |-> 9, forelse |-> 3, brk |-> 3, cont |-> 3, if |-> 2, match |-> 1]), !.ft = @ \union {"probe"},
                                 !.nest = 4, !.forif = 50, !.envs = 6]
    [] n = "C06" -> [Base EXCEPT !.w = Wt([let |-> 10, lettup |-> 3, defer |-> 3, expr |-> 14, text |-> 4, inc |-> 5, call |-> 5]), !.shapes = <<"one", "inc", "inc", "lib", "chain", "all", "all", "binc">>, !.kw = TRUE, !.ft = {"arith", "cmp", "attr", "own", "self"}, !.nest = 4]
    [] n = "C07" -> [Base EXCEPT !.w = Wt([blk |-> 7, super |-> 6, let |-> 3]), !.shapes = <<"chain", "chain", "chain3", "all", "binc">>]
    [] n = "C08" -> [Base EXCEPT !.w = Wt([blk |-> 8, super |-> 5, defer |-> 0]), !.shapes = <<"one", "chain", "chain", "chain3", "all", "binc">>, !.frags = TRUE, !.envs = 3, !.nest = 4]
    [] n = "C09" -> [Base EXCEPT !.w = Wt([call |-> 14, let |-> 3]), !.shapes = <<"one", "lib", "lib", "all", "all", "dirs">>, !.macfuel = 5, !.ft = @ \union {"probe"}]
    [] n = "C10" -> [Base EXCEPT !.w = Wt([inc |-> 10, call |-> 8, blk |-> 4]), !.shapes = <<"inc", "dirs", "dirs", "all", "binc">>]
    [] n = "C11" -> [Base EXCEPT !.w = [text |-> 3, expr |-> 20, if |-> 2, let |-> 2, close |-> 9], !.d = 4,
                                 !.ft = (@ \union {"bits", "try", "show", "meth", "probe"}) \ {"join"}, !.shapes = <<"one">>, !.fuel = 14, !.envs = 6]
    [] n = "C12" -> [Base EXCEPT !.ft = @ \union {"try", "failv"}]
    [] n = "C13" -> [Base EXCEPT !.ft = @ \union {"try", "fail", "failv", "probe"}, !.d = 2, !.envs = 6]
    [] n = "C14" -> [Base EXCEPT !.w = Wt([flt |-> 9]), !.nest = 5]
    [] n = "C19" -> [Base EXCEPT !.w = Wt([text |-> 16, com |-> 5, raw |-> 4]), !.text = "full", !.marks = 25, !.syns = TRUE, !.ft = @ \union {"bits", "show"}, !.d = 2]
    [] n = "C21" -> [Base EXCEPT !.ft = @ \union {"try", "fail", "failv"}, !.d = 2, !.envs = 6, !.fuel = 10,
                                 !.hexts = <<".html", ".htm", ".svg", ".xml", ".html.j2", ".txt.jinja", ".svg.jinja2", ".foo", ".csv">>, !.texts = <<".txt", "", ".csv", ".css", ".json", ".tsv", ".md">>]
    [] n = "C22" -> [Base EXCEPT !.shapes = <<"inc", "lib", "chain", "chain3", "all", "all", "dirs", "dirs", "binc">>, !.fuel = 8, !.envs = 3]
    [] OTHER -> Base

\* ---- shapes of programs -----------------------------------------------------
EscSel(P, sd) == PickQ(P.escs, sd, 200)
Ext(P, sd) == IF EscSel(P, sd) = "html" THEN PickQ(P.hexts, sd, 207) ELSE PickQ(P.texts, sd, 207)
R(path, kind, fuel, macs, tailed, ext, imps) ==
  [path |-> path, kind |-> kind, fuel |-> fuel, macs |-> macs, tailed |-> tailed, ext |-> ext, imps |-> imps]
Macs(P, sd, salt, lo, hi) ==
  IF "call" \notin DOMAIN P.w THEN <<>>
  ELSE LET n == lo + Roll(sd, salt, hi - lo + 1)  k == Roll(sd, salt + 1, Len(Catalogue))
           ms == [j \in 1..n |-> Catalogue[((k + 2 * j) % Len(Catalogue)) + 1]] IN
       \* now and then the last one is also defined before the others: the later definition counts
       If(n > 0 /\ Roll(sd, salt + 5, 5) = 0, <<ms[n]>>) \o ms
Imp(p, sc, ms) == [p |-> p, scope |-> sc, macs |-> ms]
\* a role with no, one or two macros of its own, some at its end
RM(P, path, kind, fuel, sd, salt, ext, imps) ==
  LET ms == Macs(P, sd, salt, 0, 2) IN R(path, kind, fuel, ms, IF ms = <<>> THEN 0 ELSE Roll(sd, salt + 3, Len(ms) + 1), ext, imps)

ShapeOf(P, sd) ==
  LET x == Ext(P, sd)  sh == PickQ(P.shapes, sd, 201)  F == P.fuel
      sw == Roll(sd, 234, 2) = 0      \* the files of a program import the two libraries under each other's scopes
      l1 == Macs(P, sd, 210, 1, 3)  l2 == IF sw THEN l1 ELSE Macs(P, sd, 220, 1, 2)
      lib1 == R("lib1" \o x, "lib", 0, l1, 0, "", <<>>)
      lib2 == R("lib2" \o x, "lib", 0, l2, 0, "", <<Imp("lib1" \o x, "la", l1)>>)
      imps == (IF Roll(sd, 230, 3) = 0 THEN <<>> ELSE If(Roll(sd, 235, 4) = 0, <<Imp("lib2" \o x, "lib", <<>>)>>) \o <<Imp("lib1" \o x, "lib", l1)>>)
              \o If(Roll(sd, 236, 4) = 0, <<Imp("lib1" \o x, "la", <<>>)>>) \o <<Imp("lib2" \o x, "la", l2)>>
      \* the imports of a file that is not the main one: other libraries than main has under these scopes
      swap(k) == IF ~sw \/ l1 = <<>> THEN <<>>
                 ELSE If(Roll(sd, k, 3) # 0, <<Imp("lib2" \o x, "lib", l2)>>) \o If(Roll(sd, k + 1, 3) # 0, <<Imp("lib1" \o x, "la", l1)>>)
      inc1 == RM(P, "inc1" \o x, "inc", F \div 2, sd, 240, "", <<>>)
      inc1s == RM(P, "inc1" \o x, "inc", F \div 2, sd, 240, "", swap(242))
      inc2 == RM(P, "inc2" \o x, "inc", F \div 2, sd, 250, "", <<>>)
      incm == R("incm" \o x, "incm", 3, <<>>, 0, "", <<>>)
      incl == R("inc2" \o x, "inc", F \div 2, <<>>, 0, "", <<Imp("lib1" \o x, "lz", l1)>>)
      main(k, e, im) == RM(P, "main" \o x, k, F, sd, 260, e, im)
      base == RM(P, "base" \o x, "base", F, sd, 270, "", <<>>)
      mid == RM(P, "mid" \o x, "mid", F, sd, 280, "base" \o x, <<>>)
      bases == RM(P, "base" \o x, "base", F, sd, 270, "", swap(274))
      mids == RM(P, "mid" \o x, "mid", F, sd, 280, "base" \o x, swap(284))
      rel == <<"inc1" \o x, "inc2" \o x, "incm" \o x>> IN
  CASE sh = "one" -> NewAu(<<main("main", "", <<>>)>>, <<"">>, rel)
    [] sh = "inc" -> NewAu(<<incm, inc1, inc2, main("main", "", <<>>)>>, <<"">>, rel)
    [] sh = "lib" -> NewAu(<<incm, lib1, lib2, main("main", "", imps)>>, <<"">>, rel)
    [] sh = "binc" ->
         LET in1 == R("inc1" \o x, "iroot", F \div 2, <<>>, 0, "", <<>>)
             in2 == R("inc2" \o x, "ichild", F \div 2, <<>>, 0, "inc1" \o x, <<>>) IN
         NewAu(<<in1>> \o If(Roll(sd, 232, 3) # 0, <<in2>>)
               \o (IF Roll(sd, 233, 2) = 0 THEN <<main("main", "", <<>>)>> ELSE <<base, main("child", "base" \o x, <<>>)>>), <<"">>, rel)
    [] sh = "chain" -> NewAu(<<base, main("child", "base" \o x, <<>>)>>, <<"">>, rel)
    [] sh = "chain3" -> NewAu(<<base, mid, main("child", "mid" \o x, <<>>)>>, <<"">>, rel)
    [] sh = "all" -> NewAu(<<incm, lib1, lib2, inc1s, incl, bases>> \o If(Roll(sd, 231, 2) = 0, <<mids>>)
                           \o <<main("child", IF Roll(sd, 231, 2) = 0 THEN "mid" \o x ELSE "base" \o x, imps)>>, <<"">>, rel)
    [] sh = "dirs" ->
         \* the same relative names in several directories
         LET r(p, f) == R(p \o x, "inc", f, <<>>, 0, "", <<>>)
             ls(p) == R(p \o x, "lib", 0, l1, 0, "", <<>>)
             d1 == PickQ(<<"p/", "q/", "p/sub/">>, sd, 290)
             incs == <<r("q/a", 2), r("p/sub/a", 2), r("q/sub/b", 3), r("p/a", 3), r("p/sub/b", 4), r("q/b", 3)>>
             \* files of the same names for macros to include
             ms == <<R("p/m" \o x, "incm", 2, <<>>, 0, "", <<>>), R("q/m" \o x, "incm", 2, <<>>, 0, "", <<>>), R("q/sub/m" \o x, "incm", 2, <<>>, 0, "", <<>>)>>
             keep == SelectSeq(incs, LAMBDA i : Roll(sd, 300 + Len(i.path) + (IF Ch(i.path, 1) = "p" THEN 20 ELSE 0), 4) # 0)
             libs == <<ls("p/sub/lib"), ls("q/lib")>> \o If(Roll(sd, 291, 2) = 0, <<ls("p/lib")>>)
             im == <<Imp(PickQ(<<"lib", "sub/lib">>, sd, 292) \o x, "lib", l1)>>
             ex == PickQ(<<"sub/base", "base", "sub/mid">>, sd, 294)
             chd == Roll(sd, 293, 2) # 0
             own == Macs(P, sd, 295, 0, 2)
             bs == R("q/sub/base" \o x, IF chd /\ ex # "base" THEN "base" ELSE "inc", F, own, 0, "", <<Imp("lib" \o x, "lx", l1)>>)
             bs2 == R("p/base" \o x, IF chd /\ ex = "base" THEN "base" ELSE "inc", F, own, 0, "", <<>>)
             rl == <<"a" \o x, "b" \o x, "sub/a" \o x, "sub/b" \o x, "m" \o x, "sub/m" \o x>> IN
         NewAu(ms \o keep \o libs \o (IF ex = "base" THEN <<bs, bs2>> ELSE <<bs2, bs>>)
               \o If(chd /\ ex = "sub/mid", <<R("q/sub/mid" \o x, "mid", F, <<>>, 0, "base" \o x, <<Imp("lib" \o x, "lm", l1)>>)>>)
               \o <<IF ~chd THEN R("p/main" \o x, "main", F, <<>>, 0, "", im)
                    ELSE R("p/main" \o x, "child", F, <<>>, 0, ex \o x, im)>>,
               <<"p/", "q/">>, rl)

\* the Rust keywords that a program uses as names
KwsOf(P, sd) == IF ~P.kw THEN <<>> ELSE LET k == Roll(sd, 205, Len(KwSeq)) IN [j \in 1..3 |-> KwSeq[((k + 17 * j) % Len(KwSeq)) + 1]]
\* the custom delimiters of a program
OpenPool == <<"{%", "{{", "{#", "<%", "<!--", "%{", "%%", "%#", "#{", "${", "[[", "(*", "@@", "<{", "/*", "«%", "\\{", "{!", "##", "<?", "{%%", "{[(">>
EndPool == <<"%}", "}}", "#}", "%>", "^^", "%%", "]]", "*)", "@@", "}>", "*/", "/>", "$$", "%%}", ")]}", "##">>
Clash(a, b) == IsPrefixOf(a, b) \/ IsPrefixOf(b, a)
Unlike(q, xs) == SelectSeq(q, LAMBDA a : \A x \in xs : ~Clash(a, x))
SynOf(P, sd) ==
  IF ~P.syns \/ Roll(sd, 500, 12) = 0 THEN DefaultSyn
  ELSE LET bs == PickQ(OpenPool, sd, 501)
           es == PickQ(Unlike(OpenPool, {bs}), sd, 502)
           cs == PickQ(Unlike(OpenPool, {bs, es}), sd, 503) IN
       [bs |-> bs, es |-> es, cs |-> cs, be |-> PickQ(EndPool, sd, 504), ee |-> PickQ(EndPool, sd, 505),
        ce |-> PickQ(Unlike(EndPool \o <<"-->">>, {cs}), sd, 506)]
HeaderOf(P, sd) ==
  LET x == Ext(P, sd)  w == PickQ(P.wss, sd, 202) IN
  [main |-> (IF PickQ(P.shapes, sd, 201) = "dirs" THEN "p/main" ELSE "main") \o x, mainrel |-> "main" \o x,
   esc |-> EscSel(P, sd), ws |-> IF PickQ(P.wsby, sd, 203) = "none" THEN "preserve" ELSE w, wsby |-> PickQ(P.wsby, sd, 203),
   syn |-> SynOf(P, sd), synconf |-> Roll(sd, 507, 3) = 0,
   inl |-> Roll(sd, 508, 6) = 0 /\ PickQ(P.shapes, sd, 201) # "dirs",
   ty |-> PickQ(<<"tuple", "tuple", "tuple", "tuple", "generic", "where", "enum", "refs">>, sd, 509)]   \* the type it is derived for

\* ---- runs -------------------------------------------------------------------
\* blocks that the full rendering places
RECURSIVE BlocksIn(_, _, _), Reach(_, _, _)
BlocksIn(ts, i, j) == IF i > j THEN {} ELSE (IF ts[i].k = "block" THEN {ts[i].n} ELSE {}) \union BlocksIn(ts, i + 1, j)
Reach(g, todo, seen) ==
  IF todo \subseteq seen THEN seen
  ELSE LET n == CHOOSE n \in todo : n \notin seen  d == BlockDefs(g, g.main, n)[1]  ts == g.files[d.f] IN
       Reach(g, todo \union BlocksIn(ts, d.i + 1, NextOf(ts, d.i + 1, 0, {"endblock"})), seen \union {n})
FragsOf(g) == LET r == Root(g)  ts == g.files[r] IN Reach(g, BlocksIn(ts, 1, Len(ts)), {})
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})
RunsOf(P, g, sd) ==
  LET full == [j \in 1..P.envs |-> [frag |-> "", env |-> EnvOf(H(sd, 400 + j))]]
      fr == IF P.frags THEN SetToSeq2(FragsOf(g)) ELSE <<>>
      part(n) == [j \in 1..P.envs |-> [frag |-> n, env |-> EnvOf(H(sd, 400 + j))]] IN
  full \o (IF Len(fr) > 0 THEN part(fr[1]) ELSE <<>>) \o (IF Len(fr) > 1 THEN part(fr[2]) ELSE <<>>) \o (IF Len(fr) > 2 THEN part(fr[3]) ELSE <<>>)
PickK(au, P, sd) == IF SumW(au, P, 1) = 0 THEN "eof" ELSE PickKind(au, P, sd)
=============================================================================
