-------------------------------- MODULE Author --------------------------------
(* Writing a program, tag by tag.  An author state au is                      *)
(*   files   the files written so far: path -> tokens                         *)
(*   roles   the files still to be written, in order; the first is current    *)
(*   ts      the tokens of the current file                                   *)
(*   st      the constructs open in it, innermost last, each with the names   *)
(*           bound in it so far (vi: integers, vs: strings, vz: counters)     *)
(*   fuel    how many more tags may be opened                                 *)
(*   bl      names of the blocks defined in the current file                  *)
(*   bls     block names defined by the files of the chain written so far     *)
(*   hd      what is still to be written at the head of the current file      *)
(* P is a profile: [w, ft, d, ws, ...]: weights of the tags, features of      *)
(* expressions, their depth, ...                                              *)
EXTENDS Render

\* sections of the text between tags, with every kind of white space at its ends
Cores == <<"a", "B c", "é", "x;", "\\", "\"q\"", "'", "<i>", "&amp;", "}", "%}", "}} ", "{ {", "#}", "{", "日本", "-", "~", "{}", "r#\"", "\\n", "%", "a\n b", "{a}", "$&", "//", "\r", "end", " k ", " ", "\f.\f">>
Blanks == <<"", "", "", " ", "\n", "  ", " \n", "\n\n", "\t", " \n ", "\r\n">>

\* A text must not open a tag by itself, nor together with the tag that follows it.
OpensOf(syn) == <<syn.bs, syn.es, syn.cs>>
HasOpen(s, syn) == \E k \in 1..3 : Contains(s, OpensOf(syn)[k])
Dangling(s, syn) == \E k \in 1..3 : \E n \in 1..(Len(OpensOf(syn)[k]) - 1) : IsSuffixOf(SubSeq(OpensOf(syn)[k], 1, n), s)
Plainly(s, syn) == LET t == IF HasOpen(s, syn) THEN "a" ELSE s IN IF Dangling(t, syn) THEN t \o "." ELSE t
\* delimiters that a custom syntax does not use are plain text
Foreign == <<"{{ x }}", "{% if %}", "{{", "{%", "{#", "{# c #}", "{{-", "%}{% endif %}", "{%raw%}">>
MkText(sd, P, syn) ==
  LET c == PickQ(IF syn # DefaultSyn /\ Roll(sd, 8, 3) = 0 THEN Foreign ELSE IF P.text = "plain" THEN <<"a", "B c", "é", "<i>", "x;">> ELSE Cores, sd, 1)
      c2 == IF P.text = "plain" THEN "" ELSE PickQ(<<"", "">> \o Cores, sd, 6) \o (IF Roll(sd, 7, 2) = 0 THEN PickQ(Cores, sd, 9) ELSE "")
      l == IF P.text = "plain" THEN PickQ(<<"", " ">>, sd, 2) ELSE PickQ(Blanks, sd, 2)
      r == IF P.text = "plain" THEN PickQ(<<"", " ">>, sd, 3) ELSE PickQ(Blanks, sd, 3)
      s == IF P.text # "plain" /\ Roll(sd, 4, 4) = 0 THEN PickQ(<<" ", "\n", "  ", " \n", "\t\t", "\n \n">>, sd, 5) ELSE l \o c \o (IF Roll(sd, 10, 2) = 0 THEN c2 ELSE "") \o r
  IN Plainly(s, syn)

\* the text with the delimiters of a syntax in place of the default ones
Translate(s, syn) == ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(s, "{{", "␟1"), "}}", "␟2"), "{%", "␟3"), "%}", "␟4"), "{#", "␟5"), "#}", "␟6")
SynText(s, syn) == LET t == Translate(s, syn) IN
  ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(ReplaceAll(t, "␟1", syn.es), "␟2", syn.ee), "␟3", syn.bs), "␟4", syn.be), "␟5", syn.cs), "␟6", syn.ce)
InSyn(s, sd, syn) == IF syn = DefaultSyn \/ Roll(sd, 12, 3) = 0 THEN s ELSE SynText(s, syn)

RawBodies == <<"{{ x }}", "{% if %}", " {# c #} ", "{{", " %} ", "\n{% endfor %}\n", "{{ \"", "", " ", "{%raw%}", "a", "{% endra %}">>
RawBody(sd, syn) == InSyn(PickQ(RawBodies, sd, 5), sd, syn)
Comments == <<" c ", " {{ x }} ", " {% if %} ", " {# n #} ", " {# {# d #} #} ", " \" ", " ", " end%} ">>
\* comments nest, so what a comment contains has to be balanced, also at its ends
RECURSIVE Nests(_, _, _, _)
Nests(s, d, o, c) ==
  LET i == FindFrom(s, o, 1)  j == FindFrom(s, c, 1) IN
  IF i = 0 /\ j = 0 THEN d = 0
  ELSE IF j = 0 \/ (i # 0 /\ i < j) THEN Nests(SubSeq(s, i + Len(o), Len(s)), d + 1, o, c)
  ELSE d > 0 /\ (d # 1 \/ j + Len(c) = Len(s) + 1) /\ Nests(SubSeq(s, j + Len(c), Len(s)), d - 1, o, c)
CommentBody(sd, syn) ==
  LET c == PickQ(Comments, sd, 5)  t == InSyn(c, sd, syn)  ok(x) == Nests(x \o syn.ce, 1, syn.cs, syn.ce) IN
  IF ok(t) THEN t ELSE IF ok(SynText(c, syn)) THEN SynText(c, syn) ELSE IF ok(c) THEN c ELSE " c "

\* ---- marks ----------------------------------------------------------------
Mark(sd, salt, P) == IF P.marks = 0 \/ Roll(sd, salt, 100) >= P.marks THEN "" ELSE PickQ(<<"-", "~", "+">>, sd, salt + 1)
Mk(t, sd, P) == IF t.k \in {"t", "ext"} THEN t ELSE Marked(t, Mark(sd, 41, P), Mark(sd, 43, P))

\* ---- names ----------------------------------------------------------------
RECURSIVE MacAt(_, _)
MacAt(st, j) == IF j = 0 THEN 0 ELSE IF st[j].k = "mac" THEN j ELSE MacAt(st, j - 1)
RECURSIVE BarAt(_, _)      \* the innermost block or macro, whose body sees no names around it
BarAt(st, j) == IF j = 0 THEN 0 ELSE IF st[j].k \in {"mac", "blk"} THEN j ELSE BarAt(st, j - 1)
RECURSIVE LoopAt(_, _)
LoopAt(st, j) == IF j = 0 THEN FALSE
  ELSE IF st[j].k = "for" /\ ~st[j].els THEN TRUE
  ELSE IF st[j].k \in {"blk", "mac"} THEN FALSE ELSE LoopAt(st, j - 1)
RECURSIVE BreakAt(_, _)
BreakAt(st, j) == IF j = 0 THEN FALSE
  ELSE IF st[j].k = "for" /\ ~st[j].els THEN TRUE
  ELSE IF st[j].k \in {"blk", "mac", "flt"} THEN FALSE ELSE BreakAt(st, j - 1)
RECURSIVE InK(_, _, _)
InK(st, k, j) == IF j = 0 THEN FALSE ELSE st[j].k = k \/ InK(st, k, j - 1)

RECURSIVE Cat(_, _, _)
Cat(st, f, j) == IF j > Len(st) THEN <<>> ELSE st[j][f] \o Cat(st, f, j + 1)
OfType(ps, c) == SelectSeq(ps, LAMBDA p : Ch(p, 1) = c)

\* names that are Rust keywords or otherwise unusual; each one is a field too
KwSeq == <<"as", "do", "fn", "if", "in", "box", "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "else", "enum", "impl", "move", "priv",
           "type", "async", "await", "break", "const", "final", "macro", "match", "trait", "where", "while", "yield", "become", "extern", "return",
           "static", "struct", "typeof", "unsafe", "unsized", "virtual", "abstract", "continue", "override",
           "_u", "_9", "__", "字", "élan", "iffy", "input", "elsewhere", "letter", "setup", "orange", "withal", "truest", "falsely", "selfie", "loopy", "matchbox", "forum", "x_", "a0">>
Kws == {KwSeq[j] : j \in 1..Len(KwSeq)}
KwEnv == [k \in Kws |-> VI(100 + (CHOOSE j \in 1..Len(KwSeq) : KwSeq[j] = k))]
\* in a macro, and in a file that macros include, names may mean what the place of the call binds
Narrow(au) == MacAt(au.st, Len(au.st)) # 0 \/ au.roles[1].kind = "incm"
\* what a generated expression may use at the place
GAt(au, P) ==
  LET m == IF Narrow(au) THEN 1 ELSE 0  br == BarAt(au.st, Len(au.st))  own(f) == Cat(au.st, f, IF br = 0 THEN 1 ELSE br) IN
  [i |-> (IF m = 0 THEN <<"n1", "n2", "n3", "n0">> \o au.kws ELSE <<"n0">>) \o own("vi") \o If(br = 0, au.ti),
   s |-> (IF m = 0 THEN <<"s1", "s2", "s3", "s0">> ELSE <<"s0">>) \o If("own" \in P.ft, <<"w0">>) \o own("vs"),
   kw |-> Kws, j |-> own("vj"),
   b |-> (IF m = 0 THEN <<"b1", "b2", "b0">> ELSE <<"b0">>) \o own("vb"),
   z |-> own("vz"), lp |-> LoopAt(au.st, Len(au.st)), ft |-> P.ft]
\* strings that may be bound to another name: in a macro no parameters, which may own their text
CopyS(au, g) == [g EXCEPT !.s = IF ~Narrow(au) THEN SelectSeq(@, LAMBDA n : Ch(n, 1) # "w") ELSE <<"s0">>, !.lp = FALSE, !.ft = @ \ {"own"}]
NoProbe(g) == [g EXCEPT !.ft = @ \ {"probe"}]

\* a name to bind, of type c
Binder(au, P, c, sd) ==
  IF c = "n" THEN PickQ(<<"n1", "n2", "n3">> \o If(au.kws # <<>>, SubSeq(au.kws, 1, 2)), sd, 51)
  ELSE IF c = "b" THEN PickQ(<<"b1", "b2">>, sd, 51)
  ELSE IF c = "w" THEN PickQ(<<"w1", "w2">>, sd, 51)
  ELSE PickQ(<<"s1", "s2", "s3">>, sd, 51)

\* a frame of kind k in which the pattern's names are bound
RECURSIVE PNames(_, _, _)
PNamesOf(p) == PNames(<<p>>, 1, "")
PNames(ps, i, c) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET p == ps[i] IN
       (CASE p.k = "name" -> <<p.n>>
          [] p.k \in {"tup", "enum"} -> PNames(p.ps, 1, c)
          [] p.k = "or" -> PNames(<<p.ps[1]>>, 1, c)
          [] p.k \in {"some", "ok"} -> PNames(<<p.p>>, 1, c)
          [] p.k = "rec" -> PNames(<<p.p, p.q>>, 1, c)
          [] OTHER -> <<>>) \o PNames(ps, i + 1, c)
IsInt(n) == Ch(n, 1) = "n" \/ n \in Kws
Binding(fr, ns) ==
  [fr EXCEPT !.vi = @ \o SelectSeq(ns, IsInt),
             !.vs = @ \o SelectSeq(ns, LAMBDA n : ~IsInt(n) /\ Ch(n, 1) \in {"s", "w"}),
             !.vl = @ \o SelectSeq(ns, LAMBDA n : ~IsInt(n) /\ Ch(n, 1) = "y"), !.vj = @ \o SelectSeq(ns, LAMBDA n : ~IsInt(n) /\ Ch(n, 1) = "j"),
             !.vb = @ \o SelectSeq(ns, LAMBDA n : ~IsInt(n) /\ Ch(n, 1) = "b"),
             !.vz = @ \o SelectSeq(ns, LAMBDA n : ~IsInt(n) /\ Ch(n, 1) = "z")]
Fresh(k) == [k |-> k, vi |-> <<>>, vs |-> <<>>, vb |-> <<>>, vz |-> <<>>, vl |-> <<>>, vj |-> <<>>, els |-> FALSE, arms |-> <<>>, n |-> ""]
Opened(k, ns) == Binding(Fresh(k), ns)
Clear(fr) == [fr EXCEPT !.vi = <<>>, !.vs = <<>>, !.vb = <<>>, !.vz = <<>>, !.vl = <<>>, !.vj = <<>>]

\* ---- steps ----------------------------------------------------------------
Put(au, ts) == [au EXCEPT !.ts = @ \o ts]
Open(au, ts, fr) == [au EXCEPT !.ts = @ \o ts, !.st = Append(@, fr), !.fuel = @ - 1]
Spend(au, ts) == [au EXCEPT !.ts = @ \o ts, !.fuel = @ - 1]
TopK(au) == IF au.st = <<>> THEN "" ELSE Last(au.st).k
Role(au) == au.roles[1]
LastK(au) == IF au.ts = <<>> THEN "" ELSE Last(au.ts).k
\* names bound by a let: visible from here to the end of the innermost construct
Bound(au, ns) == IF au.st = <<>> THEN [au EXCEPT !.ti = @ \o SelectSeq(ns, IsInt)]
                 ELSE [au EXCEPT !.st = Append(Front(@), Binding(Last(@), ns))]

\* scrutinees and the patterns that cover them
ArmPlans(au, P, sd) ==
  LET n == PName(Binder(au, P, "n", sd))  s == PName(Binder(au, P, "s", sd))  w == PName(Binder(au, P, "w", sd))
      br == BarAt(au.st, Len(au.st))  js == Cat(au.st, "vj", IF br = 0 THEN 1 ELSE br)
      plans == (IF js = <<>> THEN <<>> ELSE LET o == EAtt(EV(PickQ(js, sd, 56)), "o") IN <<[e |-> o, a |-> <<PSome(w), PElse>>], [e |-> o, a |-> <<PNone, PSome(w)>>], [e |-> o, a |-> <<PSome(w), PNone>>]>>)
       \o (IF "own" \notin P.ft THEN <<>> ELSE <<
        [e |-> EV("ow"), a |-> <<PSome(w), PNone>>], [e |-> EV("ow"), a |-> <<PNone, PSome(w)>>], [e |-> ESelf("ow"), a |-> <<PSome(w), PElse>>],
        [e |-> EMth(EV("v0"), PickQ(<<"first", "last">>, sd, 59), <<>>), a |-> <<PNone, PSome(w)>>], [e |-> EMth(EV("ow"), "as_ref", <<>>), a |-> <<PSome(w), PElse>>],
        [e |-> EV("d1"), a |-> <<PRecO(n, w)>>], [e |-> EAtt(EV("d2"), "d"), a |-> <<PRecO(PWild, w), PWild>>], [e |-> EAtt(EV("d2"), "t"), a |-> <<PTup(<<n, w>>)>>],
        [e |-> EMth(EV("m1"), "st", <<>>), a |-> <<PStr("a"), POr(<<PStr("b"), PStr("x<")>>), PElse>>], [e |-> EMth(EV("w0"), "st", <<>>), a |-> <<PStr("a"), POr(<<PStr("&"), PStr("é")>>), PElse>>],
        [e |-> ETup(<<EV("b0"), ESelf("b1")>>), a |-> <<PTup(<<PBool(TRUE), PWild>>), PTup(<<PBool(FALSE), PBool(FALSE)>>), PWild>>] >>) \o <<
        [e |-> EV("o1"), a |-> <<PSome(n), PNone>>], [e |-> EV("o1"), a |-> <<PNone, PSome(n)>>],
        [e |-> EV("o1"), a |-> <<PNone, PElse>>], [e |-> EV("o1"), a |-> <<PSome(n), PElse>>],
        [e |-> EV("o1"), a |-> <<PSome(PWild), PWild>>],
        [e |-> EV("k1"), a |-> <<PInt(1), PInt(2), PElse>>], [e |-> EV("k1"), a |-> <<POr(<<PInt(0), PInt(2)>>), PWild>>],
        [e |-> EV("k1"), a |-> <<PInt(2), POr(<<PInt(2), PInt(3)>>), PInt(0), PElse>>],
        [e |-> EV("m1"), a |-> <<PStr("a"), PStr("b"), PElse>>], [e |-> EV("m1"), a |-> <<PStr("x<"), PWild>>],
        [e |-> EV("e1"), a |-> <<PEnum("A", <<>>), PEnum("B", <<n>>), PEnum("C", <<n, s>>)>>],
        [e |-> EV("e1"), a |-> <<PEnum("B", <<PWild>>), PEnum("C", <<PWild, s>>), PElse>>],
        [e |-> EV("e1"), a |-> <<PEnum("C", <<n, PWild>>), PWild>>],
        [e |-> EV("b0"), a |-> <<PBool(TRUE), PBool(FALSE)>>], [e |-> EV("b0"), a |-> <<PBool(FALSE), PElse>>],
        [e |-> EV("r1"), a |-> <<POk(n), PErr>>], [e |-> EV("r2"), a |-> <<PErr, POk(n)>>],
        [e |-> ETup(<<EV("k1"), EV("o1")>>), a |-> <<PTup(<<PInt(1), PSome(n)>>), PTup(<<PWild, PNone>>), PTup(<<PInt(2), PWild>>), PElse>>],
        [e |-> EV("d0"), a |-> <<PRec(n, s)>>], [e |-> EV("d0"), a |-> <<PRec(PName("n"), PName("s"))>>],
        [e |-> EV("d0"), a |-> <<PRecK(n, s)>>], [e |-> ESelf("d0"), a |-> <<PRecK(IF P.kw THEN PName("type") ELSE n, s)>>],
        [e |-> EV("e1"), a |-> <<POr(<<PEnum("B", <<n>>), PEnum("C", <<n, PWild>>)>>), PElse>>],
        [e |-> EV("e1"), a |-> <<POr(<<PEnum("C", <<n, PWild>>), PEnum("B", <<n>>)>>), PEnum("A", <<>>)>>],
        [e |-> ETup(<<EV("k1"), EV("e1")>>), a |-> <<PTup(<<POr(<<PInt(0), PInt(1)>>), POr(<<PEnum("A", <<>>), PEnum("B", <<PWild>>)>>)>>), PTup(<<PWild, PEnum("C", <<n, s>>)>>), PElse>>],
        [e |-> ETup(<<EV("k1"), EV("o1")>>), a |-> <<POr(<<PTup(<<PInt(2), PSome(n)>>), PTup(<<PInt(0), PSome(n)>>)>>), PTup(<<POr(<<PInt(1), PInt(-1)>>), PWild>>), PWild>>] >>
  IN PickQ(plans, sd, 55)
LetPats(au, P, sd) ==
  LET n == PName(Binder(au, P, "n", sd))  s == PName(Binder(au, P, "s", sd))  w == PName(Binder(au, P, "w", sd))
      br == BarAt(au.st, Len(au.st))  js == Cat(au.st, "vj", IF br = 0 THEN 1 ELSE br)  o == [p |-> PSome(w), e |-> EAtt(EV(PickQ(js, sd, 56)), "o")] IN
  PickQ(If(js # <<>>, <<o, o>>) \o (IF "own" \notin P.ft THEN <<>> ELSE <<[p |-> PSome(w), e |-> EMth(EV("v0"), PickQ(<<"first", "last">>, sd, 59), <<>>)],
          [p |-> PSome(w), e |-> EMth(EAtt(EV("d1"), "o"), "as_ref", <<>>)], [p |-> PSome(w), e |-> EMth(ESelf("v0"), "last", <<>>)], [p |-> PSome(w), e |-> EV("ow")], [p |-> PSome(w), e |-> ERef(EV("ow"), FALSE)], [p |-> PRecO(n, w), e |-> EV("d1")], [p |-> PTup(<<n, w>>), e |-> EAtt(EV("d2"), "t")]>>)
        \o <<[p |-> PSome(n), e |-> EV("o1")], [p |-> PNone, e |-> EV("o1")], [p |-> PInt(1), e |-> EV("k1")],
          [p |-> PStr("a"), e |-> EV("m1")], [p |-> PEnum("B", <<n>>), e |-> EV("e1")], [p |-> PEnum("C", <<n, s>>), e |-> EV("e1")],
          [p |-> POr(<<PEnum("B", <<n>>), PEnum("C", <<n, PWild>>)>>), e |-> EV("e1")], [p |-> PRec(PName("n"), s), e |-> EV("d0")], [p |-> PRecK(IF P.kw /\ Roll(sd, 58, 2) = 0 THEN PName("type") ELSE n, s), e |-> EV("d0")],
          [p |-> POk(n), e |-> EV("r1")], [p |-> PTup(<<PInt(2), PSome(n)>>), e |-> ETup(<<EV("k1"), EV("o1")>>)] >>, sd, 55)
\* a scrutinee with an operator
OpPlan(g0, sd, chain) ==
  LET g == NoProbe(g0)  x == GI(1, H(sd, 120), g)  y == GI(1, H(sd, 121), g)
      cmp == EBin(PickQ(<<"==", "!=", "<", "<=", ">", ">=">>, sd, 122), x, y)
      k == EBin(PickQ(<<"+", "-", "*", "%">>, sd, 123), IF Roll(sd, 124, 2) = 0 THEN EV("k1") ELSE ESelf("k1"), EI(1 + Roll(sd, 125, 2)))
      ps == <<[e |-> cmp, a |-> <<PBool(TRUE), PBool(FALSE)>>], [e |-> cmp, a |-> <<PBool(FALSE), PElse>>], [e |-> EUn("!", EPar(cmp)), a |-> <<PBool(TRUE), PWild>>],
              [e |-> k, a |-> <<PInt(0), POr(<<PInt(2), PInt(4)>>), PElse>>], [e |-> k, a |-> <<POr(<<PInt(1), PInt(3)>>), PWild>>]>> IN
  PickQ(ps \o If(~chain, <<[e |-> EBin(PickQ(<<"&&", "||">>, sd, 126), cmp, EV("b0")), a |-> <<PBool(TRUE), PElse>>]>>), sd, 127)
Scrut(e, g, sd) == IF "probe" \in g.ft /\ e.k = "v" /\ e.n \in {"k1", "b0"} THEN EPr("x", H(sd, 3), e) ELSE e

ForSrc(au, P, sd) ==
  LET n == PName(Binder(au, P, "n", sd))  s == PName(Binder(au, P, "s", sd))  w == PName(Binder(au, P, "w", sd))
      br == BarAt(au.st, Len(au.st))  ys == Cat(au.st, "vl", IF br = 0 THEN 1 ELSE br)  js == Cat(au.st, "vj", IF br = 0 THEN 1 ELSE br)
      z == "z" \o ToString(Len(au.st) + 1) \o (IF Role(au).kind = "incm" THEN "i" ELSE IF MacAt(au.st, Len(au.st)) = 0 THEN "" ELSE au.st[MacAt(au.st, Len(au.st))].n) IN
  PickQ((IF ys = <<>> THEN <<>> ELSE <<[p |-> w, e |-> EV(PickQ(ys, sd, 56))], [p |-> w, e |-> EV(PickQ(ys, sd, 56))], [p |-> w, e |-> EV(PickQ(ys, sd, 56))]>>)
     \o (IF js = <<>> THEN <<>> ELSE LET it == [p |-> w, e |-> EAtt(EV(PickQ(js, sd, 56)), "v")] IN <<it, it, it>>)
     \o (IF "own" \notin P.ft THEN <<>> ELSE
        <<[p |-> PName("j1"), e |-> EV("h1")], [p |-> PName("j1"), e |-> EV("h1")], [p |-> w, e |-> EV("v0")], [p |-> PTup(<<n, w>>), e |-> EV("q1")], [p |-> PName("y1"), e |-> EV("u0")], [p |-> PName("y1"), e |-> EV("u0")], [p |-> w, e |-> EAtt(EV("d1"), "v")],
          [p |-> w, e |-> EAtt(EAtt(EV("d2"), "d"), "v")], [p |-> w, e |-> ESelf("v0")], [p |-> w, e |-> EIdx(EV("u0"), EI(0))], [p |-> n, e |-> ESelf("l0")],
          [p |-> PTup(<<PName(z), w>>), e |-> EMth(EMth(EV("v0"), "iter", <<>>), "enumerate", <<>>)], [p |-> PName("y1"), e |-> EMth(EMth(EV("u0"), "iter", <<>>), "rev", <<>>)],
          [p |-> w, e |-> EMth(EMth(EAtt(EV("d1"), "v"), "iter", <<>>), "skip", <<EI(Roll(sd, 58, 2))>>)], [p |-> n, e |-> EFn("lazy", <<EI(Roll(sd, 58, 5))>>)],
          [p |-> n, e |-> EFn("upto", <<EI(Roll(sd, 58, 4))>>)], [p |-> n, e |-> EArr(<<EV("n0"), ESelf("n2"), ESelf("n1")>>)], [p |-> n, e |-> EArr(<<EV("n0")>>)],
          [p |-> PName(z), e |-> ERng(EI(Roll(sd, 58, 3)), EV("k1"), Roll(sd, 60, 2) = 0)]>>)
     \o <<[p |-> n, e |-> EV("l0")], [p |-> n, e |-> EV("f0")], [p |-> s, e |-> EV("m0")], [p |-> n, e |-> EV("l0")], [p |-> s, e |-> EV("m0")],
          [p |-> PName(z), e |-> ERng(EI(Roll(sd, 58, 3)), EI(Roll(sd, 59, 4)), Roll(sd, 60, 2) = 0)],
          [p |-> PTup(<<n, s>>), e |-> EV("p1")], [p |-> PTup(<<n, PWild>>), e |-> EV("p1")] >>, sd, 57)

IntArgE(sd) == EI(Roll(sd, 61, 6))
MkFs(sd, P) ==
  LET f(k) == LET n == PickQ(TextFilters, sd, 61 + k) IN IF Roll(sd, 65 + k, 12) = 0 THEN [f |-> "fmt", as |-> <<>>] ELSE [f |-> n, as |-> IF HasArg(n) THEN <<EI(Roll(sd, 71 + k, 9))>> ELSE <<>>] IN
  LET fs == [k \in 1..(1 + Roll(sd, 60, 2)) |-> f(k)]
      \* a filter whose argument is an expression, itself maybe with a filter
      x == [f |-> "pre", as |-> <<PickQ(<<EV("s0"), ES("<"), EFlt("upper", EV("s0"), <<>>), EFlt("pre", ES("a"), <<EFlt("wrap", EV("s0"), <<>>)>>)>>, sd, 83)>>] IN
  (CASE Roll(sd, 82, 6) = 0 -> <<x>> \o fs [] Roll(sd, 82, 6) = 1 -> fs \o <<x>> [] OTHER -> fs)
   \o (CASE Roll(sd, 81, 6) = 0 -> <<[f |-> "safe", as |-> <<>>]>> [] Roll(sd, 81, 6) = 1 -> <<[f |-> "escape", as |-> <<>>]>>
         [] Roll(sd, 81, 6) = 2 -> <<[f |-> "escape", as |-> <<ES("none")>>]>>
         \* what a filter after it returns is as unsafe as any
         [] Roll(sd, 81, 6) = 3 -> <<[f |-> PickQ(<<"safe", "escape">>, sd, 84), as |-> <<>>], [f |-> PickQ(<<"wrap", "upper", "trim", "linebreaks">>, sd, 85), as |-> <<>>]>> [] OTHER -> <<>>)

\* macros: [n, ps]
Catalogue == << [n |-> "m1", ps |-> <<>>], [n |-> "m2", ps |-> <<"n7">>], [n |-> "m3", ps |-> <<"s7">>],
                [n |-> "m4", ps |-> <<"n1", "n2">>], [n |-> "m5", ps |-> <<"n2", "s1">>], [n |-> "m6", ps |-> <<"b7", "n7", "s7">>],
                [n |-> "m7", ps |-> <<"s2", "s1", "n3">>], [n |-> "m8", ps |-> <<"b7">>] >>
SArg(g, sd) == LET a == LeafS(sd, [g EXCEPT !.lp = FALSE]) IN IF Roll(sd, 94, 3) = 0 THEN EFlt("wrap", a, <<>>) ELSE a
ArgE(au, P, p, sd) ==
  LET g == GAt(au, P)  d == IF Roll(sd, 91, 2) = 0 THEN 0 ELSE 1 IN
  \* (the position in the loop of the caller, not in one of the macro's own)
  CASE g.lp /\ "loop" \in g.ft /\ Ch(p, 1) = "b" /\ Roll(sd, 94, 2) = 0 -> ELp(PickQ(<<"first", "last">>, sd, 95))
    [] Ch(p, 1) = "n" -> GI(d, sd, g) [] Ch(p, 1) = "s" -> SArg(g, sd) [] Ch(p, 1) = "b" -> GB(d, sd, g)
ArgE0(au, P, p, sd) == CASE Ch(p, 1) = "n" -> GI(1, sd, NoProbe(GAt(au, P))) [] Ch(p, 1) = "s" -> SArg(GAt(au, P), sd)
                         [] Ch(p, 1) = "b" -> GB(0, sd, NoProbe(GAt(au, P)))
MkCall(au, P, m, sd) ==      \* m = [scope, n, ps]
  LET np == Len(m.ps)  named == np > 0 /\ Roll(sd, 92, 3) = 0 IN
  IF ~named THEN TCall(m.scope, m.n, [j \in 1..np |-> [n |-> "", e |-> ArgE(au, P, m.ps[j], H(sd, 100 + j))]])
  ELSE LET k == Roll(sd, 93, np)            \* that many positional, the rest by name, backwards
       IN TCall(m.scope, m.n, [j \in 1..np |-> IF j <= k THEN [n |-> "", e |-> ArgE0(au, P, m.ps[j], H(sd, 100 + j))]
             ELSE LET q == np - (j - k - 1) IN [n |-> m.ps[q], e |-> ArgE0(au, P, m.ps[q], H(sd, 100 + q))]])

\* ---- files: kinds of roles --------------------------------------------------
\* an "iroot" is included and has blocks, an "ichild" is included and extends one, an "incm" may be included by macros
Derived == {"mid", "child", "ichild"}
Includable(au) == IF MacAt(au.st, Len(au.st)) # 0 THEN {"incm"} ELSE {"inc", "iroot", "ichild", "incm"}
\* ---- paths ----------------------------------------------------------------
All(au) == [files |-> au.all, dirs |-> au.dirs]
Targets(au, kinds) == SelectSeq(au.rel, LAMBDA rp :
   LET t == Resolve(All(au), Role(au).path, rp) IN t # "" /\ t \in DOMAIN au.files /\ au.all[t] \in kinds)

\* macros that may be called here: imported ones, and those of this file, in a macro only the earlier ones
RECURSIVE UpTo(_, _, _)
UpTo(ms, n, i) == IF i > Len(ms) \/ ms[i].n = n THEN <<>> ELSE <<ms[i]>> \o UpTo(ms, n, i + 1)
BlockNames == <<"ba", "bb", "bc", "bd">>
Idx(n) == CHOOSE j \in 1..4 : BlockNames[j] = n
RECURSIVE BlkIdx(_, _)
BlkIdx(st, j) == IF j = 0 THEN 0 ELSE IF st[j].k = "blk" THEN Idx(st[j].n) ELSE BlkIdx(st, j - 1)
\* the macros and imports of the base template, which its descendants may use in their blocks
MacsIn(ts, sc) == LET ms == SelectSeq(ts, LAMBDA t : t.k = "macro") IN [j \in 1..Len(ms) |-> [scope |-> sc, n |-> ms[j].n, ps |-> ms[j].ps]]
RECURSIVE ImpMacs(_, _, _, _)
ImpMacs(au, b, im, j) == IF j > Len(im) THEN <<>>
  ELSE MacsIn(au.files[Resolve(All(au), b, im[j].p)], im[j].scope) \o ImpMacs(au, b, im, j + 1)
Inherited(au) ==
  LET bs == {p \in DOMAIN au.files : au.all[p] = "base"} IN
  IF Role(au).kind \notin {"mid", "child"} \/ MacAt(au.st, Len(au.st)) # 0 \/ BlkIdx(au.st, Len(au.st)) = 0 \/ bs = {} THEN <<>>
  ELSE LET b == CHOOSE p \in bs : TRUE  ts == au.files[b]  im == SelectSeq(ts, LAMBDA t : t.k = "imp") IN
       MacsIn(ts, "") \o ImpMacs(au, b, im, 1)
Callable(au) ==
  LET m == MacAt(au.st, Len(au.st))  own == IF m = 0 THEN Role(au).macs ELSE UpTo(Role(au).macs, au.st[m].n, 1) IN
  au.imps \o [j \in 1..Len(own) |-> [scope |-> "", n |-> own[j].n, ps |-> own[j].ps]] \o Inherited(au) \o Inherited(au)

FreeBlocks(au) == LET lo == BlkIdx(au.st, Len(au.st))  chn == Role(au).kind \in Derived IN
  SelectSeq(BlockNames, LAMBDA n : Idx(n) > lo /\ n \notin au.bl /\ (~chn \/ au.st # <<>> \/ n \in au.bls))
OnlyBlocks(st) == \A j \in 1..Len(st) : st[j].k = "blk"
HasBlk(st) == InK(st, "blk", Len(st))

\* ---- which tags may come next, with their weights ---------------------------
Body(au) == \/ Role(au).kind \in {"main", "inc", "incm", "base", "iroot"}
            \/ au.st # <<>>
W(P, k) == IF k \in DOMAIN P.w THEN P.w[k] ELSE 0
Kinds ==  <<"text", "expr", "com", "raw", "if", "elif", "else", "for", "forelse", "match", "arm", "let", "lettup", "defer", "blk",
            "call", "super", "inc", "flt", "brk", "cont", "close", "eof", "head", "tail", "junk">>
Enabled(au, P, k) ==
  LET top == TopK(au)  go == au.fuel > 0 /\ Body(au) /\ au.hd = <<>>  deep == Len(au.st) < P.nest IN
  CASE k = "head" -> au.hd # <<>> /\ au.st = <<>>
    [] k = "text" -> Body(au) /\ (au.hd = <<>> \/ au.st # <<>>) /\ LastK(au) # "t" /\ au.fuel > 0
    [] k = "expr" -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>)
    [] k = "com" -> au.fuel > 0 /\ LastK(au) # "ext"
    [] k = "raw" -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>)
    [] k \in {"if", "for", "match", "flt"} -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>) /\ deep
    [] k = "elif" -> top = "if" /\ ~Last(au.st).els
    [] k = "else" -> top = "if" /\ ~Last(au.st).els
    [] k = "forelse" -> top = "for" /\ ~Last(au.st).els
    [] k = "arm" -> top = "match" /\ Last(au.st).arms # <<>>
    [] k \in {"let", "lettup"} -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>)
    [] k = "defer" -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>)
    [] k = "blk" -> go /\ ~InK(au.st, "mac", Len(au.st)) /\ Role(au).kind \notin {"inc", "incm"} /\ deep /\ FreeBlocks(au) # <<>>
                    /\ (~P.frags \/ OnlyBlocks(au.st) \/ ~HasBlk(au.st)) /\ (~P.frags \/ ~InK(au.st, "flt", Len(au.st)))
    [] k = "blkc" -> FALSE
    [] k = "call" -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ au.st # <<>>) /\ Callable(au) # <<>>
    [] k = "super" -> go /\ (~P.frags \/ OnlyBlocks(au.st)) /\ BlkIdx(au.st, Len(au.st)) # 0 /\ BlockNames[BlkIdx(au.st, Len(au.st))] \in au.bls
    [] k = "inc" -> au.fuel > 0 /\ Body(au) /\ (au.hd = <<>> \/ MacAt(au.st, Len(au.st)) # 0) /\ Role(au).kind # "incm" /\ Targets(au, Includable(au)) # <<>>
    [] k \in {"brk", "cont"} -> au.fuel > 0 /\ BreakAt(au.st, Len(au.st))
    [] k = "close" -> au.st # <<>> /\ (top # "match" \/ Last(au.st).arms = <<>>)
    [] k = "junk" -> au.fuel > 0 /\ au.st = <<>> /\ au.hd = <<>> /\ Role(au).kind \in Derived /\ LastK(au) # "t"
    [] k = "tail" -> au.st = <<>> /\ au.hd = <<>> /\ au.fuel <= 0 /\ au.tl # <<>>
    [] k = "eof" -> au.st = <<>> /\ au.hd = <<>> /\ au.fuel <= 0 /\ au.tl = <<>>
\* blocks may be opened at the top level of a derived file although its text is not rendered
EnabledX(au, P, k) == IF k = "blk" /\ Role(au).kind \in Derived /\ au.st = <<>>
  THEN au.fuel > 0 /\ au.hd = <<>> /\ FreeBlocks(au) # <<>>
  ELSE Enabled(au, P, k)

Weight(au, P, k) ==
  IF ~EnabledX(au, P, k) THEN 0
  ELSE CASE k \in {"head", "eof", "tail"} -> 1000
         [] k = "arm" -> IF au.fuel <= 0 THEN 100 ELSE 6
         [] k = "close" -> IF au.fuel <= 0 THEN 1000 ELSE P.w["close"]
         [] k \in {"elif", "else", "forelse"} -> IF au.fuel <= 0 THEN 0 ELSE W(P, k)
         [] k = "junk" -> 2
         [] k = "blk" /\ Role(au).kind \in Derived /\ au.st = <<>> -> 12
         [] OTHER -> W(P, k)
RECURSIVE SumW(_, _, _), PickW(_, _, _, _)
SumW(au, P, i) == IF i > Len(Kinds) THEN 0 ELSE Weight(au, P, Kinds[i]) + SumW(au, P, i + 1)
PickW(au, P, i, n) == LET w == Weight(au, P, Kinds[i]) IN IF n < w THEN Kinds[i] ELSE PickW(au, P, i + 1, n - w)
\* nothing more can be written although fuel is left
Stuck(au, P) == SumW(au, P, 1) = 0
PickKind(au, P, sd) == PickW(au, P, 1, H(sd, 7) % SumW(au, P, 1))

OpenMacro(au, P, m, sd) ==
  LET fr == [Opened("mac", m.ps) EXCEPT !.n = m.n] IN
  [Put(au, <<Mk(TMacro(m.n, m.ps), sd, P)>>) EXCEPT !.st = Append(@, fr), !.fuel = P.macfuel]

Do(au, P, k, sd) ==
  LET g == GAt(IF k = "elif" THEN [au EXCEPT !.st = Append(Front(@), Clear(Last(@)))] ELSE au, P)  d == P.d  m(t) == Mk(t, sd, P)  top == TopK(au) IN
  CASE k = "text" -> Put(au, <<TText(MkText(sd, P, au.syn))>>)
    [] k = "expr" ->
         \* now and then what stands just before: it is evaluated anew
         LET n == Len(au.ts)  same == {j \in {n - 1, n} : j > 0 /\ au.ts[j].k = "e" /\ (j = n \/ au.ts[n].k = "t")} IN
         Spend(au, <<m(TExpr(IF same # {} /\ Roll(sd, 11, 5) = 0 THEN au.ts[CHOOSE j \in same : \A i \in same : i <= j].e
                             ELSE GX(d, sd, IF P.ft \cap {"fail", "failv"} = {} THEN g ELSE NoProbe(g))))>>)
    [] k = "com" -> Spend(au, <<m(TComment(CommentBody(sd, au.syn)))>>)
    [] k = "raw" -> LET b == RawBody(sd, au.syn) IN
         Spend(au, <<m(TTag("raw"))>> \o If(b # "", <<TText(b)>>) \o <<Mk(TTag("endraw"), H(sd, 9), P)>>)
    [] k \in {"if", "elif"} ->
         LET lp == Roll(sd, 5, 4) = 0 /\ P.pats  q0 == LetPats(au, P, sd)  q1 == OpPlan(g, sd, TRUE)  q == IF Roll(sd, 128, 6) = 0 /\ "cmp" \in P.ft THEN [p |-> q1.a[1], e |-> q1.e] ELSE q0
             t == IF lp THEN TIf(k, <<q.p>>, Scrut(q.e, g, sd), Roll(sd, 6, 2) = 0) ELSE TIf(k, <<>>, GB(d, sd, g), Roll(sd, 6, 2) = 0)
             ns == IF lp THEN PNamesOf(q.p) ELSE <<>> IN
         IF k = "if" THEN Open(au, <<m(t)>>, Opened("if", ns))
         ELSE [Spend(au, <<m(t)>>) EXCEPT !.st = Append(Front(@), Opened("if", ns))]
    [] k = "else" -> [Put(au, <<m(TTag("else"))>>) EXCEPT !.st = Append(Front(@), [Clear(Last(@)) EXCEPT !.els = TRUE])]
    [] k = "for" ->
         LET q == ForSrc(au, P, sd)  ns == PNamesOf(q.p)
             gc == NoProbe(GAt([au EXCEPT !.st = Append(@, Binding([Fresh("if") EXCEPT !.els = FALSE], ns))], P))
             ni == SelectSeq(ns, IsInt)
             c == IF ni # <<>> /\ Roll(sd, 5, 100) < P.forif \div 2
                  THEN <<EBin(PickQ(<<"<", ">", "!=", ">=", "<=">>, sd, 62), EV(ni[1]), EI(Roll(sd, 63, 6)))>>
                  ELSE IF Roll(sd, 5, 100) < P.forif THEN <<GB(1, sd, [gc EXCEPT !.ft = (@ \ {"try", "fail", "filter"}) \union {"nofl"}])>> ELSE <<>> IN
         LET a1 == Open(au, <<m(TFor(q.p, q.e, c))>>, Opened("for", ns))
             ps == SelectSeq(g.b \o g.i, LAMBDA v : v \in {"b7", "n7"} /\ \A j \in 1..Len(ns) : ns[j] # v) IN
         \* a parameter in a loop of the macro means what the caller passed
         IF ps # <<>> /\ Roll(sd, 7, 2) = 0 THEN Put(a1, <<m(TExpr(EV(ps[1])))>>) ELSE a1
    [] k = "forelse" -> [Put(au, <<m(TTag("forelse"))>>) EXCEPT !.st = Append(Front(@), [Clear(Last(@)) EXCEPT !.els = TRUE])]
    [] k = "match" ->
         LET q == IF Roll(sd, 128, 6) = 0 /\ "cmp" \in P.ft THEN OpPlan(g, sd, FALSE) ELSE ArmPlans(au, P, sd)  a == q.a[1]
             mid == CASE Roll(sd, 6, 3) = 0 -> <<>> [] Roll(sd, 6, 3) = 1 -> <<TText(" \n ")>> [] OTHER -> <<m(TComment(" c "))>> IN
         Open(au, <<m(TMatch(Scrut(q.e, g, sd)))>> \o mid \o <<Mk(TWhen(a), H(sd, 9), P)>>,
              [Opened("match", PNamesOf(a)) EXCEPT !.arms = Tail(q.a)])
    [] k = "arm" ->
         LET a == Last(au.st).arms[1]  rest == Tail(Last(au.st).arms) IN
         IF a.k = "else" THEN [Put(au, <<m(TTag("melse"))>>) EXCEPT !.st = Append(Front(@), Clear([Last(@) EXCEPT !.arms = rest]))]
         ELSE [Put(au, <<m(TWhen(a))>>) EXCEPT !.st = Append(Front(@), [Opened("match", PNamesOf(a)) EXCEPT !.arms = rest])]
    [] k = "let" ->
         LET c == PickQ(<<"n", "n", "s", "b">>, sd, 5)  n == Binder(au, P, c, sd)
             e == CASE c = "n" -> GI(d, sd, g) [] c = "s" -> LeafS(sd, CopyS(au, g)) [] c = "b" -> GB(d, sd, g) IN
         \* in a file that macros include, the name may be that of a parameter of the macro
         Bound(Spend(au, <<m(TLet(PName(n), e, Roll(sd, 6, 2) = 0))>> \o If(Role(au).kind = "incm" /\ c # "b", <<TExpr(EV(n))>>)), <<n>>)
    [] k = "lettup" ->
         LET n == Binder(au, P, "n", sd)  s == Binder(au, P, "s", sd) IN
         Bound(Spend(au, <<m(TLet(PTup(<<PName(n), PName(s)>>),
                                   ETup(<<GI(1, sd, g), EV(PickQ(CopyS(au, g).s, sd, 6))>>), Roll(sd, 7, 2) = 0))>>), <<n>>)
    [] k = "defer" ->      \* declare, then assign in both branches of an if
         LET n == IF au.kws # <<>> /\ au.kws[3] \notin {g.i[j] : j \in 1..Len(g.i)} THEN au.kws[3] ELSE "nd" \o ToString(Len(au.ts))
             v1 == EBin("+", EV("n0"), EI(Roll(sd, 8, 4)))  v2 == EBin("*", EV("n0"), EI(Roll(sd, 9, 4)))
             x == TText(" ") IN
         Bound(Spend(au, <<m(TDecl(n)), TIf("if", <<>>, GB(0, sd, g), FALSE), TLet(PName(n), v1, FALSE), TExpr(EV(n)), TTag("else"), x,
                           TLet(PName(n), v2, FALSE), TTag("endif")>>), <<n>>)
    [] k = "blk" ->
         LET n == PickQ(FreeBlocks(au), sd, 5) IN
         [Open(au, <<m(TBlock(n))>>, [Fresh("blk") EXCEPT !.n = n]) EXCEPT !.bl = @ \union {n}]
    [] k = "call" -> Spend(au, <<m(MkCall(au, P, PickQ(Callable(au), sd, 5), sd))>>)
    [] k = "super" -> Spend(au, <<m(TSuper)>>)
    [] k = "inc" -> Spend(au, <<m(TInc(PickQ(Targets(au, Includable(au)), sd, 5)))>>)
    [] k = "flt" -> Open(au, <<m(TFilter(MkFs(sd, P)))>>, Fresh("flt"))
    [] k \in {"brk", "cont"} ->
         IF Roll(sd, 5, 6) = 0 /\ top # "for" THEN Spend(au, <<m(TTag(k))>>)
         ELSE Spend(au, <<m(TIf("if", <<>>, GB(d, sd, g), FALSE))>> \o If(Roll(sd, 6, 2) = 0, <<TText(" q")>>) \o <<m(TTag(k)), Mk(TTag("endif"), H(sd, 9), P)>>)
    [] k = "close" ->
         LET fr == Last(au.st)
             t == CASE fr.k = "if" -> TTag("endif") [] fr.k = "for" -> TTag("endfor") [] fr.k = "match" -> TTag("endmatch")
                    [] fr.k = "flt" -> TTag("endfilter") [] fr.k = "blk" -> TEndBlock(IF Roll(sd, 5, 2) = 0 THEN "" ELSE fr.n)
                    [] fr.k = "mac" -> TEndMacro(IF Roll(sd, 5, 2) = 0 THEN "" ELSE fr.n)
             a1 == [Put(au, <<m(t)>>) EXCEPT !.st = Front(@)] IN
         IF fr.k = "mac" THEN [a1 EXCEPT !.fuel = IF au.intail THEN 0 ELSE Role(au).fuel] ELSE a1
    [] k = "junk" -> Spend(au, <<TText(PickQ(<<" junk ", "\n", "<j>", "\n\n">>, sd, 5))>>)
    [] k = "head" ->
         LET h == au.hd[1]  a1 == [au EXCEPT !.hd = Tail(@)] IN
         (CASE h.k = "ext" -> Put(a1, <<TExt(h.p)>>)
            [] h.k = "imp" -> [Put(a1, <<m(TImp(h.p, h.scope))>>) EXCEPT
                 !.imps = @ \o [j \in 1..Len(h.macs) |-> [scope |-> h.scope, n |-> h.macs[j].n, ps |-> h.macs[j].ps]]]
            [] h.k = "mac" -> OpenMacro(a1, P, h.m, sd))
    [] k = "tail" -> [OpenMacro(au, P, au.tl[1], sd) EXCEPT !.tl = Tail(@), !.intail = TRUE]

\* ---- beginning and finishing a file -----------------------------------------
\* role: [path, kind, fuel, macs (its own, in order), tailed (how many of them come last), ext, imps: [p, scope, macs]]
Begin(au) ==
  LET r == au.roles[1]  nh == Len(r.macs) - r.tailed IN
  [au EXCEPT !.ts = <<>>, !.st = <<>>, !.fuel = r.fuel, !.bl = {}, !.imps = <<>>, !.ti = <<>>, !.intail = FALSE,
             !.bls = IF r.kind \in Derived THEN @ ELSE {},
             !.hd = (IF r.ext = "" THEN <<>> ELSE <<[k |-> "ext", p |-> r.ext]>>)
                    \o [j \in 1..Len(r.imps) |-> [k |-> "imp", p |-> r.imps[j].p, scope |-> r.imps[j].scope, macs |-> r.imps[j].macs]]
                    \o [j \in 1..nh |-> [k |-> "mac", m |-> r.macs[j]]],
             !.tl = SubSeq(r.macs, nh + 1, Len(r.macs))]
NewAu(roles, dirs, rel) ==
  [files |-> EmptyF, roles |-> roles, ts |-> <<>>, st |-> <<>>, fuel |-> 0, bl |-> {}, bls |-> {}, hd |-> <<>>, tl |-> <<>>, imps |-> <<>>, ti |-> <<>>, intail |-> FALSE, kws |-> <<>>, syn |-> DefaultSyn,
   all |-> [p \in {roles[j].path : j \in 1..Len(roles)} |-> roles[CHOOSE j \in 1..Len(roles) : roles[j].path = p].kind],
   dirs |-> dirs, rel |-> rel]
\* the line breaks at the end of a file
EndBreaks(ts, P, sd) ==
  LET e == PickQ(IF P.text = "plain" THEN <<"", "", "\n">> ELSE <<"", "\n", "\n", "\n\n", "\r\n", " \n", "\n ", "\n\n\n">>, sd, 6) IN
  IF e = "" THEN ts
  ELSE IF ts = <<>> \/ Last(ts).k # "t" THEN Append(ts, TText(e))
  ELSE [ts EXCEPT ![Len(ts)].s = @ \o e]
CloseFile(au, P, sd) ==
  LET r == au.roles[1]
      a1 == [au EXCEPT !.files = (r.path :> EndBreaks(au.ts, P, sd)) @@ @, !.roles = Tail(@),
                       !.bls = IF r.kind \in Derived \union {"base", "iroot"} THEN @ \union au.bl ELSE @] IN
  IF a1.roles = <<>> THEN a1 ELSE Begin(a1)
=============================================================================
