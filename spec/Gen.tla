--------------------------------- MODULE Gen ---------------------------------
(* A deterministic generator of well-typed expressions: Gen(type, depth,    *)
(* seed, g).  g = [i, s, b, z, lp, ft]: the names in scope of the types     *)
(* integer, string, bool and loop counter; whether a loop encloses the      *)
(* place; and the set of the expression features to use.                    *)
EXTENDS Expr

\* pseudo-random numbers: cubes modulo a prime, which mix well (linear steps would tie the choices of one seed together)
HP == 46337
Cube(a) == (((a * a) % HP) * a) % HP
H(sd, salt) == Cube((Cube((sd + salt * 7919) % HP) * 17364 + salt * 31 + 9277) % HP)
Roll(sd, salt, n) == (H(sd, salt) \div 5) % n
PickQ(q, sd, salt) == q[Roll(sd, salt, Len(q)) + 1]

EI(i) == [k |-> "i", i |-> i]
ES(s) == [k |-> "s", s |-> s]
EB(b) == [k |-> "b", b |-> b]
EV(n) == [k |-> "v", n |-> n]
EPar(a) == [k |-> "par", a |-> a]
EUn(op, a) == [k |-> "un", op |-> op, a |-> a]
EBin(op, a, c) == [k |-> "bin", op |-> op, a |-> a, c |-> c]
EFlt(f, a, as) == [k |-> "flt", f |-> f, a |-> a, as |-> as]
EPr(ty, id, a) == [k |-> "pr", ty |-> ty, id |-> id, a |-> a]
ELp(w) == [k |-> "lp", w |-> w]
ECyc(as) == [k |-> "cyc", as |-> as]
ETry(a) == [k |-> "try", a |-> a]
EMth(a, m, as) == [k |-> "mth", a |-> a, m |-> m, as |-> as]
EAtt(a, f) == [k |-> "att", a |-> a, f |-> f]
EIdx(a, c) == [k |-> "idx", a |-> a, c |-> c]
ELit(s, v) == [k |-> "lit", s |-> s, v |-> v]
ESelf(n) == [k |-> "slf", n |-> n]
ERef(a, d) == [k |-> "ref", a |-> a, d |-> d]
EFn(f, as) == [k |-> "fn", f |-> f, as |-> as]
EFm(m, ps, as) == [k |-> "fm", m |-> m, ps |-> ps, as |-> as]
ETup(as) == [k |-> "tup", as |-> as]
EArr(as) == [k |-> "arr", as |-> as]
ERng(a, c, inc) == [k |-> "rng", a |-> a, c |-> c, inc |-> inc]

At(js, f) == [k \in 1..Len(js) |-> EAtt(EV(js[k]), f)]      \* an attribute of the structs in scope
If(c, q) == IF c THEN q ELSE <<>>
Words == <<"a", "B c", "x<y", "&", "q\"'", "é", " pad ", "Zz", "{{", "%}", "日本", "">>
Seps == <<",", " ", "-", "<">>
TextFilters == <<"upper", "lower", "trim", "capitalize", "title", "wrap", "truncate", "center", "lowercase", "uppercase", "indent", "wordcount", "linebreaks", "linebreaksbr", "paragraphbreaks", "urlencode", "urlencode_strict">>

\* literals in all their spellings; those of integers that operators take, and others
IntLits == <<ELit("0x1F", VI(31)), ELit("0b1_01", VI(5)), ELit("0o17", VI(15)), ELit("1_0", VI(10)), ELit("3i32", VI(3)), ELit("0xai32", VI(10)), ELit("crate::hk::K", VI(42)), ELit("2__i32", VI(2))>>
Lits == IntLits \o
  << ELit("1.5", VS("1.5")), ELit("2.0", VS("2")), ELit("1e3", VS("1000")), ELit("25E-1", VS("2.5")), ELit("1_0.2_5", VS("10.25")), ELit("0.5f32", VS("0.5")), ELit("3f64", VS("3")), ELit("1.5e+1f64", VS("15")),
     ELit("7u8", VS("7")), ELit("0xFFu64", VS("255")), ELit("12usize", VS("12")), ELit("-128i8", VS("-128")), ELit("9_000i128", VS("9000")), ELit("0b11i16", VS("3")),
     ELit("'a'", VS("a")), ELit("'\\''", VS("'")), ELit("'\"'", VS("\"")), ELit("'\\n'", VS("\n")), ELit("'\\\\'", VS("\\")), ELit("'<'", VS("<")), ELit("'é'", VS("é")), ELit("'\\x41'", VS("A")), ELit("'\\u{e9}'", VS("é")), ELit("'\\u{65E5}'", VS("日")), ELit("' '", VS(" ")),
     ELit("\"\\x41\\u{65e5}\\t.\"", VS("A日\t.")), ELit("\"\\'\\\"<\"", VS("'\"<")), ELit("\"a\nb\"", VS("a\nb")), ELit("\"a\\\n   b\"", VS("ab")), ELit("\"{}\"", VS("{}")), ELit("\"\\\\\"", VS("\\")),
     ELit("u8::MAX", VS("255")), ELit("std::i32::MIN", VS("-2147483648")), ELit("crate::hk::deep::TEXT", VS("<t>")), ELit("::std::primitive::u8::MIN", VS("0")),
     ELit("concat!(\"a<\", 1, true)", VS("a<1true")), ELit("format!(\"{}-{}\", 1 + 1, \"&\")", VS("2-&")), ELit("format!(\"({})\", ((1 + 2) * 2))", VS("(6)")) >>

RECURSIVE GI(_, _, _), GS(_, _, _), GB(_, _, _), GF(_, _, _)

LeafI(sd, g) ==
  LET c == If(g.i # <<>>, <<"v", "v", "v">>) \o <<"n">> \o If(g.z # <<>> /\ "nofl" \notin g.ft, <<"z">>)
           \o If(g.lp /\ "loop" \in g.ft /\ "nofl" \notin g.ft, <<"lp">>)
           \o If("attr" \in g.ft, <<"att">> \o If("probe" \in g.ft, <<"atp", "atk">>)) \o If("idx" \in g.ft /\ "nofl" \notin g.ft, <<"idx", "idv">> \o If("probe" \in g.ft, <<"idp">>))
           \o If("lit" \in g.ft, <<"lit">>) \o If("self" \in g.ft, <<"slf">>) \o If("own" \in g.ft, <<"ato">>) \o If("fn" \in g.ft, <<"fn">>)
      w == PickQ(c, sd, 1) IN
  CASE w = "v" -> EV(PickQ(g.i, sd, 2))
    [] w = "n" -> EI(Roll(sd, 2, 5))
    [] w = "z" -> EFlt("plus", EV(PickQ(g.z, sd, 2)), <<EI(Roll(sd, 3, 2))>>)
    [] w = "lp" -> EFlt("plus", ELp(PickQ(<<"index", "index0">>, sd, 2)), <<EI(0)>>)
    [] w = "att" -> PickQ(<<EAtt(EV("d0"), "n"), EAtt(EV("d0"), "type"), EAtt(ESelf("d0"), "type")>>, sd, 2)
    [] w = "atp" -> EAtt(EPr("x", H(sd, 4), PickQ(<<EV("d0"), ESelf("d0")>> \o If("own" \in g.ft, <<EV("d1"), EAtt(EV("d2"), "d")>>), sd, 2)), "n")
    [] w = "atk" -> EAtt(EPr("x", H(sd, 4), EV("d0")), "type")
    [] w = "lit" -> PickQ(IntLits, sd, 2)
    [] w = "slf" -> ESelf(PickQ(<<"n0", "n1", "n2", "n3">> \o SelectSeq(g.i, LAMBDA n : n \in g.kw), sd, 2))
    [] w = "ato" -> PickQ(<<EAtt(EV("d1"), "n"), EAtt(EAtt(EV("d2"), "d"), "n"), EAtt(EAtt(EV("d2"), "t"), "0"), EAtt(EV("t0"), "0"), EAtt(ESelf("d1"), "n")>> \o At(g.j, "n") \o At(g.j, "n"), sd, 2)
    [] w = "fn" -> EFn("h0", <<EV(PickQ(<<"n0">> \o g.i, sd, 2))>>)
    [] w = "idv" -> EFlt("plus", EIdx(EV("f0"), PickQ(<<EV("n0"), ESelf("n1"), EIdx(EV("f0"), EV("n0")), EFlt("inc", EV(PickQ(<<"n0">> \o g.i, sd, 3)), <<>>)>>, sd, 2)), <<EI(0)>>)
    [] w = "idp" -> EFlt("plus", EIdx(EV("f0"), EPr("i", H(sd, 4), EV(PickQ(<<"n0">> \o g.i, sd, 3)))), <<EI(0)>>)
    [] w = "idx" -> EFlt("plus", EIdx(EV("f0"), EI(Roll(sd, 2, 3))), <<EI(0)>>)

GI(d, sd, g) ==
  IF d = 0 THEN LeafI(sd, g)
  ELSE LET c == <<"leaf">> \o If("arith" \in g.ft, <<"+", "-", "*", "/", "%", "neg">>)
                \o If("bits" \in g.ft, <<"&", "|", "^", "<<", ">>", "not">>)
                \o If("filter" \in g.ft, <<"inc", "plus">>) \o If("paren" \in g.ft, <<"par">>)
                \o If("probe" \in g.ft, <<"pr">>) \o If("try" \in g.ft, <<"try">>) \o If("meth" \in g.ft, <<"neg1", "minus">>)
           w == PickQ(c, sd, 1)
           a == GI(d - 1, H(sd, 11), g)
           b == GI(d - 1, H(sd, 12), g) IN
  CASE w = "leaf" -> LeafI(H(sd, 13), g)
    [] w \in {"+", "-", "*", "&", "|", "^"} -> EBin(w, a, b)
    [] w \in {"/", "%"} -> EBin(w, a, EI(1 + Roll(sd, 2, 4)))
    [] w \in {"<<", ">>"} -> EBin(w, a, EI(Roll(sd, 2, 3)))
    [] w = "neg" -> EUn("-", a)
    [] w = "not" -> EUn("!", a)
    [] w = "inc" -> EFlt("inc", a, <<>>)
    [] w = "plus" -> EFlt("plus", a, <<b>>)
    [] w = "par" -> EPar(a)
    [] w = "pr" -> EPr("i", H(sd, 3), a)
    [] w = "neg1" -> EMth(a, w, <<>>)
    [] w = "minus" -> EMth(a, w, <<b>>)
    [] w = "try" -> ETry(EV(PickQ(<<"r1", "r2">>, sd, 2)))

LeafS(sd, g) ==
  LET c == If(g.s # <<>>, <<"v", "v", "v">>) \o <<"l">> \o If("attr" \in g.ft, <<"att">> \o If("probe" \in g.ft, <<"atp">>))
           \o If(g.lp /\ "cycle" \in g.ft, <<"cyc">>) \o If("self" \in g.ft, <<"slf">>) \o If("own" \in g.ft, <<"ato", "ato", "so">>)
      w == PickQ(c, sd, 1) IN
  CASE w = "v" -> EV(PickQ(g.s, sd, 2))
    [] w = "l" -> ES(PickQ(Words, sd, 2))
    [] w = "att" -> PickQ(<<EAtt(EV("d0"), "s"), EAtt(EV("t0"), "1"), EAtt(ESelf("d0"), "s")>>, sd, 2)
    [] w = "atp" -> EAtt(EPr("x", H(sd, 4), PickQ(<<EV("d0"), ESelf("d0")>> \o If("own" \in g.ft, <<EV("d1"), EAtt(EV("d2"), "d")>>), sd, 2)), "s")
    [] w = "slf" -> ESelf(PickQ(<<"s0", "s1", "s2", "s3">>, sd, 2))
    [] w = "so" -> ESelf("w0")
    [] w = "ato" -> PickQ(<<EAtt(EV("d1"), "s"), EAtt(EAtt(EV("d2"), "d"), "s"), EAtt(EAtt(EV("d2"), "t"), "1"), EAtt(ESelf("d1"), "s")>> \o At(g.j, "s") \o At(g.j, "s"), sd, 2)
    [] w = "cyc" -> ECyc([k \in 1..(1 + Roll(sd, 3, 3)) |-> ES(PickQ(Words, sd, 20 + k))])

\* a placeholder for the j-th argument a; format options only for values whose Display obeys them
Slot(a, j, x, sd) ==
  LET int == a.k \in {"i", "bin", "un"}  opt == (int \/ a.k \in {"s", "b", "fm"}) /\ Roll(sd, 1, 3) # 0
      al == PickQ(<<"", "<", ">", "^">>, sd, 2) IN
  [a |-> j, x |-> x, fl |-> IF al = "" THEN " " ELSE PickQ(<<" ", "*", "é", "<">>, sd, 3), al |-> IF opt THEN al ELSE "",
   z |-> opt /\ a.k = "i" /\ Roll(sd, 4, 4) = 0, w |-> IF opt THEN Roll(sd, 5, 7) ELSE 0, pr |-> IF opt /\ ~int /\ Roll(sd, 6, 3) = 0 THEN Roll(sd, 7, 4) ELSE -1]
FormatTexts == <<"", " ", "<", "{", "}", "{}", "\"", "é", "{{", "a\n", "%}", "{0}">>
GF(d, sd, g0) ==
  LET g == [g0 EXCEPT !.ft = @ \ {"join"}]      \* what `join` gives can be displayed only once
      m == PickQ(<<"format", "fmt">>, sd, 1)  n == IF m = "fmt" THEN 1 ELSE Roll(sd, 2, 4)  x == Roll(sd, 3, 3) = 0
      arg(j) == CASE Roll(sd, 20 + j, 4) = 0 -> GI(d, H(sd, 30 + j), g) [] Roll(sd, 20 + j, 4) = 1 -> GB(d, H(sd, 30 + j), g)
                  [] Roll(sd, 20 + j, 4) = 2 -> ES(PickQ(Words, sd, 30 + j)) [] OTHER -> GS(d, H(sd, 30 + j), g)
      as == [j \in 1..n |-> arg(j)]
      txt(j) == [s |-> PickQ(FormatTexts, sd, 40 + j)]
      rot == IF x THEN Roll(sd, 4, 3) ELSE 0
      at(j) == ((j - 1 + rot) % n) + 1
      slot(j) == Slot(as[at(j)], at(j), x, H(sd, 50 + j))
      k == IF x /\ n > 0 THEN n + Roll(sd, 5, 2) ELSE n IN
  EFm(m, [j \in 1..(2 * k + 1) |-> IF j % 2 = 1 THEN txt(j) ELSE slot(j \div 2)], as)

\* a chain of at most d text filters
GS(d, sd, g) ==
  IF d = 0 \/ ~("filter" \in g.ft) THEN LeafS(sd, g)
  ELSE LET c == <<"leaf", "t", "t", "t">> \o If("esc" \in g.ft, <<"safe", "escape", "escn">>)
                \o If("join" \in g.ft, <<"join">>) \o If("fail" \in g.ft, <<"fail">>) \o If("failv" \in g.ft, <<"x", "xf">>)
                \o If("probe" \in g.ft, <<"pr">>) \o If("show" \in g.ft, <<"i">>) \o If("format" \in g.ft, <<"fm">>)
                \o If("own" \in g.ft, <<"gi", "mth", "mth2", "ref">>) \o If("lit" \in g.ft, <<"lit", "litf">>)
           w == PickQ(c, sd, 1)
           a == GS(d - 1, H(sd, 11), g)
           f == PickQ(TextFilters, sd, 2) IN
  CASE w = "leaf" -> LeafS(H(sd, 13), g)
    [] w = "t" -> EFlt(f, a, IF HasArg(f) THEN <<EI(Roll(sd, 3, 7))>> ELSE <<>>)
    [] w = "safe" -> EFlt("safe", a, <<>>)
    [] w = "escape" -> EFlt(PickQ(<<"escape", "e">>, sd, 3), a, <<>>)
    [] w = "escn" -> EFlt("escape", a, <<ES(PickQ(<<"html", "none">>, sd, 3))>>)
    [] w = "gi" -> EIdx(EV("g0"), EI(Roll(sd, 3, 3)))
    [] w = "mth" -> EMth(LeafS(H(sd, 13), g), PickQ(<<"dup", "st">>, sd, 3), <<>>)
    [] w = "mth2" -> EMth(LeafS(H(sd, 13), g), "cat", <<LeafS(H(sd, 16), g)>>)
    [] w = "ref" -> ERef(EV(PickQ(<<"s0", "w0">> \o g.s, sd, 3)), Roll(sd, 4, 2) = 0)
    [] w = "lit" -> PickQ(Lits, sd, 3)
    [] w = "litf" -> EFlt(f, PickQ(Lits, sd, 4), IF HasArg(f) THEN <<EI(Roll(sd, 3, 7))>> ELSE <<>>)
    [] w = "join" -> EFlt("join", PickQ(<<EV("l0"), EV("m0")>> \o If("own" \in g.ft, <<EV("v0"), EAtt(EV("d1"), "v"), ESelf("v0")>> \o At(g.j, "v")), sd, 3), <<ES(PickQ(Seps, sd, 4))>>)
    [] w = "x" -> EV("x0")
    [] w = "xf" -> EFlt(f, EV("x0"), IF HasArg(f) THEN <<EI(Roll(sd, 3, 4))>> ELSE <<>>)
    [] w = "fail" -> EFlt("fail", a, <<EV(PickQ(g.b, sd, 3))>>)
    [] w = "pr" -> EPr("s", H(sd, 3), a)
    [] w = "fm" -> GF(d - 1, H(sd, 15), g)
    [] w = "i" -> EFlt(f, GI(0, H(sd, 14), g), IF HasArg(f) THEN <<EI(Roll(sd, 3, 7))>> ELSE <<>>)

GB(d, sd, g) ==
  IF d = 0
  THEN LET c == If(g.b # <<>>, <<"v", "v", "v">>) \o <<"l">>
                \o If(g.lp /\ "loop" \in g.ft, <<"lp", "lp", "ix">>)
                \o If("self" \in g.ft, <<"slf">>)
           w == PickQ(c, sd, 1) IN
       CASE w = "v" -> EV(PickQ(g.b, sd, 2))
         [] w = "slf" -> ESelf(PickQ(<<"b0", "b1", "b2">>, sd, 2))
         [] w = "l" -> EB(Roll(sd, 2, 2) = 0)
         [] w = "lp" -> ELp(PickQ(<<"first", "last">>, sd, 2))
         [] w = "ix" -> EBin(PickQ(<<"==", "<", ">=">>, sd, 2), ELp(PickQ(<<"index", "index0">>, sd, 3)), EI(Roll(sd, 4, 4)))
  ELSE LET c == <<"leaf">> \o If("logic" \in g.ft, <<"&&", "||", "!">>)
                \o If("cmp" \in g.ft, <<"cmp", "cmp", "cmp", "cmps">>) \o If("paren" \in g.ft, <<"par">>)
                \o If("probe" \in g.ft, <<"pr", "pr">>)
           w == PickQ(c, sd, 1) IN
       CASE w = "leaf" -> GB(0, H(sd, 13), g)
         [] w \in {"&&", "||"} -> EBin(w, GB(d - 1, H(sd, 11), g), GB(d - 1, H(sd, 12), g))
         [] w = "!" -> EUn("!", GB(d - 1, H(sd, 11), g))
         [] w = "cmp" -> EBin(PickQ(<<"==", "!=", "<", "<=", ">", ">=">>, sd, 2), GI(d - 1, H(sd, 11), g), GI(d - 1, H(sd, 12), g))
         [] w = "cmps" -> IF g.s = <<>> THEN EB(TRUE)
                          ELSE EBin(PickQ(<<"==", "!=">>, sd, 2), EV(PickQ(g.s, sd, 3)),
                                    IF Roll(sd, 4, 2) = 0 THEN ES(PickQ(Words, sd, 5)) ELSE EV(PickQ(g.s, sd, 6)))
         [] w = "par" -> EPar(GB(d - 1, H(sd, 11), g))
         [] w = "pr" -> EPr("b", H(sd, 3), GB(d - 1, H(sd, 11), g))

\* an expression of any type to display
GX(d, sd, g) == CASE g.lp /\ "loop" \in g.ft /\ Roll(sd, 30, 5) = 0 -> ELp(PickQ(<<"index", "index0", "first", "last">>, sd, 33))
                  [] Roll(sd, 31, 5) \in {0, 1} -> GI(d, H(sd, 32), g)
                  [] Roll(sd, 31, 5) \in {2, 3} -> GS(d, H(sd, 32), g)
                  [] OTHER -> GB(d, H(sd, 32), g)
=============================================================================
