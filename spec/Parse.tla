--------------------------------- MODULE Parse ---------------------------------
(* C17: texts and what the parser has to make of them.                        *)
(* Groups:                                                                    *)
(*   "expr", "target", "tag"  sentences of the grammar below, derived by      *)
(*        leftmost rewriting: every state is a sentential form.  All must be  *)
(*        accepted.                                                           *)
(*   "lit"   the same for literals, names, Rust macros, comments and raw text, *)
(*        character by character; they have to come out as they went in.      *)
(*   "seq"   every sequence of tags up to a length, with the verdict that     *)
(*        Scan (Valid.tla) gives.                                             *)
(*   "nest"  constructs inside of constructs, with siblings around them:      *)
(*        only the enclosing ones count.                                      *)
EXTENDS Valid, Json
CONSTANTS Group, MaxLen, Sim
VARIABLES form, stage
vars == <<form, stage>>

-----------------------------------------------------------------------------
(* The grammar.  Upper-case names are nonterminals.  "|f" is a filter, which  *)
(* directly follows its operand; "bar" is the bit-or, which does not.         *)
(* @ in front of a terminal: another alternative of the same kind, only taken *)
(* in simulations.                                                            *)
Big == Sim
Pick(small, more) == IF Big THEN small \o more ELSE small
Grammar == [
  X |-> << <<"E">> >> \o Pick(<<>>, << <<"E">>, <<"E">>, <<"E">>, <<"E">>, <<"E">> >>) \o << <<"E", "..", "E">>, <<"E", "..">>, <<"..", "E">>, <<"..">>, <<"E", "..=", "E">>, <<"..=", "E">> >>,
  E |-> << <<"C">>, <<"C", "LOp", "E">> >>,
  C |-> << <<"B">>, <<"B", "COp", "B">> >>,
  B |-> << <<"U">>, <<"U", "AOp", "B">>, <<"V", "bar", "W">> >>,
  W |-> << <<"V">>, <<"V", "bar", "W">> >>,
  U |-> << <<"V", "Fs">> >>,
  V |-> << <<"S">>, <<"Pre", "V">> >>,
  Fs |-> << <<>>, <<"|f", "Fs">>, <<"|g", "(", "As", ")", "Fs">> >>,
  S |-> << <<"Atom", "Sf">> >>,
  Sf |-> << <<>>, <<".", "b", "Sf">>, <<".", "0", "Sf">>, <<"(", "As", ")", "Sf">>, <<"[", "X", "]", "Sf">>, <<"?", "Sf">> >>,
  As |-> << <<>>, <<"Xs">>, <<"Xs", ",">> >>,
  Xs |-> << <<"X">>, <<"X", ",", "Xs">> >>,
  Atom |-> Pick(<< <<"a">>, <<"1">>, <<"[", "As", "]">>, <<"(", "X", ")">>, <<"(", ")">>, <<"(", "X", ",", ")">>, <<"(", "X", ",", "Xs", ")">>, <<"(", "X", ",", "Xs", ",", ")">>, <<"p", "::", "q">> >>,
                << <<"\"s\"">>, <<"'c'">>, <<"true">>, <<"false">>, <<"P">>, <<"::", "p", "::", "q">>, <<"m", "!(", "a + (b, \"s\")", ")">>, <<"p", "::", "m", "!(", ")">>, <<"\"é\\\"{%\"">>, <<"'\\''">>,
                   <<"'\\u{e9}'">>, <<"0x1F">>, <<"0b1_0u8">>, <<"1_000">>, <<"1.5">>, <<"2e-3">>, <<"1.5f32">>, <<"7usize">>, <<"_x">>, <<"é">>, <<"r">>, <<"\"\"">>, <<"or_">>, <<"ifx">>, <<"loop">>, <<"self">> >>),
  LOp |-> << <<"&&">>, <<"||">> >>,
  COp |-> Pick(<< <<"==">>, <<"<">> >>, << <<"!=">>, <<">=">>, <<"<=">>, <<">">> >>),
  AOp |-> Pick(<< <<"-">>, <<"*">>, <<"&">> >>, << <<"+">>, <<"/">>, <<"%">>, <<"^">>, <<"<<">>, <<">>">> >>),
  Pre |-> << <<"!">>, <<"-">> >>,
  \* targets
  T |-> << <<"T1">>, <<"T1", "or", "T">> >>,
  T1 |-> Pick(<< <<"n">>, <<"1">>, <<"(", ")">>, <<"(", "T", ")">>, <<"(", "T", ",", ")">>, <<"(", "T", ",", "Ts", ")">>, <<"(", "T", ",", "Ts", ",", ")">>,
                 <<"P">>, <<"P", "With", "(", "Ta", ")">>, <<"P", "With", "{", "Na", "}">> >>,
              << <<"\"s\"">>, <<"'c'">>, <<"true">>, <<"-1">>, <<"p", "::", "Q">>, <<"p", "::", "Q", "With", "(", "Ta", ")">>, <<"_">>, <<"orn">>, <<"ref_">>, <<"None">> >>),
  Ts |-> << <<"T">>, <<"T", ",", "Ts">> >>,
  With |-> << <<>>, <<"with">> >>,
  Ta |-> << <<>>, <<"Ts">>, <<"Ts", ",">> >>,
  Na |-> << <<>>, <<"Ns">>, <<"Ns", ",">> >>,
  Ns |-> << <<"N">>, <<"N", ",", "Ns">> >>,
  N |-> << <<"f">>, <<"f", ":", "T">> >>,
  \* tags: Body is what stands between them
  Bs |-> Pick(<< <<"{%">> >>, << <<"{%">>, <<"{%">>, <<"{%-">>, <<"{%+">>, <<"{%~">> >>),
  Be |-> Pick(<< <<"%}">> >>, << <<"%}">>, <<"%}">>, <<"-%}">>, <<"+%}">>, <<"~%}">> >>),
  Es |-> Pick(<< <<"{{">> >>, << <<"{{">>, <<"{{~">>, <<"{{-">> >>),
  Ee |-> Pick(<< <<"}}">> >>, << <<"}}">>, <<"~}}">>, <<"-}}">> >>),
  Ex |-> IF Big THEN << <<"X">>, <<"a">> >> ELSE << <<"a">> >>,
  Ef |-> IF Big THEN << <<"E">>, <<"a">> >> ELSE << <<"a">> >>,     \* not `a ..`, which would take the following `if` for a name
  Tg |-> IF Big THEN << <<"T">>, <<"n">> >> ELSE << <<"n">> >>,
  Body |-> << <<>>, <<"Item", "Body">> >>,
  Item |-> << <<"text">>, <<"Es", "Ex", "Ee">>, <<"{#", "comment", "#}">>, <<"Bs", "Let", "Tg", "Be">>, <<"Bs", "Let", "Tg", "=", "Ex", "Be">>,
              <<"Bs", "if", "Cond", "Be", "Body", "Elifs", "Else", "Bs", "endif", "Be">>,
              <<"Bs", "for", "Tg", "in", "Ef", "If", "Be", "Loop", "Felse", "Bs", "endfor", "Be">>,
              <<"Bs", "match", "Ex", "Be", "Skip", "Whens", "Welse", "Bs", "endmatch", "Be">>,
              <<"Bs", "filter", "f", "Fa", "Fs", "Be", "Body", "Bs", "endfilter", "Be">>,
              <<"Bs", "macro", "m", "Params", "Be", "Body", "Bs", "endmacro", "Nm", "Be">>,
              <<"Bs", "block", "b", "Be", "Body", "Bs", "endblock", "Nb", "Be">>,
              <<"Bs", "call", "Scope", "m", "Cargs", "Be">>,
              <<"Bs", "include", "\"p\"", "Be">>, <<"Bs", "import", "\"p\"", "as", "s", "Be">>, <<"{%", "extends", "\"p\"", "%}">>,
              <<"Bs", "raw", "Be", "rawtext", "Bs", "endraw", "Be">> >>,
  Let |-> Pick(<< <<"let">> >>, << <<"set">> >>),
  Cond |-> << <<"Ex">>, <<"let", "Tg", "=", "Ex">> >>,
  Elifs |-> << <<>>, <<"Bs", "else", "if", "Cond", "Be", "Body", "Elifs">>, <<"Bs", "elif", "Cond", "Be", "Body", "Elifs">> >>,
  Else |-> << <<>>, <<"Bs", "else", "Be", "Body">> >>,
  If |-> << <<>>, <<"if", "Ex">> >>,
  Loop |-> << <<>>, <<"Item", "Loop">>, <<"Bs", "Brk", "Be", "Loop">> >>,
  Brk |-> << <<"break">>, <<"continue">> >>,
  Felse |-> << <<>>, <<"Bs", "else", "Be", "Body">> >>,
  Skip |-> << <<>>, <<" ">>, <<"{#", "comment", "#}">> >>,
  Whens |-> << <<"Bs", "when", "Tg", "Be", "Body">>, <<"Bs", "when", "Tg", "Be", "Body", "Whens">> >>,
  Welse |-> << <<>>, <<"Bs", "else", "Be", "Body">> >>,
  Fa |-> << <<>>, <<"(", "As", ")">> >>,
  Params |-> << <<>>, <<"(", ")">>, <<"(", "n", ")">>, <<"(", "n", ",", "k", ",", ")">> >>,
  Nm |-> << <<>>, <<"m">> >>,
  Nb |-> << <<>>, <<"b">> >>,
  \* the smallest pieces, character by character
  Num |-> << <<"Dec">>, <<"Dec", "Isf">>, <<"Dec", "Fsf">>, <<"Dec", ".", "Dec">>, <<"Dec", ".", "Dec", "Fsf">>, <<"Dec", "Exp">>, <<"Dec", ".", "Dec", "Exp">>, <<"Dec", "Exp", "Fsf">>,
             <<"0", "x", "Us", "Hx", "Hxs">>, <<"0", "b", "Us", "Bi", "Bis", "Isf">>, <<"0", "o", "Us", "Oc", "Ocs">>, <<"0", "x", "Us", "Hx", "Hxs", "Isf">>, <<"0", "b", "Us", "Bi", "Bis">> >>,
  Dec |-> << <<"Di", "Dis">> >>,
  Dis |-> << <<>>, <<"Di", "Dis">>, <<"_", "Dis">> >>,
  Di |-> Pick(<< <<"0">>, <<"7">> >>, << <<"1">>, <<"2">>, <<"8">>, <<"9">> >>),
  Us |-> << <<>>, <<"_", "Us">> >>,
  Hx |-> Pick(<< <<"0">>, <<"e">>, <<"F">> >>, << <<"9">>, <<"a">>, <<"b">>, <<"f">> >>),
  Hxs |-> << <<>>, <<"Hx", "Hxs">>, <<"_", "Hxs">> >>,
  Bi |-> << <<"0">>, <<"1">> >>,
  Bis |-> << <<>>, <<"Bi", "Bis">>, <<"_", "Bis">> >>,
  Oc |-> << <<"0">>, <<"7">> >>,
  Ocs |-> << <<>>, <<"Oc", "Ocs">>, <<"_", "Ocs">> >>,
  Exp |-> << <<"Ee_", "Us", "Dec">> >>,
  Ee_ |-> << <<"e">>, <<"e+">>, <<"E-">> >>,
  Isf |-> Pick(<< <<"u8">>, <<"i128">> >>, << <<"i8">>, <<"i16">>, <<"i32">>, <<"i64">>, <<"isize">>, <<"u16">>, <<"u32">>, <<"u64">>, <<"u128">>, <<"usize">> >>),
  Fsf |-> << <<"f32">>, <<"f64">> >>,
  Chr |-> << <<"'", "Ch", "'">> >>,
  Ch |-> Pick(<< <<"a">>, <<"é">>, <<"\"">>, <<"\n">>, <<"\\n">>, <<"\\'">>, <<"\\\\">>, <<"\\x", "Oc", "Hx">>, <<"\\u{", "Hx", "}">>, <<"\\u{", "Hx", "Hx", "}">>, <<"\\u{", "H4", "}">>, <<"\\u{0", "H4", "}">>, <<"\\u{10", "H4", "}">>, <<"\\u{00", "H4", "}">> >>,
              << <<" ">>, <<"字">>, <<"{">>, <<"}">>, <<"%">>, <<"\\r">>, <<"\\t">>, <<"\\0">>, <<"\\\"">> >>),
  H4 |-> << <<"0000">>, <<"FFFF">>, <<"abcd">>, <<"9e0F">> >>,
  Str |-> << <<"\"", "Cs", "\"">> >>,
  Cs |-> << <<>>, <<"Sc", "Cs">> >>,
  Sc |-> Pick(<< <<"a">>, <<"é">>, <<"\\\"">>, <<"\\\\">>, <<"'">>, <<"}}">> >>, << <<"\\n">>, <<"\n">>, <<"{{">>, <<"%}">>, <<"{%">>, <<"#}">>, <<"{#">>, <<"字">>, <<"\\u{e9}">>, <<" ">>, <<"|">>, <<"(">> >>),
  Idt |-> << <<"Is", "It">> >>,
  Is |-> << <<"a">>, <<"é">> >>,
  It |-> << <<>>, <<"Ic", "It">> >>,
  Ic |-> << <<"a">>, <<"Z">>, <<"0">>, <<"_">>, <<"é">>, <<"字">> >>,
  Mac |-> << <<"m", "!(", "Mx", ")">> >>,
  Mx |-> << <<>>, <<"Mc", "Mx">>, <<"(", "Mx", ")", "Mx">> >>,
  Mc |-> << <<"a">>, <<", ">>, <<"\"s\"">>, <<"\")\"">>, <<"\"\\\")\"">>, <<"\"\\\\\"">>, <<"}}">>, <<"é">> >>,
  Cmt |-> << <<"{#", "Cc", "#}">> >>,
  Cc |-> << <<>>, <<"Cx", "Cc">>, <<"{#", "Cc", "#}", "Cc">> >>,
  Cx |-> << <<"a">>, <<"{{ ">>, <<"%} ">>, <<"# ">>, <<"é\n">>, <<"\"">> >>,
  Raw |-> << <<"{% raw %}", "Rs", "{% endraw %}">>, <<"{%- raw ~%}", "Rs", "{%+endraw-%}">> >>,
  Rs |-> << <<>>, <<"Rx", "Rs">> >>,
  Rx |-> << <<"a">>, <<"{{">>, <<" endraw %}">>, <<"{% if %}">>, <<"{% endraw ">>, <<"{% endraws %}">>, <<"{% raw %}">>, <<"{#">>, <<"é\n">> >>,
  Scope |-> << <<>>, <<"s", "::">> >>,
  Cargs |-> << <<>>, <<"(", ")">>, <<"(", "Ex", ")">>, <<"(", "Ex", ",", "n", "=", "Ex", ")">>, <<"(", "n", "=", "Ex", ",", "k", "=", "Ex", ",", ")">> >>
]
NT == DOMAIN Grammar
StartForm == CASE Group = "expr" -> <<"X">> [] Group = "target" -> <<"T">> [] Group = "tag" -> IF Big THEN <<"Item", "Body">> ELSE <<"Item">> [] OTHER -> <<>>

\* the least number of terminals that a symbol derives
RECURSIVE SumMin(_, _, _)
SumMin(q, m, i) == IF i > Len(q) THEN 0 ELSE (IF q[i] \in NT THEN m[q[i]] ELSE 1) + SumMin(q, m, i + 1)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Fix(_)
Fix(m) == LET m2 == [n \in NT |-> Least({99} \union {SumMin(Grammar[n][i], m, 1) : i \in 1..Len(Grammar[n])})] IN IF m2 = m THEN m ELSE Fix(m2)
MinLen == Fix([n \in NT |-> 99])
FormLen(q) == SumMin(q, MinLen, 1)

RECURSIVE LeftNT(_, _)
LeftNT(q, i) == IF i > Len(q) THEN 0 ELSE IF q[i] \in NT THEN i ELSE LeftNT(q, i + 1)
Repl(q, i, p) == SubSeq(q, 1, i - 1) \o p \o SubSeq(q, i + 1, Len(q))
Fits(q, i) == SelectSeq(Grammar[q[i]], LAMBDA p : FormLen(Repl(q, i, p)) <= MaxLen)
Derive == /\ stage = "derive" /\ LeftNT(form, 1) # 0
          /\ LET i == LeftNT(form, 1)  ps == Fits(form, i) IN
             \E k \in (IF Sim THEN {RandomElement(1..Len(ps))} ELSE 1..Len(ps)) : form' = Repl(form, i, ps[k])
          /\ UNCHANGED stage
\* how deeply constructs nest
RECURSIVE Depth(_, _, _, _)
Depth(q, i, d, m) == IF i > Len(q) THEN m
  ELSE LET e == IF q[i] \in {"(", "[", "{", "if", "for", "match", "filter", "macro", "block", "!", "-"} THEN d + 1
               ELSE IF q[i] \in {")", "]", "}", "endif", "endfor", "endmatch", "endfilter", "endmacro", "endblock"} THEN d - 1 ELSE d IN
       Depth(q, i + 1, e, IF e > m THEN e ELSE m)
\* what the literal is, from how it starts
LitKind(q) == CASE q[1] = "'" -> "Chr" [] q[1] = "\"" -> "Str" [] q[1] = "m" -> "Mac" [] q[1] = "{#" -> "Cmt" [] q[1] \in {"{% raw %}", "{%- raw ~%}"} -> "Raw" [] q[1] \in {"a", "é"} -> "Idt" [] OTHER -> "Num"
Sentence == /\ stage = "derive" /\ LeftNT(form, 1) = 0
            /\ PrintT("CASE " \o ToJson([g |-> Group, ts |-> (IF Group = "lit" THEN <<LitKind(form)>> ELSE <<>>) \o form, deep |-> Depth(form, 1, 0, 0)]))
            /\ stage' = "done" /\ UNCHANGED form

-----------------------------------------------------------------------------
(* Sequences of tags, judged by the scan.                                     *)
YES == EB(TRUE)
Tags == <<TText("t"), TText(" "), TComment(" c "), TExpr(EV("a")), TIf("if", <<>>, YES, FALSE), TIf("elif", <<>>, YES, FALSE), TTag("else"), TTag("endif"),
          TFor(PName("n"), EV("l"), <<>>), TTag("endfor"), TTag("brk"), TMatch(EV("k")), TWhen(PInt(1)), TTag("endmatch"), TFilter(<<[f |-> "upper", as |-> <<>>]>>), TTag("endfilter"),
          TBlock("b"), TEndBlock(""), TEndBlock("b"), TEndBlock("x"), TMacro("m", <<>>), TEndMacro("m"), TTag("raw"), TTag("endraw"), TLet(PName("n"), EI(1), FALSE), TCall("", "m", <<>>),
          TInc("i.html"), TExt("e.html"), TImp("l.html", "s"), TSuper,
          [k |-> "bad", l |-> "", r |-> "", s |-> "foo"], [k |-> "cut", l |-> "", r |-> "", t |-> TTag("endif")], [k |-> "cut", l |-> "", r |-> "", t |-> TExpr(EV("a"))]>>
SeqToks(q) == [i \in 1..Len(q) |-> Tags[q[i]]]
SeqEr(q) == ScanFile(SeqToks(q)).er
\* a sequence that is wrong stays wrong; one that only lacks something at its end does not
Viable(q) == LET e == SeqEr(q) IN e \in ({""} \union {"unclosed " \o k : k \in DOMAIN EndOf \union {"raw"}})
\* what closes everything that is open
OpenKinds == DOMAIN EndOf \union {"raw"}
EndTag(k) == CHOOSE i \in 1..Len(Tags) : Tags[i].k = (IF k = "raw" THEN "endraw" ELSE EndOf[k]) /\ \A j \in 1..i-1 : Tags[j].k # Tags[i].k
RECURSIVE ClosedBy(_)
ClosedBy(q) == LET e == SeqEr(q) IN IF \E k \in OpenKinds : e = "unclosed " \o k
                                   THEN LET c == EndTag(CHOOSE k \in OpenKinds : e = "unclosed " \o k) IN <<c>> \o ClosedBy(Append(q, c)) ELSE <<>>
Report(q) == PrintT("CASE " \o ToJson([g |-> "seq", src |-> Source(SeqToks(q), DefaultSyn), er |-> SeqEr(q)]))
Good(q) == {k \in 1..Len(Tags) : Viable(Append(q, k))}
Extend == /\ stage = "seq" /\ Len(form) < MaxLen /\ Viable(form)
          /\ \E k \in (IF ~Sim THEN 1..Len(Tags) ELSE IF RandomElement(1..8) = 1 THEN {RandomElement(1..Len(Tags))} ELSE {RandomElement(Good(form))}) : form' = Append(form, k)
          /\ Report(form')
          /\ LET c == ClosedBy(IF Viable(form') THEN form' ELSE form) IN c = <<>> \/ Report(form' \o c)
          /\ UNCHANGED stage

-----------------------------------------------------------------------------
(* Nesting.  form is the chain of the constructs from the outside in, each    *)
(* with how many complete constructs stand before and after the inner one.    *)
TagKinds == {"if", "else", "elif", "iflet", "for", "forelse", "match", "melse", "filter", "block", "macro", "target", "struct", "tuple"}
ExprKinds == {"par", "arr", "call", "idx", "flt", "tup", "not", "mcall"}
Depths == {1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 20, 29, 30, 40, 100, 110, 120, 127, 128, 129, 150, 1000, 5000}
Sibs == {0, 1, 2, 40, 200}
Nest == /\ stage = "nest"
        /\ \E d \in (IF Sim THEN {RandomElement(Depths)} ELSE Depths), k \in (IF Sim THEN {RandomElement(TagKinds \union ExprKinds)} ELSE TagKinds \union ExprKinds),
              s \in (IF Sim THEN {RandomElement(TagKinds \union ExprKinds)} ELSE {"same"}), o \in (IF Sim THEN {RandomElement(0..40)} ELSE {0}), b \in (IF Sim THEN {RandomElement(Sibs)} ELSE {0, 40}), z \in (IF Sim THEN {RandomElement(Sibs)} ELSE {0, 40}) :
             form' = <<d, k, o, b, z, IF s = "same" THEN k ELSE s>>
        /\ PrintT("CASE " \o ToJson([g |-> "nest", d |-> form'[1], k |-> form'[2], o |-> form'[3], b |-> form'[4], z |-> form'[5], s |-> form'[6],
             \* outside of the innermost d constructs of kind k there are o ifs
             must |-> IF form'[1] <= (IF form'[2] \in ExprKinds THEN 5 ELSE 20) /\ form'[3] <= 20 THEN "accept"
                      ELSE IF form'[1] >= 129 THEN "reject" ELSE "same"]))
        /\ stage' = "done"

LitKinds == {"Num", "Chr", "Str", "Idt", "Mac", "Cmt", "Raw"}
Init == /\ IF Group = "lit" THEN form \in {<<k>> : k \in (IF Sim THEN {RandomElement(LitKinds)} ELSE LitKinds)} ELSE form = StartForm
        /\ stage = (IF Group \in {"expr", "target", "tag", "lit"} THEN "derive" ELSE Group)
Next == Derive \/ Sentence \/ Extend \/ Nest
Spec == Init /\ [][Next]_vars
\* every sentential form can be completed within the bound
Bounded == stage = "derive" => FormLen(form) <= MaxLen
=============================================================================
