------------------------------ MODULE JsonDoc -------------------------------
(* The json filter.  A behaviour builds a value: scalars, strings over all  *)
(* kinds of special characters, arrays and objects; when it is complete,    *)
(* the text that the filter has to give is reported and replayed.           *)
EXTENDS Text, TLC, Json

CONSTANTS Sim, MaxNodes, MaxStr
VARIABLES stack,   \* the open containers, innermost last; each [k, q]: kind and what it holds so far
          val,     \* the complete value, or NoV
          over

\* "␁" stands for the control character U+0001
Special == <<"<", ">", "&", "'", "\"", "\\", "\n", "␁", "é", "a">>
Wide == Special \o <<"/", "u", "0", "日", "\t", "\r", "\f", " ", " ", "{", "}", "[", ",", ":", "</", "]]>", "\\u003c", "b", "&lt;", "%">>
NoV == [k |-> "none"]
Null == [k |-> "null"]
JB(b) == [k |-> "b", b |-> b]
JI(i) == [k |-> "i", i |-> i]
JS(s) == [k |-> "s", s |-> s]
JN(t) == [k |-> "n", t |-> t]      \* another number, as it is written
Numbers == {"0.5", "-1.25", "1.5e-7", "18446744073709551615", "-9223372036854775808", "123456789.0"}

\* ---- the text -----------------------------------------------------------
StrC(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\f" -> "\\f"
             [] c = "␁" -> "\\u0001"
             [] c = "<" -> "\\u003c" [] c = ">" -> "\\u003e" [] c = "&" -> "\\u0026" [] c = "'" -> "\\u0027"
             [] OTHER -> c
StrText(s) == "\"" \o MapChars(StrC, s) \o "\""
RECURSIVE Pretty(_, _), PrettyAll(_, _, _)
Pretty(v, ind) ==
  CASE v.k = "null" -> "null"
    [] v.k = "b" -> (IF v.b THEN "true" ELSE "false")
    [] v.k = "i" -> ToString(v.i)
    [] v.k = "n" -> v.t
    [] v.k = "s" -> StrText(v.s)
    [] v.k = "a" -> IF v.q = <<>> THEN "[]" ELSE "[\n" \o PrettyAll(v, ind + 1, 1) \o "\n" \o Rep("  ", ind) \o "]"
    [] v.k = "o" -> IF v.q = <<>> THEN "{}" ELSE "{\n" \o PrettyAll(v, ind + 1, 1) \o "\n" \o Rep("  ", ind) \o "}"
PrettyAll(v, ind, i) ==
  (IF i > 1 THEN ",\n" ELSE "") \o Rep("  ", ind)
  \o (IF v.k = "a" THEN Pretty(v.q[i], ind) ELSE StrText(v.q[i][1]) \o ": " \o Pretty(v.q[i][2], ind))
  \o (IF i < Len(v.q) THEN PrettyAll(v, ind, i + 1) ELSE "")

\* ---- reading it back: [v, i] the value and the position after it ----------
Skip(t, i) == FirstNonWs(t, i)
Hex4(h) == CASE h = "003c" -> "<" [] h = "003e" -> ">" [] h = "0026" -> "&" [] h = "0027" -> "'" [] h = "0001" -> "␁" [] OTHER -> "?"
RECURSIVE ReadStr(_, _, _), ReadVal(_, _), ReadArr(_, _, _), ReadObj(_, _, _), ReadInt(_, _, _)
ReadStr(t, i, acc) ==
  CASE Ch(t, i) = "\"" -> [s |-> acc, i |-> i + 1]
    [] Ch(t, i) = "\\" ->
         LET e == Ch(t, i + 1) IN
         IF e = "u" THEN ReadStr(t, i + 6, acc \o Hex4(SubSeq(t, i + 2, i + 5)))
         ELSE ReadStr(t, i + 2, acc \o (CASE e = "n" -> "\n" [] e = "t" -> "\t" [] e = "r" -> "\r" [] e = "f" -> "\f" [] OTHER -> e))
    [] OTHER -> ReadStr(t, i + 1, acc \o Ch(t, i))
NumC == CharsOf("0123456789.e-+")
RECURSIVE NumEnd(_, _)
NumEnd(t, i) == IF i <= Len(t) /\ Ch(t, i) \in NumC THEN NumEnd(t, i + 1) ELSE i
DigitVal == [c \in CharsOf("0123456789") |-> PosIn(c, "0123456789") - 1]
ReadInt(t, i, acc) == IF i <= Len(t) /\ Ch(t, i) \in DOMAIN DigitVal THEN ReadInt(t, i + 1, acc * 10 + DigitVal[Ch(t, i)]) ELSE [v |-> JI(acc), i |-> i]
ReadVal(t, p) ==
  LET i == Skip(t, p)  c == Ch(t, i)  num == SubSeq(t, i, NumEnd(t, i) - 1) IN
  CASE num \in Numbers -> [v |-> JN(num), i |-> NumEnd(t, i)]
    [] c = "n" -> [v |-> Null, i |-> i + 4]
    [] c = "t" -> [v |-> JB(TRUE), i |-> i + 4]
    [] c = "f" -> [v |-> JB(FALSE), i |-> i + 5]
    [] c = "\"" -> LET r == ReadStr(t, i + 1, "") IN [v |-> JS(r.s), i |-> r.i]
    [] c = "[" -> IF Ch(t, Skip(t, i + 1)) = "]" THEN [v |-> [k |-> "a", q |-> <<>>], i |-> Skip(t, i + 1) + 1] ELSE ReadArr(t, i + 1, <<>>)
    [] c = "{" -> IF Ch(t, Skip(t, i + 1)) = "}" THEN [v |-> [k |-> "o", q |-> <<>>], i |-> Skip(t, i + 1) + 1] ELSE ReadObj(t, i + 1, <<>>)
    [] c = "-" -> LET r == ReadInt(t, i + 1, 0) IN [r EXCEPT !.v.i = -@]
    [] OTHER -> ReadInt(t, i, 0)
ReadArr(t, i, acc) ==
  LET r == ReadVal(t, i)  j == Skip(t, r.i)  q == Append(acc, r.v) IN
  IF Ch(t, j) = "," THEN ReadArr(t, j + 1, q) ELSE [v |-> [k |-> "a", q |-> q], i |-> j + 1]
ReadObj(t, i, acc) ==
  LET n == ReadStr(t, Skip(t, i) + 1, "")  r == ReadVal(t, Skip(t, n.i) + 1)  j == Skip(t, r.i)  q == Append(acc, <<n.s, r.v>>) IN
  IF Ch(t, j) = "," THEN ReadObj(t, j + 1, q) ELSE [v |-> [k |-> "o", q |-> q], i |-> j + 1]

\* ---- building values ------------------------------------------------------
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {""} ELSE LET r == Strs(n - 1) IN r \cup {x \o Special[i] : x \in {y \in r : Len(y) = n - 1}, i \in DOMAIN Special}
RandomStr(k) == LET n == RandomElement(0..6)  s == Concat([i \in 1..n |-> Wide[RandomElement(1..Len(Wide))]]) IN
   IF RandomElement(1..8) = 1 THEN Rep(s, RandomElement({3, 11, 30, 50})) ELSE s
Scalars == IF Sim THEN {JS(RandomStr(Len(stack))), RandomElement({Null, JB(TRUE), JB(FALSE), JI(0), JI(-17), JI(2147483647)} \cup {JN(t) : t \in Numbers})}
           ELSE IF stack = <<>> THEN {JS(s) : s \in Strs(MaxStr)} ELSE {Null, JI(-1), JN("-1.25"), JS("<"), JS("'\"\\")}
Keys == IF Sim THEN {RandomStr(Len(stack))} ELSE {"", "&\"k"}

Size == LET RECURSIVE Sz(_)
            Sz(i) == IF i > Len(stack) THEN 0 ELSE 1 + Len(stack[i].q) + Sz(i + 1) IN Sz(1)

Init == stack = <<>> /\ val = NoV /\ over = FALSE

\* the value v is complete: it is the whole, or goes into the innermost container
Done(st, v) == IF st = <<>> THEN val' = v /\ stack' = st
               ELSE LET t == st[Len(st)]  rest == SubSeq(st, 1, Len(st) - 1) IN
                    /\ val' = NoV
                    /\ \E key \in IF t.k = "o" THEN Keys \ {t.q[j][1] : j \in DOMAIN t.q} ELSE {""} :
                         stack' = rest \o <<[t EXCEPT !.q = Append(@, IF t.k = "o" THEN <<key, v>> ELSE v)]>>
Room == val = NoV /\ ~over
Scalar == Room /\ Size < MaxNodes /\ \E v \in Scalars : Done(stack, v) /\ UNCHANGED over
Open == Room /\ Size + 1 < MaxNodes /\ \E k \in {"a", "o"} : stack' = Append(stack, [k |-> k, q |-> <<>>]) /\ UNCHANGED <<val, over>>
Close == /\ Room /\ stack # <<>>
         /\ Sim => Size > MaxNodes - 3 \/ Len(stack[Len(stack)].q) > 1
         /\ LET t == stack[Len(stack)] IN Done(SubSeq(stack, 1, Len(stack) - 1), t)
         /\ UNCHANGED over
Finish == /\ val # NoV /\ ~over
          /\ PrintT("CASE " \o ToJson([v |-> val, t |-> Pretty(val, 0), e |-> EscHtml(Pretty(val, 0))]))
          /\ over' = TRUE /\ UNCHANGED <<stack, val>>
Next == Scalar \/ Open \/ Close \/ Finish
Spec == Init /\ [][Next]_<<stack, val, over>>

SafeInHtml == val # NoV => \A c \in {"<", ">", "&", "'"} : ~HasChar(Pretty(val, 0), c)
ReadsBack == val # NoV => ReadVal(Pretty(val, 0), 1).v = val
=============================================================================
