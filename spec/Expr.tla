-------------------------------- MODULE Expr --------------------------------
(* Expressions: values, meaning (Eval), spelling (Show) and a deterministic *)
(* generator (Gen), which derives a well-typed expression from a seed.      *)
EXTENDS Filters, FiniteSets

-----------------------------------------------------------------------------
(* Values are records [t, x]: i(nteger), s(tring), b(ool), l(ist), t(uple), *)
(* o(ption: a sequence of at most one value), r(esult), d (struct), e(num). *)
VI(i) == [t |-> "i", x |-> i]
VS(s) == [t |-> "s", x |-> s]
VB(b) == [t |-> "b", x |-> b]
VL(q) == [t |-> "l", x |-> q]
VT(q) == [t |-> "t", x |-> q]
VO(q) == [t |-> "o", x |-> q]
VD(f) == [t |-> "d", x |-> f]
VR(ok, v, er) == [t |-> "r", x |-> v, ok |-> ok, er |-> er]
VE(var, q) == [t |-> "e", var |-> var, x |-> q]
VF(er) == [t |-> "f", x |-> er, p |-> "pa"]   \* a value whose Display fails, with error "" if it does not, having written p
Undef == [t |-> "u", x |-> 0]          \* declared but not yet assigned
NoVal == [t |-> "n", x |-> 0]

Display(v) == CASE v.t = "i" -> ToString(v.x)
                [] v.t = "s" -> v.x
                [] v.t = "b" -> IF v.x THEN "true" ELSE "false"
                [] v.t = "f" -> "F"

-----------------------------------------------------------------------------
(* Integer operators as in Rust. *)
Abs(a) == IF a < 0 THEN -a ELSE a
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TMod(a, b) == a - b * TDiv(a, b)
RECURSIVE BAnd(_, _)
BAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
              ELSE 2 * BAnd(a \div 2, b \div 2) + (a % 2) * (b % 2)
BXor(a, b) == a + b - 2 * BAnd(a, b)
BOr(a, b) == a + b - BAnd(a, b)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Bin(op, a, b) ==
  CASE op = "+" -> VI(a.x + b.x) [] op = "-" -> VI(a.x - b.x) [] op = "*" -> VI(a.x * b.x)
    [] op = "/" -> VI(TDiv(a.x, b.x)) [] op = "%" -> VI(TMod(a.x, b.x))
    [] op = "&" -> VI(BAnd(a.x, b.x)) [] op = "|" -> VI(BOr(a.x, b.x)) [] op = "^" -> VI(BXor(a.x, b.x))
    [] op = "<<" -> VI(a.x * Pow2(b.x)) [] op = ">>" -> VI(a.x \div Pow2(b.x))
    [] op = "==" -> VB(a.x = b.x) [] op = "!=" -> VB(a.x # b.x)
    [] op = "<" -> VB(a.x < b.x) [] op = "<=" -> VB(a.x <= b.x)
    [] op = ">" -> VB(a.x > b.x) [] op = ">=" -> VB(a.x >= b.x)
Un(op, a) == IF a.t = "b" THEN VB(~a.x) ELSE IF op = "-" THEN VI(-a.x) ELSE VI(-a.x - 1)

-----------------------------------------------------------------------------
(* Meaning.  A context is [sc, fl, lp, esc]: scopes (innermost last), the    *)
(* template's fields, the enclosing loops as [i, n] (innermost last) and the *)
(* template's escaper.  A scope is [bar, v]: nothing below a barrier shows.  *)
RECURSIVE LookupAt(_, _, _, _)
LookupAt(sc, fl, n, i) ==
  IF i = 0 THEN fl[n]
  ELSE IF n \in DOMAIN sc[i].v THEN sc[i].v[n]
  ELSE IF sc[i].bar THEN fl[n]
  ELSE LookupAt(sc, fl, n, i - 1)
Lookup(cx, n) == LookupAt(cx.sc, cx.fl, n, Len(cx.sc))

\* a result: value, ids of the probes evaluated so far (in order), error ("" if none)
Res(v, lg, er) == [v |-> v, lg |-> lg, er |-> er]
Ok(v) == Res(v, <<>>, "")
After(r, s) == Res(s.v, r.lg \o s.lg, s.er)

(* Formatting.  A piece of a format string is [s]: text, or [a, x, fl, al, z, w, pr]: argument a (x: given by   *)
(* its number), fill, alignment, zeros, width (0: none), precision (-1: none).                                 *)
Signed(s, z) == IF s # "" /\ Ch(s, 1) = "-" THEN "-" \o z \o SubSeq(s, 2, Len(s)) ELSE z \o s
Padded(v, p) ==
  LET t == Display(v)
      s == IF v.t # "i" /\ p.pr >= 0 /\ Len(t) > p.pr THEN SubSeq(t, 1, p.pr) ELSE t
      n == IF Len(s) >= p.w THEN 0 ELSE p.w - Len(s)
      al == IF p.al # "" THEN p.al ELSE IF v.t = "i" THEN ">" ELSE "<"
      l == CASE al = "<" -> 0 [] al = ">" -> n [] al = "^" -> n \div 2 IN
  IF v.t = "i" /\ p.z THEN Signed(s, Rep("0", n)) ELSE Rep(p.fl, l) \o s \o Rep(p.fl, n - l)
RECURSIVE FormatFrom(_, _, _)
FormatFrom(ps, vs, i) == IF i > Len(ps) THEN "" ELSE (IF "s" \in DOMAIN ps[i] THEN ps[i].s ELSE Padded(vs[ps[i].a], ps[i])) \o FormatFrom(ps, vs, i + 1)
Brace(c) == CASE c = "{" -> "{{" [] c = "}" -> "}}" [] OTHER -> c
ShowPiece(p) ==
  IF "s" \in DOMAIN p THEN MapChars(Brace, p.s)
  ELSE LET f == (IF p.al = "" THEN "" ELSE p.fl \o p.al) \o (IF p.z THEN "0" ELSE "") \o (IF p.w = 0 THEN "" ELSE ToString(p.w))
                \o (IF p.pr < 0 THEN "" ELSE "." \o ToString(p.pr)) IN
       "{" \o (IF p.x THEN ToString(p.a - 1) ELSE "") \o (IF f = "" THEN "" ELSE ":" \o f) \o "}"
RECURSIVE ShowPieces(_, _)
ShowPieces(ps, i) == IF i > Len(ps) THEN "" ELSE ShowPiece(ps[i]) \o ShowPieces(ps, i + 1)

RECURSIVE Eval(_, _), EvalAll(_, _, _)
\* values of es[i..]: result with a sequence as value; stops at the first error
EvalAll(es, i, cx) ==
  IF i > Len(es) THEN Ok(<<>>)
  ELSE LET r == Eval(es[i], cx) IN
       IF r.er # "" THEN r
       ELSE LET q == EvalAll(es, i + 1, cx) IN
            IF q.er # "" THEN After(r, q) ELSE Res(<<r.v>> \o q.v, r.lg \o q.lg, "")

ApplyF(f, v, as, cx) ==
  \* a value that cannot be displayed: some filters look at it only while they are displayed themselves
  CASE v.t = "f" /\ v.x # "" ->
         (CASE f \in {"safe", "escape", "e"} -> Ok(v)
            [] f = "truncate" -> Ok([v EXCEPT !.p = Truncate(@, as[1].x)])
            [] f = "center" -> Ok([v EXCEPT !.p = ""])
            [] f = "urlencode" -> Ok([v EXCEPT !.p = UrlEncode(@)]) [] f = "urlencode_strict" -> Ok([v EXCEPT !.p = UrlEncodeStrict(@)])
            [] f = "fail" -> Res(NoVal, <<>>, IF as[1].x THEN "filter" ELSE v.x)
            [] OTHER -> Res(NoVal, <<>>, v.x))
    [] f = "safe" -> Ok(VS(Display(v)))
    [] f \in {"escape", "e"} -> Ok(VS(Escape(IF as = <<>> THEN cx.esc ELSE as[1].x, Display(v))))
    [] f = "inc" -> Ok(VI(v.x + 1))
    [] f = "plus" -> Ok(VI(v.x + as[1].x))
    [] f = "fail" -> IF as[1].x THEN Res(NoVal, <<>>, "filter") ELSE Ok(VS(Display(v)))
    [] f = "pre" -> Ok(VS(Display(as[1]) \o Display(v)))
    [] f = "join" -> Ok(VS(Join([k \in 1..Len(v.x) |-> Display(v.x[k])], as[1].x)))
    [] f = "fmt" -> Ok(VS("<" \o Display(v) \o ">"))
    [] OTHER -> Ok(VS(Apply(f, Display(v), IF as = <<>> THEN 0 ELSE as[1].x)))

Eval(e, cx) ==
  CASE e.k = "i" -> Ok(VI(e.i))
    [] e.k = "s" -> Ok(VS(e.s))
    [] e.k = "b" -> Ok(VB(e.b))
    [] e.k = "v" -> Ok(Lookup(cx, e.n))
    [] e.k = "par" -> Eval(e.a, cx)
    [] e.k = "un" -> LET r == Eval(e.a, cx) IN IF r.er # "" THEN r ELSE Res(Un(e.op, r.v), r.lg, "")
    [] e.k = "bin" ->
         LET r == Eval(e.a, cx) IN
         IF r.er # "" THEN r
         ELSE IF e.op = "&&" /\ ~r.v.x THEN r
         ELSE IF e.op = "||" /\ r.v.x THEN r
         ELSE LET q == Eval(e.c, cx) IN
              IF q.er # "" \/ e.op \in {"&&", "||"} THEN After(r, q)
              ELSE Res(Bin(e.op, r.v, q.v), r.lg \o q.lg, "")
    [] e.k = "flt" ->
         LET r == EvalAll(<<e.a>> \o e.as, 1, cx) IN
         IF r.er # "" THEN r ELSE After(r, ApplyF(e.f, r.v[1], Tail(r.v), cx))
    [] e.k = "pr" -> LET r == Eval(e.a, cx) IN
         IF r.er # "" THEN r ELSE Res(r.v, Append(r.lg, e.id), "")
    [] e.k = "lp" -> LET l == cx.lp[Len(cx.lp)] IN
         Ok(CASE e.w = "index" -> VI(l.i) [] e.w = "index0" -> VI(l.i - 1)
              [] e.w = "first" -> VB(l.i = 1) [] e.w = "last" -> VB(l.i = l.n))
    [] e.k = "fm" -> LET r == EvalAll(e.as, 1, cx)  bad(v) == v.t = "f" /\ v.x # "" IN
         IF r.er # "" THEN r
         ELSE IF \E j \in 1..Len(r.v) : bad(r.v[j]) THEN Res(NoVal, r.lg, r.v[CHOOSE j \in 1..Len(r.v) : bad(r.v[j])].x)
         ELSE Res(VS(FormatFrom(e.ps, r.v, 1)), r.lg, "")
    [] e.k = "cyc" -> LET r == EvalAll(e.as, 1, cx) IN
         IF r.er # "" THEN r
         ELSE Res(r.v[((cx.lp[Len(cx.lp)].i - 1) % Len(e.as)) + 1], r.lg, "")
    [] e.k = "try" -> LET r == Eval(e.a, cx) IN
         IF r.er # "" THEN r ELSE IF r.v.ok THEN Res(r.v.x, r.lg, "") ELSE Res(NoVal, r.lg, r.v.er)
    [] e.k = "att" -> LET r == Eval(e.a, cx) IN IF r.er # "" THEN r ELSE Res(IF r.v.t = "t" THEN r.v.x[IF e.f = "0" THEN 1 ELSE 2] ELSE r.v.x[IF e.f = "type" THEN "n" ELSE e.f], r.lg, "")
    [] e.k = "mth" -> LET r == EvalAll(<<e.a>> \o e.as, 1, cx)  x == r.v[1].x IN
         IF r.er # "" THEN r
         ELSE Res(CASE e.m = "neg1" -> VI(-x - 1) [] e.m = "minus" -> VI(x - r.v[2].x)
                    [] e.m = "dup" -> VS(x \o x) [] e.m = "cat" -> VS(x \o Display(r.v[2])) [] e.m = "st" -> VS(x)
                    [] e.m \in {"iter", "as_ref"} -> r.v[1]
                    [] e.m = "enumerate" -> VL([j \in 1..Len(x) |-> VT(<<VI(j - 1), x[j]>>)])
                    [] e.m = "rev" -> VL([j \in 1..Len(x) |-> x[Len(x) + 1 - j]])
                    [] e.m = "skip" -> VL(SubSeq(x, r.v[2].x + 1, Len(x)))
                    [] e.m = "first" -> VO(SubSeq(x, 1, IF x = <<>> THEN 0 ELSE 1))
                    [] e.m = "last" -> VO(SubSeq(x, IF x = <<>> THEN 1 ELSE Len(x), Len(x))), r.lg, "")
    [] e.k = "lit" -> Ok(e.v)
    [] e.k = "slf" -> Ok(cx.fl[e.n])
    [] e.k = "ref" -> Eval(e.a, cx)
    [] e.k = "fn" -> LET r == EvalAll(e.as, 1, cx) IN
         IF r.er # "" THEN r
         ELSE Res(IF e.f = "h0" THEN VI(2 * r.v[1].x) ELSE VL([j \in 1..(IF r.v[1].x < 0 THEN 0 ELSE r.v[1].x) |-> VI(j - 1)]), r.lg, "")
    [] e.k = "idx" -> LET r == EvalAll(<<e.a, e.c>>, 1, cx) IN
         IF r.er # "" THEN r ELSE Res(r.v[1].x[(r.v[2].x % Len(r.v[1].x)) + 1], r.lg, "")
    [] e.k = "tup" -> LET r == EvalAll(e.as, 1, cx) IN IF r.er # "" THEN r ELSE Res(VT(r.v), r.lg, "")
    [] e.k = "arr" -> LET r == EvalAll(e.as, 1, cx) IN IF r.er # "" THEN r ELSE Res(VL(r.v), r.lg, "")
    [] e.k = "rng" -> LET r == EvalAll(<<e.a, e.c>>, 1, cx) IN
         IF r.er # "" THEN r
         ELSE LET lo == r.v[1].x  n == r.v[2].x - lo + (IF e.inc THEN 1 ELSE 0) IN
              Res(VL([k \in 1..(IF n < 0 THEN 0 ELSE n) |-> VI(lo + k - 1)]), r.lg, "")

\* The text that {{ e }} puts into the output, under the escaper esc.
OutText(e, v, esc) ==
  IF e.k = "flt" /\ e.f \in {"safe", "escape", "e"} THEN Display(v) ELSE Escape(esc, Display(v))
-----------------------------------------------------------------------------
(* Spelling, with the parentheses that precedence requires. *)
Prec(op) == CASE op = "||" -> 1 [] op = "&&" -> 2
              [] op \in {"==", "!=", "<", "<=", ">", ">="} -> 3
              [] op = "|" -> 4 [] op = "^" -> 5 [] op = "&" -> 6 [] op \in {"<<", ">>"} -> 7
              [] op \in {"+", "-"} -> 8 [] op \in {"*", "/", "%"} -> 9

\* a string in the spelling of a literal
LitC(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] OTHER -> c
StrLit(s) == "\"" \o MapChars(LitC, s) \o "\""

RECURSIVE Show(_, _), ShowAll(_, _)
ShowAll(es, i) == IF i > Len(es) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o Show(es[i], 0) \o ShowAll(es, i + 1)
\* whether the spelling of e ends in a filter without arguments: a "|" after it would be the next filter's
RECURSIVE EndsBare(_)
EndsBare(e) == CASE e.k = "ref" -> TRUE [] e.k = "fm" -> e.as = <<>> [] e.k = "flt" -> e.as = <<>> /\ e.f # "fmt" [] e.k = "un" -> EndsBare(e.a) [] e.k = "bin" -> EndsBare(e.c) [] OTHER -> FALSE
Paren(p, need, s) == IF p > need THEN "(" \o s \o ")" ELSE s
Show(e, p) ==
  CASE e.k = "i" -> IF e.i < 0 THEN Paren(p, 11, ToString(e.i)) ELSE ToString(e.i)
    [] e.k = "s" -> StrLit(e.s)
    [] e.k = "b" -> IF e.b THEN "true" ELSE "false"
    [] e.k = "v" -> e.n
    [] e.k = "par" -> "(" \o Show(e.a, 0) \o ")"
    [] e.k = "un" -> Paren(p, 11, e.op \o Show(e.a, 11))
    [] e.k = "bin" -> LET q == Prec(e.op) IN
         Paren(p, q, Paren(IF e.op = "|" /\ EndsBare(e.a) THEN 1 ELSE 0, 0, Show(e.a, IF q = 3 THEN 4 ELSE q)) \o " " \o e.op \o " " \o Show(e.c, q + 1))
    [] e.k = "flt" -> Paren(p, 10, Show(e.a, 10) \o "|" \o
         (IF e.f = "fmt" THEN "fmt(\"<{}>\")"
          ELSE e.f \o (IF e.as = <<>> THEN "" ELSE "(" \o ShowAll(e.as, 1) \o ")")))
    [] e.k = "pr" -> "crate::hk::p" \o e.ty \o "(" \o ToString(e.id) \o ", " \o Show(e.a, 0) \o ")"
    [] e.k = "lp" -> "loop." \o e.w
    [] e.k = "fm" -> LET l == StrLit(ShowPieces(e.ps, 1)) IN Paren(p, 10,
         IF e.m = "fmt" THEN Show(e.as[1], 10) \o "|fmt(" \o l \o ")"
         ELSE l \o "|format" \o (IF e.as = <<>> THEN "" ELSE "(" \o ShowAll(e.as, 1) \o ")"))
    [] e.k = "cyc" -> "loop.cycle([" \o ShowAll(e.as, 1) \o "])"
    [] e.k = "try" -> Show(e.a, 12) \o "?"
    [] e.k = "att" -> Show(e.a, 12) \o "." \o e.f
    [] e.k = "mth" -> Show(e.a, 12) \o "." \o e.m \o "(" \o ShowAll(e.as, 1) \o ")"
    [] e.k = "lit" -> Paren(IF Ch(e.s, 1) = "-" THEN p ELSE 0, 11, e.s)
    [] e.k = "slf" -> "self." \o e.n
    [] e.k = "ref" -> Paren(p, 10, Show(e.a, 10) \o "|as_ref" \o (IF e.d THEN "|deref" ELSE ""))
    [] e.k = "fn" -> (IF e.f = "h0" THEN "h0" ELSE "crate::hk::" \o e.f) \o "(" \o ShowAll(e.as, 1) \o ")"
    [] e.k = "idx" -> Show(e.a, 12) \o "[" \o Show(e.c, 0) \o "]"
    [] e.k = "tup" -> "(" \o ShowAll(e.as, 1) \o (IF Len(e.as) = 1 THEN ",)" ELSE ")")
    [] e.k = "arr" -> "[" \o ShowAll(e.as, 1) \o "]"
    [] e.k \in {"xs", "xg"} -> e.s
    [] e.k = "rng" -> Paren(p, 0, Show(e.a, 1) \o (IF e.inc THEN "..=" ELSE "..") \o Show(e.c, 1))
=============================================================================
