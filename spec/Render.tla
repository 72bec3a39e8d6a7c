-------------------------------- MODULE Render --------------------------------
(* Rendering a program: a small-step interpreter over the flat token         *)
(* sequences.  A render state rs is                                          *)
(*   f, i   the current file and token                                       *)
(*   cs     control stack: the constructs whose bodies enclose the place     *)
(*   sc     scopes, innermost last                                           *)
(*   outs   output texts: the template's, then one per open filter block     *)
(*   lp     enclosing loops [i, n] as loop.* sees them                       *)
(*   cx     macro context: files whose macros and imports are visible        *)
(*   hm     the template whose chain of extends the blocks belong to          *)
(*   env    the template's fields                                            *)
(*   frag   the block to render, "" for the whole template                   *)
(*   log    probes evaluated, in order                                       *)
(*   st     "run", "done" or "fault", with er the error                      *)
(*   late   it failed while displaying a value; expressions that follow may   *)
(*          have been evaluated before, one of which may have failed itself   *)
(*   np     how often each branch of control was taken (ghost)               *)
EXTENDS Template

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

EmptyF == [x \in {} |-> 0]
Scope(bar, b) == [bar |-> bar, v |-> b]
RECURSIVE BindAll(_, _, _)
BindAll(m, b, i) == IF i > Len(b) THEN m ELSE BindAll((b[i][1] :> b[i][2]) @@ m, b, i + 1)

Root(pg) == Last(ChainOf(pg, pg.main))

Start(pg, env, frag) ==
  [f |-> Root(pg), i |-> 1, cs |-> <<>>, sc |-> <<Scope(TRUE, EmptyF)>>, outs |-> <<"">>, lp |-> <<>>,
   cx |-> <<Root(pg)>>, hm |-> pg.main, env |-> env, frag |-> frag, log |-> <<>>, st |-> "run", er |-> "", late |-> FALSE]

Toks(pg, rs) == pg.files[rs.f]
Tok(pg, rs) == pg.files[rs.f][rs.i]
AtEnd(pg, rs) == rs.i > Len(pg.files[rs.f])
Kind(pg, rs) == IF AtEnd(pg, rs) THEN "end" ELSE Tok(pg, rs).k

Cx(pg, rs) == [sc |-> rs.sc, fl |-> rs.env, lp |-> rs.lp, esc |-> pg.esc]

Emitting(rs) == rs.frag = "" \/ \E j \in 1..Len(rs.cs) : rs.cs[j].k = "blk" /\ rs.cs[j].n = rs.frag /\ rs.cs[j].own
Emit(rs, s) == IF Emitting(rs) THEN [rs EXCEPT !.outs[Len(rs.outs)] = @ \o s] ELSE rs
Goto(rs, i) == [rs EXCEPT !.i = i]
Next1(rs) == Goto(rs, rs.i + 1)
Logged(rs, r) == [rs EXCEPT !.log = @ \o r.lg]
Failed(rs, r) == [rs EXCEPT !.log = @ \o r.lg, !.st = "fault", !.er = r.er]
PushS(rs, bar, b) == [rs EXCEPT !.sc = Append(@, Scope(bar, b))]
PushF(rs, fr) == [rs EXCEPT !.cs = Append(@, fr)]
\* leave the innermost construct: its scopes and loops end
PopF(rs) == [rs EXCEPT !.cs = Front(@), !.sc = SubSeq(@, 1, Last(rs.cs).sd), !.lp = Last(rs.cs).lp]
Frame(rs, k) == [k |-> k, sd |-> Len(rs.sc), lp |-> rs.lp, at |-> rs.i]
SetTop(rs, fr) == [rs EXCEPT !.cs = Append(Front(@), fr)]
Closing(pg, rs, ks) == NextOf(Toks(pg, rs), rs.i + 1, 0, ks)

-----------------------------------------------------------------------------
SkipF(pg, rs) == Next1(rs)
TextF(pg, rs) == Next1(Emit(rs, TextAt(Toks(pg, rs), rs.i, pg.ws)))
ExprF(pg, rs) ==
  LET t == Tok(pg, rs) IN
  IF ~Emitting(rs) THEN Next1(rs)
  ELSE LET r == Eval(t.e, Cx(pg, rs)) IN
       IF r.er # "" THEN Failed(rs, r)
       ELSE IF r.v.t = "f" /\ r.v.x # "" THEN [Emit(Failed(rs, Res(NoVal, r.lg, r.v.x)), r.v.p) EXCEPT !.late = TRUE]
       ELSE Next1(Emit(Logged(rs, r), OutText(t.e, r.v, pg.esc)))

\* ---- if ------------------------------------------------------------------
Branch(rs, b) == Next1(PushS(SetTop(rs, [Last(rs.cs) EXCEPT !.taken = TRUE]), FALSE, BindAll(EmptyF, b, 1)))
TryCond(pg, rs) ==
  LET t == Tok(pg, rs)  r == Eval(t.e, Cx(pg, rs)) IN
  IF r.er # "" THEN Failed(rs, r)
  ELSE LET m == IF t.p = <<>> THEN [ok |-> r.v.x, b |-> <<>>] ELSE Match(t.p[1], r.v) IN
       IF m.ok THEN Branch(Logged(rs, r), m.b)
       ELSE Goto(Logged(rs, r), Closing(pg, rs, {"elif", "else", "endif"}))
IfF(pg, rs) == TryCond(pg, PushF(rs, [taken |-> FALSE] @@ Frame(rs, "if")))
Leave(rs, i) == Goto(PopF(rs), i)
ElifF(pg, rs) == IF Last(rs.cs).taken THEN Leave(rs, Closing(pg, rs, {"endif"}) + 1) ELSE TryCond(pg, rs)
ElseF(pg, rs) == IF Last(rs.cs).taken THEN Leave(rs, Closing(pg, rs, {"endif"}) + 1) ELSE Branch(rs, <<>>)
EndF(pg, rs) == Leave(rs, rs.i + 1)

\* ---- for -----------------------------------------------------------------
Selected(pg, rs, t, v) ==
  LET b(x) == BindAll(EmptyF, Match(t.p, x).b, 1)
      keep(x) == IF t.c = <<>> THEN TRUE
                 ELSE Eval(t.c[1], [Cx(pg, rs) EXCEPT !.sc = Append(@, Scope(FALSE, b(x)))]).v.x
  IN SelectSeq(v, keep)
Turn(pg, rs, n) ==      \* begin the n-th round of the innermost loop
  LET fr == Last(rs.cs)  t == Toks(pg, rs)[fr.at]
      r1 == [rs EXCEPT !.sc = SubSeq(@, 1, fr.sd), !.lp = Append(fr.lp, [i |-> n, n |-> Len(fr.items)])] IN
  Goto(PushS(SetTop(r1, [fr EXCEPT !.pos = n]), FALSE, BindAll(EmptyF, Match(t.p, fr.items[n]).b, 1)), fr.at + 1)
ForF(pg, rs) ==
  LET t == Tok(pg, rs)  r == Eval(t.e, Cx(pg, rs)) IN
  IF r.er # "" THEN Failed(rs, r)
  ELSE LET q == Selected(pg, rs, t, r.v.x)
           r1 == PushF(Logged(rs, r), [items |-> q, pos |-> 0] @@ Frame(rs, "for"))
           e == Closing(pg, rs, {"forelse", "endfor"}) IN
       IF q # <<>> THEN Turn(pg, r1, 1)
       ELSE IF Toks(pg, rs)[e].k = "forelse" THEN Goto(PushS(r1, FALSE, EmptyF), e + 1)
       ELSE Leave(r1, e + 1)
\* the loop whose frame is the innermost one goes on after its current round
Again(pg, rs) == LET fr == Last(rs.cs) IN
  IF fr.pos < Len(fr.items) THEN Turn(pg, rs, fr.pos + 1)
  ELSE Leave(rs, NextOf(Toks(pg, rs), fr.at + 1, 0, {"endfor"}) + 1)
ForElseF(pg, rs) == Again(pg, rs)
EndForF(pg, rs) == IF Last(rs.cs).pos = 0 THEN Leave(rs, rs.i + 1) ELSE Again(pg, rs)
RECURSIVE ToLoop(_)
ToLoop(rs) == IF Last(rs.cs).k = "for" /\ Last(rs.cs).pos > 0 THEN rs ELSE ToLoop(PopF(rs))
BreakF(pg, rs) == LET r1 == ToLoop(rs) IN Leave(r1, NextOf(Toks(pg, rs), Last(r1.cs).at + 1, 0, {"endfor"}) + 1)
ContinueF(pg, rs) == Again(pg, ToLoop(rs))

\* ---- match ---------------------------------------------------------------
MatchF(pg, rs) ==
  LET r == Eval(Tok(pg, rs).e, Cx(pg, rs)) IN
  IF r.er # "" THEN Failed(rs, r)
  ELSE Goto(PushF(Logged(rs, r), [taken |-> FALSE, val |-> r.v] @@ Frame(rs, "match")), Closing(pg, rs, {"when", "melse"}))
WhenF(pg, rs) ==
  LET fr == Last(rs.cs) IN
  IF fr.taken THEN Leave(rs, Closing(pg, rs, {"endmatch"}) + 1)
  ELSE LET m == IF Tok(pg, rs).k = "melse" THEN [ok |-> TRUE, b |-> <<>>] ELSE Match(Tok(pg, rs).p, fr.val) IN
       IF m.ok THEN Branch(rs, m.b) ELSE Goto(rs, Closing(pg, rs, {"when", "melse", "endmatch"}))

\* ---- let -----------------------------------------------------------------
RECURSIVE UndefAt(_, _, _)
\* the scope of the visible binding of n if it is declared but not yet assigned, else 0
UndefAt(sc, n, i) == IF i = 0 THEN 0
  ELSE IF n \in DOMAIN sc[i].v THEN (IF sc[i].v[n].t = "u" THEN i ELSE 0)
  ELSE IF sc[i].bar THEN 0 ELSE UndefAt(sc, n, i - 1)
Bind1(sc, n, v) == LET u == UndefAt(sc, n, Len(sc))  j == IF u = 0 THEN Len(sc) ELSE u IN
                   [sc EXCEPT ![j].v = (n :> v) @@ @]
RECURSIVE Binds(_, _, _)
Binds(sc, b, i) == IF i > Len(b) THEN sc ELSE Binds(Bind1(sc, b[i][1], b[i][2]), b, i + 1)
LetF(pg, rs) ==
  LET t == Tok(pg, rs)  r == Eval(t.e, Cx(pg, rs)) IN
  IF r.er # "" THEN Failed(rs, r)
  ELSE Next1([Logged(rs, r) EXCEPT !.sc = Binds(@, Match(t.p, r.v).b, 1)])
DeclF(pg, rs) == Next1([rs EXCEPT !.sc[Len(rs.sc)].v = (Tok(pg, rs).n :> Undef) @@ @])

\* ---- blocks --------------------------------------------------------------
EnterBlock(pg, rs, n, lvl, ret) ==
  LET d == BlockDefs(pg, rs.hm, n)[lvl]
      fr == [n |-> n, lvl |-> lvl, own |-> rs.hm = pg.main, rhm |-> rs.hm, rf |-> rs.f, ri |-> ret, rcx |-> rs.cx] @@ Frame(rs, "blk")
      r1 == PushS(PushF(rs, fr), TRUE, EmptyF) IN
  [r1 EXCEPT !.f = d.f, !.i = d.i + 1, !.lp = <<>>, !.cx = <<d.f>> \o @]
BlockF(pg, rs) == EnterBlock(pg, rs, Tok(pg, rs).n, 1, Closing(pg, rs, {"endblock"}) + 1)
RECURSIVE BlkAt(_, _)
BlkAt(cs, j) == IF cs[j].k = "blk" THEN cs[j] ELSE BlkAt(cs, j - 1)
SuperF(pg, rs) == LET b == BlkAt(rs.cs, Len(rs.cs)) IN EnterBlock(pg, rs, b.n, b.lvl + 1, rs.i + 1)
Return(rs) == LET fr == Last(rs.cs) IN [PopF(rs) EXCEPT !.f = fr.rf, !.i = fr.ri, !.cx = fr.rcx, !.hm = fr.rhm]
EndBlockF(pg, rs) == Return(rs)

\* ---- macros --------------------------------------------------------------
MacroF(pg, rs) == Goto(rs, Closing(pg, rs, {"endmacro"}) + 1)
\* which macro a call means, and the context of its body
Callee(pg, rs, t) ==
  IF t.scope = "" THEN [m |-> FindMacro(pg, rs.cx, t.n, 1), cx |-> rs.cx]
  ELSE LET l == FindImport(pg, rs.cx, t.scope, 1) IN [m |-> FindMacro(pg, <<l>>, t.n, 1), cx |-> <<l>>]
\* the argument for the j-th parameter: by name, else the j-th one
ArgFor(as, n, j) == IF \E k \in 1..Len(as) : as[k].n = n THEN as[CHOOSE k \in 1..Len(as) : as[k].n = n].e ELSE as[j].e
CallF(pg, rs) ==
  LET t == Tok(pg, rs)  c == Callee(pg, rs, t)  ps == pg.files[c.m.f][c.m.i].ps
      r == EvalAll([j \in 1..Len(ps) |-> ArgFor(t.as, ps[j], j)], 1, Cx(pg, rs)) IN
  IF r.er # "" THEN Failed(rs, r)
  ELSE LET fr == [rf |-> rs.f, ri |-> rs.i + 1, rcx |-> rs.cx, rhm |-> rs.hm] @@ Frame(rs, "mac")
           b == [j \in 1..Len(ps) |-> <<ps[j], r.v[j]>>]
           r1 == PushS(PushF(Logged(rs, r), fr), TRUE, BindAll(EmptyF, b, 1)) IN
       [r1 EXCEPT !.f = c.m.f, !.i = c.m.i + 1, !.lp = <<>>, !.cx = c.cx]
EndMacroF(pg, rs) == Return(rs)

\* ---- include -------------------------------------------------------------
IncludeF(pg, rs) ==
  LET p == Resolve(pg, rs.f, Tok(pg, rs).p)  ch == ChainOf(pg, p)
      fr == [rf |-> rs.f, ri |-> rs.i + 1, rcx |-> rs.cx, rhm |-> rs.hm] @@ Frame(rs, "inc") IN
  \* a template that extends another one, or has blocks, is put together by itself
  [PushS(PushF(rs, fr), FALSE, EmptyF) EXCEPT !.f = Last(ch), !.i = 1, !.hm = p, !.cx = IF Len(ch) > 1 THEN <<Last(ch)>> ELSE <<p>> \o @]
EndOfFileF(pg, rs) == IF rs.cs = <<>> THEN [rs EXCEPT !.st = "done"] ELSE Return(rs)

\* ---- filter blocks -------------------------------------------------------
FilterF(pg, rs) ==
  LET on == Emitting(rs)
      r1 == PushS(PushF(rs, [on |-> on] @@ Frame(rs, "flt")), FALSE, EmptyF) IN
  Next1(IF on THEN [r1 EXCEPT !.outs = Append(@, "")] ELSE r1)
RECURSIVE Chained(_, _, _, _)
Chained(fs, i, r, cx) ==
  IF i > Len(fs) \/ r.er # "" THEN r
  ELSE LET a == EvalAll(fs[i].as, 1, cx) IN
       IF a.er # "" THEN After(r, a)
       ELSE Chained(fs, i + 1, After(Res(r.v, r.lg \o a.lg, ""), ApplyF(fs[i].f, r.v, a.v, cx)), cx)
EndFilterF(pg, rs) ==
  LET fr == Last(rs.cs)  fs == Toks(pg, rs)[fr.at].fs  r1 == PopF(rs) IN
  IF ~fr.on THEN Next1(r1)
  ELSE LET body == Last(rs.outs)
           r2 == [r1 EXCEPT !.outs = Front(@)]
           r == Chained(fs, 1, Ok(VS(body)), Cx(pg, r2)) IN
       IF r.er # "" THEN Failed(r2, r)
       ELSE Next1(Emit(Logged(r2, r),
              IF Last(fs).f \in {"safe", "escape", "e"} THEN Display(r.v) ELSE Escape(pg.esc, Display(r.v))))
=============================================================================
