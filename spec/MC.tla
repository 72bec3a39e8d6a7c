---------------------------------- MODULE MC ----------------------------------
(* The state machine: a program is written (author), then rendered once for  *)
(* every run planned for it (render), then reported (emit).                  *)
EXTENDS Profiles, Json

CONSTANTS Profile, Sim
VARIABLES ph, au, pg, rs, todo, done
vars == <<ph, au, pg, rs, todo, done>>

PickSet(S) == IF Sim THEN {RandomElement(S)} ELSE S
Seeds == 0..(HP - 1)
P == ProfileOf(Profile)

None == [st |-> ""]
Init == /\ ph = "shape" /\ au = None /\ pg = None /\ rs = None /\ todo = <<>> /\ done = <<>>

Shape == /\ ph = "shape"
         /\ \E sd \in PickSet(Seeds) : au' = [Begin(ShapeOf(P, sd)) EXCEPT !.kws = KwsOf(P, sd), !.syn = SynOf(P, sd)] /\ pg' = HeaderOf(P, sd)
         /\ ph' = "author" /\ UNCHANGED <<rs, todo, done>>

\* one tag is written; a file that can take no more tags is closed
WriteAny == /\ ph = "author" /\ au.roles # <<>>
            /\ \E sd \in PickSet(Seeds) : LET k == PickK(au, P, sd) IN
                 au' = (IF k = "eof" THEN CloseFile(au, P, sd) ELSE Do(au, P, k, sd))
            /\ UNCHANGED <<ph, pg, rs, todo, done>>

Plan == /\ ph = "author" /\ au.roles = <<>>
        /\ pg' = [files |-> au.files, dirs |-> au.dirs] @@ pg
        /\ \E sd \in PickSet(Seeds) : todo' = RunsOf(P, [files |-> au.files, dirs |-> au.dirs] @@ pg, sd)
        /\ au' = None
        /\ ph' = "next" /\ UNCHANGED <<rs, done>>

StartRun == /\ ph = "next" /\ todo # <<>>
            /\ rs' = Start(pg, IF P.kw THEN KwEnv @@ EnvVal(todo[1].env) ELSE EnvVal(todo[1].env), todo[1].frag)
            /\ ph' = "run" /\ UNCHANGED <<au, pg, todo, done>>

On(ks) == ph = "run" /\ rs.st = "run" /\ Kind(pg, rs) \in ks
Step(F(_, _)) == rs' = F(pg, rs) /\ UNCHANGED <<ph, au, pg, todo, done>>

EmitText == On({"t"}) /\ Step(TextF)
EmitExpr == On({"e"}) /\ Step(ExprF)
Skip == On({"c", "raw", "endraw", "imp", "ext"}) /\ Step(SkipF)
EvalIf == On({"if"}) /\ Step(IfF)
EvalElif == On({"elif"}) /\ Step(ElifF)
EvalElse == On({"else"}) /\ Step(ElseF)
EndIf == On({"endif", "endmatch"}) /\ Step(EndF)
ForStart == On({"for"}) /\ Step(ForF)
ForElse == On({"forelse"}) /\ Step(ForElseF)
ForNext == On({"endfor"}) /\ Step(EndForF)
Break == On({"brk"}) /\ Step(BreakF)
Continue == On({"cont"}) /\ Step(ContinueF)
MatchOn == On({"match"}) /\ Step(MatchF)
MatchArm == On({"when", "melse"}) /\ Step(WhenF)
Let == On({"let"}) /\ Step(LetF)
Declare == On({"decl"}) /\ Step(DeclF)
BlockEnter == On({"block"}) /\ Step(BlockF)
BlockLeave == On({"endblock"}) /\ Step(EndBlockF)
Super == On({"super"}) /\ Step(SuperF)
MacroSkip == On({"macro"}) /\ Step(MacroF)
Call == On({"call"}) /\ Step(CallF)
MacroLeave == On({"endmacro"}) /\ Step(EndMacroF)
Include == On({"inc"}) /\ Step(IncludeF)
FileEnd == On({"end"}) /\ Step(EndOfFileF)
FilterOpen == On({"filter"}) /\ Step(FilterF)
FilterClose == On({"endfilter"}) /\ Step(EndFilterF)

FinishRun == /\ ph = "run" /\ rs.st # "run"
             /\ done' = Append(done, [frag |-> rs.frag, env |-> todo[1].env, out |-> rs.outs[1], st |-> rs.st, er |-> rs.er, late |-> rs.late, log |-> rs.log])
             /\ todo' = Tail(todo) /\ ph' = "next" /\ UNCHANGED <<au, pg, rs>>

RECURSIVE FilesOut(_, _, _)
FilesOut(g, S, syn) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN
   <<[path |-> p, src |-> Source(g.files[p], syn)]>> \o FilesOut(g, S \ {p}, syn)
Case == [main |-> pg.mainrel, esc |-> pg.esc, ws |-> pg.ws, wsby |-> pg.wsby, dirs |-> pg.dirs, syn |-> pg.syn, synconf |-> pg.synconf, inl |-> pg.inl, ty |-> pg.ty,
         files |-> FilesOut(pg, DOMAIN pg.files, pg.syn), runs |-> done]
Report == /\ ph = "next" /\ todo = <<>>
          /\ PrintT("CASE " \o ToJson(Case))
          /\ ph' = "done" /\ UNCHANGED <<au, pg, rs, todo, done>>

Inner == Shape \/ WriteAny \/ Plan \/ StartRun \/ EmitText \/ EmitExpr \/ Skip \/ EvalIf \/ EvalElif \/ EvalElse \/ EndIf
        \/ ForStart \/ ForElse \/ ForNext \/ Break \/ Continue \/ MatchOn \/ MatchArm \/ Let \/ Declare
        \/ BlockEnter \/ BlockLeave \/ Super \/ MacroSkip \/ Call \/ MacroLeave \/ Include \/ FileEnd
        \/ FilterOpen \/ FilterClose
Next == Inner \/ FinishRun \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the model *)
Running == ph = "run"
\* one output text per open filter block, and one for the template
OutputsBalanced == Running /\ rs.st # "fault" => Len(rs.outs) = 1 + Cardinality({j \in 1..Len(rs.cs) : rs.cs[j].k = "flt" /\ rs.cs[j].on})
\* at the end everything that was opened has been left
AllLeft == Running /\ rs.st = "done" => rs.cs = <<>> /\ Len(rs.sc) = 1 /\ rs.lp = <<>> /\ Len(rs.outs) = 1
\* every open construct has its scope; loops count within their items
ScopesMatch == Running /\ rs.st = "run" => \A j \in 1..Len(rs.cs) : rs.cs[j].sd < Len(rs.sc) \/ (j = Len(rs.cs) /\ rs.cs[j].sd <= Len(rs.sc))
LoopsInRange == Running => \A j \in 1..Len(rs.lp) : rs.lp[j].i >= 1 /\ rs.lp[j].i <= rs.lp[j].n
\* output only grows, and not after the end
GrowOnly == [][(ph = "run" /\ ph' = "run") => (IsPrefixOf(rs.outs[1], rs'.outs[1]) /\ (rs.st # "run" => rs' = rs))]_vars
\* probes are never un-evaluated
LogGrows == [][(ph = "run" /\ ph' = "run") => SubSeq(rs'.log, 1, Len(rs.log)) = rs.log]_vars
\* a branch is entered at most once per construct
OneBranch == [][(ph = "run" /\ ph' = "run" /\ rs.cs # <<>> /\ Len(rs'.cs) = Len(rs.cs) /\ Last(rs.cs).k \in {"if", "match"}
                 /\ Last(rs.cs).at = Last(rs'.cs).at /\ Kind(pg, rs) \in {"elif", "else", "when", "melse"}) => ~Last(rs.cs).taken]_vars
=============================================================================
