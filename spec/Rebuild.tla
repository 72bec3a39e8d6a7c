-------------------------------- MODULE Rebuild --------------------------------
(* Templates are edited and rebuilt: `disk` is what the template files hold   *)
(* now, `pg` what the program was last compiled from.  A build compiles again *)
(* exactly if a file that the compiled program was made of has changed.       *)
EXTENDS MC

CONSTANT Rounds
VARIABLES disk, hist
bvars == <<ph, au, pg, rs, todo, done, disk, hist>>

\* the files a program is made of: those its files refer to, from the main file on
Refs(g, f) == LET ts == g.files[f] IN {Resolve(g, f, ts[i].p) : i \in {j \in 1..Len(ts) : ts[j].k \in {"ext", "imp", "inc"}}}
RECURSIVE Closure(_, _)
Closure(g, S) == LET T == S \union UNION {Refs(g, f) : f \in S} IN IF T = S THEN S ELSE Closure(g, T)
MadeOf(g) == Closure(g, {g.main})
OnDisk == [pg EXCEPT !.files = disk]

\* an edit changes the texts of a file, or adds an include at the end of the outermost file
Mark2(n) == "-w" \o ToString(n)
Reword(ts, n) == [j \in 1..Len(ts) |-> IF ts[j].k = "t" /\ ~AllWs(ts[j].s) THEN [ts[j] EXCEPT !.s = @ \o Mark2(n)] ELSE ts[j]]
Wordy(f) == \E j \in 1..Len(disk[f]) : disk[f][j].k = "t" /\ ~AllWs(disk[f][j].s)
IncOf(x) == {p \in {"inc1" \o x, "inc2" \o x, "a" \o x, "b" \o x, "sub/a" \o x, "sub/b" \o x} : Resolve(OnDisk, Root(OnDisk), p) # ""}
Addable == LET dot == FindFrom(pg.mainrel, ".", 1) IN IncOf(IF dot = 0 THEN "" ELSE SubSeq(pg.mainrel, dot, Len(pg.mainrel)))
Editable == {f \in DOMAIN disk : Wordy(f) /\ ~(pg.inl /\ f = pg.main)}
Choose1(S, sd) == LET q == SetToSeq2(S) IN PickQ(q, sd, 3)
NewTexts(sd, n) ==
  LET old == MadeOf(pg)  mine == Editable \intersect old
      f == IF Roll(sd, 1, 8) = 0 \/ mine = {} THEN Choose1(Editable, sd) ELSE Choose1(mine, sd) IN
  [f |-> f, ts |-> Reword(disk[f], n)]
NewInclude(sd) == LET f == Root(OnDisk)  fresh == {p \in Addable : Resolve(OnDisk, f, p) \notin MadeOf(OnDisk)} IN
  [f |-> f, ts |-> Append(disk[f], TInc(Choose1(IF fresh # {} THEN fresh ELSE Addable, sd)))]
CanInclude == Addable # {} /\ ~(pg.inl /\ Root(OnDisk) = pg.main)

BInit == Init /\ disk = None /\ hist = <<>>
Writing == (Shape \/ WriteAny) /\ UNCHANGED <<disk, hist>>
FirstBuild == Plan /\ disk' = au.files /\ UNCHANGED hist
Rendering == ph \in {"next", "run"} /\ Inner /\ UNCHANGED <<disk, hist>>
Rendered == FinishRun /\ UNCHANGED <<disk, hist>>
Over == ph = "next" /\ todo = <<>>
Edited(e) ==
  /\ disk' = (e.f :> e.ts) @@ disk
  /\ hist' = Append(hist, [f |-> e.f, src |-> Source(e.ts, pg.syn), was |-> Source(disk[e.f], pg.syn), of |-> e.f \in MadeOf(pg), runs |-> done])
  /\ ph' = "build" /\ UNCHANGED <<au, pg, rs, todo, done>>
Edit == /\ Over /\ Len(hist) < Rounds
        /\ \E sd \in PickSet(Seeds) :
             IF CanInclude /\ (Roll(sd, 2, 4) = 0 \/ Editable = {}) THEN Edited(NewInclude(sd)) ELSE Editable # {} /\ Edited(NewTexts(sd, Len(hist) + 1))
Changed == \E f \in MadeOf(pg) : disk[f] # pg.files[f]
Build == /\ ph = "build"
         /\ pg' = IF Changed THEN OnDisk ELSE pg
         /\ todo' = [k \in 1..Len(done) |-> [frag |-> done[k].frag, env |-> done[k].env]] /\ done' = <<>>
         /\ ph' = "next" /\ UNCHANGED <<au, rs, disk, hist>>
NoEdit == Editable = {} /\ ~CanInclude
BCase == [hist |-> hist] @@ [Case EXCEPT !.files = FilesOut([pg EXCEPT !.files = disk], DOMAIN disk, pg.syn)]
\* at last a file is removed: the next build fails if the program was made of it
\* (unless a file of that name in another directory takes its place, which is left out here)
Without(f) == [OnDisk EXCEPT !.files = [g \in DOMAIN disk \ {f} |-> disk[g]]]
Used(f, r) == \E j \in 1..Len(disk[r]) : disk[r][j].k \in {"ext", "imp", "inc"} /\ Resolve(OnDisk, r, disk[r][j].p) = f /\ Resolve(Without(f), r, disk[r][j].p) # ""
Removable == {f \in DOMAIN disk : ~(pg.inl /\ f = pg.main) /\ \A r \in MadeOf(OnDisk) : ~Used(f, r)}
Remove == /\ Over /\ (Len(hist) = Rounds \/ NoEdit)
          /\ \E sd \in PickSet(Seeds) : LET f == Choose1(Removable, sd) IN
               /\ PrintT("CASE " \o ToJson(IF Removable = {} THEN BCase ELSE [gone |-> f, fails |-> f \in MadeOf(OnDisk)] @@ BCase))
               /\ disk' = IF Removable = {} THEN disk ELSE Without(f).files
          /\ ph' = "done" /\ UNCHANGED <<au, pg, rs, todo, done, hist>>
BNext == Writing \/ FirstBuild \/ Rendering \/ Rendered \/ Edit \/ Build \/ Remove
BSpec == BInit /\ [][BNext]_bvars

\* what is rendered is made of what is on disk
UpToDate == ph \in {"next", "run"} /\ disk # None => MadeOf(OnDisk) = MadeOf(pg) /\ \A f \in MadeOf(OnDisk) : pg.files[f] = disk[f]
===============================================================================
