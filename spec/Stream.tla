------------------------------- MODULE Stream --------------------------------
(* The text filters on values whose Display writes its text in pieces.  The *)
(* filters are functions on text (Filters.tla); truncate and trim work      *)
(* while the pieces arrive, and are specified here as machines too, which   *)
(* have to agree with the functions after every piece.                      *)
(*                                                                          *)
(* A behaviour is the sequence of pieces that the value writes; when it is  *)
(* over, the pieces and what every filter has to make of them are reported  *)
(* and replayed on the real filters.                                        *)
EXTENDS Filters, Sequences, Json

CONSTANTS Sim,       \* TRUE: random long texts; FALSE: all short ones
          MaxLen,    \* most characters in all
          MaxPieces
VARIABLES pieces, tr, tm, over

Alpha == <<"a", "B", " ", "\n", "é", "ß", "日", "&", "/", ".", "Σ">>
Wide == Alpha \o <<"z", "Q", "\t", "\r", "<", ">", "\"", "'", "%", "+", "?", "=", "Ñ", "€", " ", " ", "\f", "0", "~", "-", "_", "{", "}", "\\", "#", "a", "b", " ", "\n", "\n", "\n\n", "</p><p>", "<p></p>", " \n", "Σ", "σ", "ς", "ﬁ", "　", "​", ":", "\r\n">>

\* ---- truncate, piece by piece: room left in bytes, still open, what it wrote
Limits == 0..7
TrInit(n) == [room |-> n, open |-> TRUE, out |-> ""]
TrWrite(m, p) ==
  IF ~m.open \/ p = "" THEN m
  ELSE IF Bytes(p) <= m.room THEN [m EXCEPT !.room = @ - Bytes(p), !.out = @ \o p]
  ELSE LET k == IF m.room = 0 THEN 0 ELSE TruncPos(p, 1, 0, m.room) IN
       IF k = Len(p) THEN [m EXCEPT !.room = 0, !.out = @ \o p]
       ELSE [room |-> 0, open |-> FALSE, out |-> m.out \o SubSeq(p, 1, k) \o "..."]

\* ---- trim, piece by piece: nothing is kept before the first black character
TmWrite(m, p) == IF m = "" THEN SubSeq(p, TrimL(p, 1), Len(p)) ELSE m \o p
TmDone(m) == SubSeq(m, 1, TrimR(m, Len(m)))

Txt == Concat(pieces)

Pieces == {""} \cup {Alpha[i] : i \in DOMAIN Alpha} \cup {Alpha[i] \o Alpha[j] : i, j \in DOMAIN Alpha}
RandomPiece(k) == LET n == RandomElement(0..3) IN
   Concat([i \in 1..n |-> Wide[RandomElement(1..Len(Wide))]])
\* now and then a long one
LongPiece(k) == LET a == RandomPiece(k) IN Rep(IF a = "" THEN " " ELSE a, RandomElement({5, 16, 31, 64, 90}))
SimPiece(k) == IF RandomElement(1..40) = 1 THEN LongPiece(k) ELSE RandomPiece(k)

Init == /\ pieces = <<>> /\ over = FALSE /\ tm = ""
        /\ tr = [n \in Limits |-> TrInit(n)]

Write == /\ ~over /\ Len(pieces) < MaxPieces
         /\ \E p \in IF Sim THEN {SimPiece(Len(pieces))} ELSE Pieces :
              /\ (Len(Txt) + Len(p) <= MaxLen \/ Len(p) > 20)
              /\ pieces' = Append(pieces, p)
              /\ tr' = [n \in Limits |-> TrWrite(tr[n], p)]
              /\ tm' = TmWrite(tm, p)
         /\ UNCHANGED over

Plain == <<"upper", "uppercase", "lower", "lowercase", "capitalize", "title", "trim", "linebreaks", "linebreaksbr", "paragraphbreaks",
           "urlencode", "urlencode_strict", "wordcount">>
Numbered == <<"truncate", "center", "indent">>
Big == {10000, 20000}
\* arguments of 10000 and more do not pad
AppN(f, s, n) == IF n \in Big THEN s ELSE Apply(f, s, n)
Chains == <<<<"truncate", 3, "center", 7>>, <<"trim", 0, "upper", 0>>, <<"center", 6, "truncate", 4>>, <<"indent", 2, "trim", 0>>,
            <<"linebreaksbr", 0, "indent", 1>>, <<"truncate", 4, "urlencode", 0>>, <<"urlencode", 0, "truncate", 5>>, <<"trim", 0, "title", 0>>,
            <<"truncate", 2, "truncate", 1>>, <<"center", 5, "trim", 0>>, <<"upper", 0, "truncate", 3>>, <<"trim", 0, "trim", 0>>>>
JoinSeps == <<"", ",", " & ">>
\* larger arguments, and those next to the text's length
Further(i) == LET b == Bytes(Txt)  t == Numbered[i] = "truncate"
                  ns == {8, 9, 15, 16, 17, 40} \cup (IF t THEN {64, 255, 256, 9999, b - 1, b, b + 1} ELSE {Len(Txt), Len(Txt) + 1, Len(Txt) + 2}) IN
              {<<n, Apply(Numbered[i], Txt, n)>> : n \in {m \in ns : m >= 0 /\ (t \/ m <= 120)}}
Report ==
  [ps |-> pieces,
   f1 |-> [i \in DOMAIN Plain |-> <<Plain[i], Apply(Plain[i], Txt, 0)>>],
   fn |-> [i \in DOMAIN Numbered |-> <<Numbered[i], [n \in 1..8 |-> Apply(Numbered[i], Txt, n - 1)], [n \in 1..2 |-> AppN(Numbered[i], Txt, n * 10000)], Further(i)>>],
   ch |-> [i \in DOMAIN Chains |-> LET c == Chains[i] IN <<c[1], c[2], c[3], c[4], Apply(c[3], Apply(c[1], Txt, c[2]), c[4])>>],
   jn |-> [i \in DOMAIN JoinSeps |-> <<JoinSeps[i], Join(pieces, JoinSeps[i])>>]]

Finish == /\ ~over
          /\ Sim => Len(pieces) = MaxPieces \/ Len(Txt) > MaxLen - 5
          /\ PrintT("CASE " \o ToJson(Report))
          /\ over' = TRUE
          /\ UNCHANGED <<pieces, tr, tm>>

Next == Write \/ Finish
Spec == Init /\ [][Next]_<<pieces, tr, tm, over>>

TruncateOk == \A n \in Limits : tr[n].out = Truncate(Txt, n)
TrimOk == TmDone(tm) = Trim(Txt)
\* the text filters' own laws
TrimIdempotent == Trim(Trim(Txt)) = Trim(Txt)
CaseLaws == Sim \/ Lower(Upper(Lower(Txt))) = Lower(Upper(Txt))
CenterWide == Sim \/  \A n \in Limits : Len(Center(Txt, n)) = IF Len(Txt) > n THEN Len(Txt) ELSE n
NoBreaksLeft == ~HasChar(LineBreaks(Txt), "\n")
UrlSafe == Sim \/ \A i \in 1..Len(UrlEncodeStrict(Txt)) : Ch(UrlEncodeStrict(Txt), i) \in UnreservedSet \cup {"%"}
JoinLaw == Join(pieces, "") = Txt
=============================================================================
