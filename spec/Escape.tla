-------------------------------- MODULE Escape --------------------------------
(* The escapers as writers: a value's Display writes its text in pieces, the *)
(* HTML escaper passes on each piece with its special characters replaced.    *)
(* Whatever the pieces are, what comes out is the escaped text; each place    *)
(* that escapes or does not is checked against it with the same pieces.       *)
EXTENDS Text, TLC, Json

CONSTANTS Sim,       \* TRUE: random long texts; FALSE: all short ones
          MaxLen, MaxPieces
VARIABLES pieces, out, over

Alpha == <<"<", ">", "&", "\"", "'", "a", ";", "日">>
\* the neighbours of the special characters, and characters with bytes like theirs
Wide == Alpha \o <<"!", "#", "=", "?", "%", "(", "/", "{", "}", "\\", "\n", "\t", " ", "0", "x", "é", "ß", "«", "€", "本", "`", "&amp;", "&lt;", "&#x27;", "<b>", "--&gt;", "'\"'">>
Rand(k) == Concat([i \in 1..RandomElement(0..4) |-> Wide[RandomElement(1..Len(Wide))]])
Long(k) == Rep(IF k % 2 = 0 THEN "ab" \o Rand(k) ELSE Wide[RandomElement(1..Len(Wide))], RandomElement({3, 9, 17, 40, 70}))
Pieces == {""} \cup {Alpha[i] : i \in DOMAIN Alpha} \cup {Alpha[i] \o Alpha[j] : i, j \in DOMAIN Alpha}

Init == pieces = <<>> /\ out = "" /\ over = FALSE
Txt == Concat(pieces)
Write == /\ ~over /\ Len(pieces) < MaxPieces
         /\ \E p \in IF Sim THEN {IF RandomElement(1..6) = 1 THEN Long(Len(pieces)) ELSE Rand(Len(pieces))} ELSE Pieces :
              /\ Sim \/ Len(Txt) + Len(p) <= MaxLen
              /\ pieces' = Append(pieces, p)
              /\ out' = out \o EscHtml(p)
         /\ UNCHANGED over
Finish == /\ ~over
          /\ Sim => Len(pieces) = MaxPieces
          /\ PrintT("CASE " \o ToJson([ps |-> pieces, text |-> Txt, html |-> EscHtml(Txt), twice |-> EscHtml(EscHtml(Txt)), low |-> EscHtml(Lower(Txt))]))
          /\ over' = TRUE
          /\ UNCHANGED <<pieces, out>>
Next == Write \/ Finish
Spec == Init /\ [][Next]_<<pieces, out, over>>

\* what HTML takes an escaped text for
Entities == <<<<"&lt;", "<">>, <<"&gt;", ">">>, <<"&amp;", "&">>, <<"&quot;", "\"">>, <<"&#x27;", "'">>>>
IsAt(s, p, i) == SubSeq(s, i, IF i + Len(p) - 1 > Len(s) THEN Len(s) ELSE i + Len(p) - 1) = p
RECURSIVE Read(_, _)
Read(s, i) == IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) # "&" THEN Ch(s, i) \o Read(s, i + 1)
  ELSE LET e == {k \in DOMAIN Entities : IsAt(s, Entities[k][1], i)} IN
       IF e = {} THEN "&" \o Read(s, i + 1) ELSE LET k == CHOOSE k \in e : TRUE IN Entities[k][2] \o Read(s, i + Len(Entities[k][1]))
PiecesDoNotMatter == out = EscHtml(Txt)
NothingSpecial == \A c \in {"<", ">", "\"", "'"} : ~HasChar(out, c)
ReadsAsText == Read(out, 1) = Txt
=============================================================================
