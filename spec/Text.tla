-------------------------------- MODULE Text --------------------------------
(* Text is a TLA+ string.  These are the text functions that the language   *)
(* and its filters are defined with.                                        *)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)

WsChars == {" ", "\n", "\t", "\r"}
IsWsC(c) == c \in WsChars
(* What the filters take for white space (Unicode's property), unlike the   *)
(* four characters the white space control knows.                            *)
UniWsChars == WsChars \cup {"\f", " ", " ", "　"}
IsUniWs(c) == c \in UniWsChars

\* 'text written as an ideal HTML escaper writes it', one character
EscC(c) == CASE c = "<" -> "&lt;"
             [] c = ">" -> "&gt;"
             [] c = "&" -> "&amp;"
             [] c = "\"" -> "&quot;"
             [] c = "'" -> "&#x27;"
             [] OTHER -> c

RECURSIVE MapFrom(_, _, _)
MapFrom(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapFrom(F, s, i + 1)
MapChars(F(_), s) == MapFrom(F, s, 1)

EscHtml(s) == MapChars(EscC, s)
Escape(esc, s) == IF esc = "html" THEN EscHtml(s) ELSE s

RECURSIVE Has(_, _, _)
Has(s, c, i) == IF i > Len(s) THEN FALSE ELSE Ch(s, i) = c \/ Has(s, c, i + 1)
HasChar(s, c) == Has(s, c, 1)

\* first position >= i that is not whitespace (Len + 1 if none)
RECURSIVE FirstNonWs(_, _)
FirstNonWs(s, i) == IF i > Len(s) THEN i ELSE IF IsWsC(Ch(s, i)) THEN FirstNonWs(s, i + 1) ELSE i
RECURSIVE LastNonWs(_, _)
LastNonWs(s, i) == IF i = 0 THEN 0 ELSE IF IsWsC(Ch(s, i)) THEN LastNonWs(s, i - 1) ELSE i

AllWs(s) == FirstNonWs(s, 1) > Len(s)
LeadWs(s) == SubSeq(s, 1, FirstNonWs(s, 1) - 1)
TrailWs(s) == SubSeq(s, LastNonWs(s, Len(s)) + 1, Len(s))
Core(s) == SubSeq(s, FirstNonWs(s, 1), LastNonWs(s, Len(s)))

Minimal(w) == IF w = "" THEN "" ELSE IF HasChar(w, "\n") THEN "\n" ELSE " "

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)
Concat(ss) == JoinFrom(ss, "", 1)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE FindFrom(_, _, _)
\* position of the first occurrence of p in s at or after i, else 0
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
Contains(s, p) == FindFrom(s, p, 1) # 0

RECURSIVE ReplaceAll(_, _, _)
\* every occurrence of the (non-empty) p replaced, left to right
ReplaceAll(s, p, r) == LET k == FindFrom(s, p, 1) IN
   IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o r \o ReplaceAll(SubSeq(s, k + Len(p), Len(s)), p, r)

RECURSIVE SplitOn(_, _)
\* the parts of s between the occurrences of the separator p
SplitOn(s, p) == LET k == FindFrom(s, p, 1) IN
   IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(SubSeq(s, k + Len(p), Len(s)), p)

\* ---- letters ----------------------------------------------------------
Lowers == "abcdefghijklmnopqrstuvwxyzéñ"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉÑ"
PosIn(c, s) == FindFrom(s, c, 1)
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
UpFun == [c \in CharsOf(Lowers) |-> Ch(Uppers, PosIn(c, Lowers))]
LoFun == [c \in CharsOf(Uppers) |-> Ch(Lowers, PosIn(c, Uppers))]
UpC(c) == CASE c = "ß" -> "SS" [] c = "ﬁ" -> "FI" [] c \in {"σ", "ς"} -> "Σ" [] c \in DOMAIN UpFun -> UpFun[c] [] OTHER -> c
LoC(c) == IF c = "Σ" THEN "σ" ELSE IF c \in DOMAIN LoFun THEN LoFun[c] ELSE c
Upper(s) == MapChars(UpC, s)
\* in lower case, a sigma that ends a word has a form of its own (Unicode's Final_Sigma)
Cased(c) == c \in DOMAIN UpFun \cup DOMAIN LoFun \cup {"ß", "ﬁ", "Σ", "σ", "ς"}
CaseIgnorable(c) == c \in {"'", ".", ":", "^", "`", "​"}
RECURSIVE CasedAt(_, _, _), LowerFrom(_, _)
\* is the next character in direction d (from i on) that is not ignorable a cased one
CasedAt(s, i, d) == i \in 1..Len(s) /\ IF CaseIgnorable(Ch(s, i)) THEN CasedAt(s, i + d, d) ELSE Cased(Ch(s, i))
LowerFrom(s, i) == IF i > Len(s) THEN ""
   ELSE (IF Ch(s, i) = "Σ" /\ CasedAt(s, i - 1, -1) /\ ~CasedAt(s, i + 1, 1) THEN "ς" ELSE LoC(Ch(s, i))) \o LowerFrom(s, i + 1)
Lower(s) == IF HasChar(s, "Σ") THEN LowerFrom(s, 1) ELSE MapChars(LoC, s)
=============================================================================
