------------------------------- MODULE Filters -------------------------------
(* The built-in text filters as functions on text, as the book documents    *)
(* them.  n is the filter's number argument (0 if it has none).             *)
EXTENDS Text, TLC

Capitalize(s) == IF s = "" THEN "" ELSE UpC(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

\* upper case after whitespace (or the start), lower case elsewhere
RECURSIVE TitleFrom(_, _, _)
TitleFrom(s, i, up) == IF i > Len(s) THEN ""
   ELSE LET c == Ch(s, i) IN
        IF IsUniWs(c) THEN c \o TitleFrom(s, i + 1, TRUE)
        ELSE (IF up THEN UpC(c) ELSE LoC(c)) \o TitleFrom(s, i + 1, FALSE)
Title(s) == TitleFrom(s, 1, TRUE)

RECURSIVE TrimL(_, _)
TrimL(s, i) == IF i <= Len(s) /\ IsUniWs(Ch(s, i)) THEN TrimL(s, i + 1) ELSE i
RECURSIVE TrimR(_, _)
TrimR(s, i) == IF i > 0 /\ IsUniWs(Ch(s, i)) THEN TrimR(s, i - 1) ELSE i
Trim(s) == SubSeq(s, TrimL(s, 1), TrimR(s, Len(s)))

\* bytes that a character takes in UTF-8
Width(c) == IF c \in {"é", "ñ", "ß", "É", "Ñ", "«", " ", "Σ", "σ", "ς"} THEN 2
            ELSE IF c \in {"日", "本", "€", " ", "　", "​", "ﬁ"} THEN 3
            ELSE 1
RECURSIVE BytesFrom(_, _)
BytesFrom(s, i) == IF i > Len(s) THEN 0 ELSE Width(Ch(s, i)) + BytesFrom(s, i + 1)
Bytes(s) == BytesFrom(s, 1)

\* truncate(n): the first n bytes, but the character that byte n falls in is kept whole; "..."
\* marks that something was dropped
RECURSIVE TruncPos(_, _, _, _)
TruncPos(s, i, b, n) == IF b >= n \/ i > Len(s) THEN i - 1 ELSE TruncPos(s, i + 1, b + Width(Ch(s, i)), n)
Truncate(s, n) == LET k == TruncPos(s, 1, 0, n) IN IF k = Len(s) THEN s ELSE SubSeq(s, 1, k) \o "..."

\* center(n): padded with spaces to n characters, the extra one on the right
Center(s, n) == IF Len(s) >= n THEN s
                ELSE Rep(" ", (n - Len(s)) \div 2) \o s \o Rep(" ", (n - Len(s)) - (n - Len(s)) \div 2)

\* indent(n): n spaces after each line break but one that ends the text
RECURSIVE IndentFrom(_, _, _)
IndentFrom(s, i, n) == IF i > Len(s) THEN ""
   ELSE (IF i > 1 /\ Ch(s, i - 1) = "\n" THEN Rep(" ", n) ELSE "") \o Ch(s, i) \o IndentFrom(s, i + 1, n)
Indent(s, n) == IndentFrom(s, 1, n)

RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, inw) == IF i > Len(s) THEN 0
   ELSE LET w == ~IsUniWs(Ch(s, i)) IN (IF w /\ ~inw THEN 1 ELSE 0) + WordsFrom(s, i + 1, w)
WordCount(s) == WordsFrom(s, 1, FALSE)

LineBreaks(s) == "<p>" \o ReplaceAll(ReplaceAll(s, "\n\n", "</p><p>"), "\n", "<br/>") \o "</p>"
LineBreaksBr(s) == ReplaceAll(s, "\n", "<br/>")
\* paragraphs are what double line breaks separate; empty ones vanish, single line breaks stay
RECURSIVE ParasFrom(_, _)
ParasFrom(ps, i) == IF i > Len(ps) THEN "" ELSE (IF ps[i] = "" THEN "" ELSE "<p>" \o ps[i] \o "</p>") \o ParasFrom(ps, i + 1)
ParagraphBreaks(s) == ParasFrom(SplitOn(s, "\n\n"), 1)

\* percent encoding of the UTF-8 bytes of everything but unreserved characters (and "/")
Unreserved == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~"
Pct(c) == CASE c = " " -> "%20" [] c = "\n" -> "%0A" [] c = "\t" -> "%09" [] c = "<" -> "%3C" [] c = ">" -> "%3E"
            [] c = "&" -> "%26" [] c = "\"" -> "%22" [] c = "'" -> "%27" [] c = "%" -> "%25" [] c = "/" -> "%2F"
            [] c = "?" -> "%3F" [] c = "=" -> "%3D" [] c = "+" -> "%2B" [] c = "!" -> "%21" [] c = "," -> "%2C"
            [] c = "~" -> "%7E" [] c = "{" -> "%7B" [] c = "}" -> "%7D" [] c = "\\" -> "%5C" [] c = "#" -> "%23"
            [] c = "é" -> "%C3%A9" [] c = "É" -> "%C3%89" [] c = "ñ" -> "%C3%B1" [] c = "ß" -> "%C3%9F"
            [] c = "日" -> "%E6%97%A5" [] c = "本" -> "%E6%9C%AC" [] c = "€" -> "%E2%82%AC"
            [] c = " " -> "%C2%A0" [] c = " " -> "%E2%80%83" [] c = "\f" -> "%0C" [] c = "\r" -> "%0D"
            [] c = "«" -> "%C2%AB" [] c = "$" -> "%24" [] c = ";" -> "%3B" [] c = ":" -> "%3A" [] c = "|" -> "%7C" [] c = "@" -> "%40"
            [] c = "(" -> "%28" [] c = ")" -> "%29" [] c = "*" -> "%2A" [] c = "[" -> "%5B" [] c = "]" -> "%5D"
            [] c = "^" -> "%5E" [] c = "`" -> "%60" [] c = "Ñ" -> "%C3%91"
            [] c = "Σ" -> "%CE%A3" [] c = "σ" -> "%CF%83" [] c = "ς" -> "%CF%82" [] c = "ﬁ" -> "%EF%AC%81"
            [] c = "　" -> "%E3%80%80" [] c = "​" -> "%E2%80%8B"
            [] OTHER -> Assert(FALSE, <<"no percent encoding for", c>>)
UnreservedSet == CharsOf(Unreserved)
PctC(c) == IF c \in UnreservedSet THEN c ELSE Pct(c)
PctP(c) == IF c = "/" THEN c ELSE PctC(c)
UrlEncode(s) == MapChars(PctP, s)
UrlEncodeStrict(s) == MapChars(PctC, s)

\* what a user-defined filter of the harness does
Wrap(s) == "[" \o s \o "]"

Apply(f, s, n) == CASE f = "upper" -> Upper(s) [] f = "uppercase" -> Upper(s)
                    [] f = "lower" -> Lower(s) [] f = "lowercase" -> Lower(s)
                    [] f = "capitalize" -> Capitalize(s) [] f = "title" -> Title(s)
                    [] f = "trim" -> Trim(s) [] f = "truncate" -> Truncate(s, n)
                    [] f = "center" -> Center(s, n) [] f = "indent" -> Indent(s, n)
                    [] f = "linebreaks" -> LineBreaks(s) [] f = "linebreaksbr" -> LineBreaksBr(s)
                    [] f = "paragraphbreaks" -> ParagraphBreaks(s)
                    [] f = "urlencode" -> UrlEncode(s) [] f = "urlencode_strict" -> UrlEncodeStrict(s)
                    [] f = "wordcount" -> ToString(WordCount(s))
                    [] f = "wrap" -> Wrap(s)
HasArg(f) == f \in {"truncate", "center", "indent"}
=============================================================================
