-------------------------------- MODULE FileName --------------------------------
(* What the name of a template's file says about its contents.                *)
EXTENDS Text

No == "--"        \* an option that is not given
RECURSIVE LastIdx(_, _, _)
LastIdx(s, x, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = x THEN i ELSE LastIdx(s, x, i - 1)
BaseName(n) == SubSeq(n, LastIdx(n, "/", Len(n)) + 1, Len(n))
\* the last extension; a leading dot does not start one
LastExt(n) == LET b == BaseName(n)  d == LastIdx(b, ".", Len(b)) IN IF d <= 1 THEN No ELSE SubSeq(b, d + 1, Len(b))
Stem(n) == LET b == BaseName(n) IN SubSeq(b, 1, LastIdx(b, ".", Len(b)) - 1)
Jinja == {"j2", "jinja", "jinja2"}
\* the extension that says what is in the file
Ext(n) == LET e == LastExt(n) IN
  IF e \in Jinja THEN (IF LastExt(Stem(n)) = No THEN e ELSE LastExt(Stem(n))) ELSE e


\* the MIME type that goes with an extension; "" for those that are not specified here
MimeTable == [html |-> "text/html; charset=utf-8", htm |-> "text/html; charset=utf-8", txt |-> "text/plain; charset=utf-8", css |-> "text/css; charset=utf-8",
              csv |-> "text/csv; charset=utf-8", tsv |-> "text/tab-separated-values; charset=utf-8", md |-> "text/markdown", svg |-> "image/svg+xml", xml |-> "text/xml", json |-> "application/json", foo |-> "application/octet-stream"]
MimeOf(e) == IF e = No THEN "text/plain; charset=utf-8" ELSE IF e \in DOMAIN MimeTable THEN MimeTable[e] ELSE ""
=============================================================================
