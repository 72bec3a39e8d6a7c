---------------------------------- MODULE Web ----------------------------------
(* A web application that answers requests with templates: every rendering of *)
(* MC is answered by a response.                                              *)
EXTENDS MC
FN == INSTANCE FileName

VARIABLE sent
wvars == <<ph, au, pg, rs, todo, done, sent>>

TypeOf == FN!MimeOf(FN!Ext(pg.mainrel))
\* a rendering is answered as a whole, or by an error
Response == IF rs.st = "done" THEN [status |-> 200, type |-> TypeOf, body |-> rs.outs[1]]
            ELSE [status |-> 500, type |-> "", body |-> ""]

WInit == Init /\ sent = <<>>
Working == Inner /\ UNCHANGED sent
Respond == FinishRun /\ sent' = Append(sent, Response)
WReport == /\ ph = "next" /\ todo = <<>>
           /\ PrintT("CASE " \o ToJson([sent |-> sent] @@ Case))
           /\ ph' = "done" /\ UNCHANGED <<au, pg, rs, todo, done, sent>>
WNext == Working \/ Respond \/ WReport
WSpec == WInit /\ [][WNext]_wvars

\* one response per request, successful only with the complete text
OnePerRequest == ph \in {"next", "run"} => Len(sent) = Len(done)
NeverPartial == \A k \in 1..Len(sent) : (sent[k].status = 200) <=> (done[k].st = "done" /\ sent[k].body = done[k].out)
FaultsShow == \A k \in 1..Len(sent) : done[k].er # "" => sent[k].status >= 500
=============================================================================
