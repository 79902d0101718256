--------------------------- MODULE AttachmentsMC ---------------------------
EXTENDS Attachments, Json
K4 == {"raw", "text", "held", "blob"}
D3 == {0, 1, 2, 3}
S2 == {1, 2}
\* for simulation: data are numbers of contents
Dat == 0..12
NextSim == \/ Extract \/ Build \/ Again
           \/ phase = "sources" /\ (\E d \in Dat : Put(d))
           \/ Remove
Emit == phase = "built" => PrintT("@@" \o ToJson([att |-> first, ops |-> hist]))
=============================================================================
