------------------------------ MODULE ModulesMC ------------------------------
EXTENDS Modules, Json
L(k, t) == [k |-> k, t |-> t]
Lines == {L("d", 1), L("c", 1), L("t", 1), L("t", 2)}
Txt3 == {<<>>} \cup {<<a>> : a \in Lines} \cup {<<a, b>> : a, b \in Lines} \cup {<<a, b, c>> : a, b, c \in Lines}
\* for simulation: t numbers the text of the line
More == {L("d", i) : i \in 1..6} \cup {L("c", i) : i \in 1..6} \cup {L("t", i) : i \in 1..16}
RECURSIVE Rnd(_)
Rnd(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(More)>> \o Rnd(n - 1)
Some(n) == Rnd(RandomElement({0, 1, 1, 2, 3, 5, 8, 13}))
P4 == {"plain", "old", "form", "quoted"}
E5 == {"utf8", "bom", "cp1251", "opaque", "image"}
InitSim == /\ \E p \in Places : \E e \in Encodings : \E i \in 1..40 :
                 /\ EncodingOK(p, e)
                 /\ mod = [place |-> p, enc |-> e, lines |-> ToStored(p, e, Some(i))]
           /\ first = mod /\ src = <<None>> /\ phase = "product" /\ hist = <<>>
\* texts are written, and the module is built, in this order
NextSim == \/ Extract
           \/ phase = "sources" /\ Edit(ToSource(mod.place, mod.enc, Some(Len(hist))))
           \/ Build \/ Again
Emit == phase = "built" => PrintT("@@" \o ToJson([mod |-> first, ops |-> hist]))
=============================================================================
