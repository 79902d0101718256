----------------------------- MODULE OptionsMC -----------------------------
EXTENDS Options, Json
\* 1 the prefix, 2..5 words, 7 name of the product, 8 separator, 9 mark, 10 colon, 6 name of the file
Pre == {<<>>, <<1>>}
Name(w) == {<<w>>, <<1, w>>}
Note == {<<2>>, <<2, 9, 3>>}
Obj(w, top, own, dp) == {[name |-> n, top |-> top, own |-> own, dp |-> dp, note |-> t] : n \in Name(w), t \in IF dp THEN Note ELSE {<<2>>}}
Tops == Obj(2, TRUE, TRUE, FALSE) \cup {[name |-> <<1, 1, 2>>, top |-> TRUE, own |-> TRUE, dp |-> FALSE, note |-> <<2>>]}
Of(k, a, b, c, d, v, t) == [kind |-> k, objs |-> <<a, b, c, d>>, compat |-> "A", pre |-> <<>>, ver |-> v, note |-> t]
Prods == UNION {{Of(k, a, b, c, d, v, t) : a \in Tops, b \in Obj(3, TRUE, TRUE, k # "epf"), c \in Obj(4, TRUE, FALSE, FALSE),
                   d \in Obj(5, FALSE, TRUE, FALSE), v \in {<<2>>, <<7, 8, 2>>, <<7, 2>>}, t \in Note} : k \in {"cf", "cfe", "epf"}}
ProdsFew == {p \in Prods : p.ver = <<2>> \/ p.kind = "cfe"}
Vers == {"", "B"}
Gs == {<<>>, <<7>>}
Rel == {<<>>, <<4, 4>>, <<7, 4>>}
Out == {<<6>>}
SepS == <<8>>
MarkS == <<9>>
ColonS == <<10>>
View == <<phase, prod, first, src, IF hist = <<>> THEN <<>> ELSE <<LastOf>>, Len(hist)>>
\* simulation
NextSim == /\ Len(hist) < MaxSteps
           /\ \/ \E v \in Vers, pre \in Pre : Extract(v, pre)
              \/ \E t \in Rel : Release(t)
              \/ \E v \in Vers, pre \in Pre, g \in Gs : Build(v, pre, g, <<6>>)
Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson([first |-> first, ops |-> hist]))
=============================================================================
