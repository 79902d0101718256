------------------------------ MODULE ObjectsMC ------------------------------
EXTENDS Objects, Json
K == {"c", "s", "f", "i", "l"}
RK == {"c", "s", "l"}
Sub == [c |-> {"f", "i"}, s |-> {"s"}, f |-> {}, i |-> {}, l |-> {}]
N2 == {<<2>>, <<1, 3>>}
N5 == {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>}
View == <<phase, auto, prod, tree, todo, next, group, stack, opened, done, index, out, Edits>>
\* behaviours of full size only
NextSim == \/ NextMake
           \/ /\ Cardinality(DOMAIN prod.objs) = MaxObjs /\ \E m \in BOOLEAN : Extract(m)
           \/ NextEdit
           \/ Edits = MaxEdits /\ Start
\* the same, without edits of texts
NextShape == \/ NextMake
             \/ Cardinality(DOMAIN prod.objs) = MaxObjs /\ Extract(TRUE)
             \/ \E i \in DOMAIN tree.objs : Drop(i)
             \/ \E i \in DOMAIN tree.objs : Reid(i)
             \/ \E u \in {0} \cup DOMAIN tree.objs : \E k \in Kinds : \E n \in Names : \E x \in SUBSET SubOf[k] :
                  Put(u, k, n, SetToSeq(x))
             \/ Edits = MaxEdits /\ Start
Emit == phase = "build" /\ done = {} /\ opened = {} => PrintT("@@" \o ToJson(hist))
=============================================================================
