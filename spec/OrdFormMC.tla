----------------------------- MODULE OrdFormMC -----------------------------
EXTENDS OrdForm, Json
VARIABLE want
View == <<phase, fm, sr, out, Len(hist)>>
Node(n, t, d, a, id, lk) == [d |-> d, n |-> n, t |-> t, a |-> a, id |-> id, lk |-> lk, at |-> <<>>, by |-> <<>>]
\* ---- exhaustive: donors are areas of one or two elements; the target is any form of few parts ----
Donors == {[props |-> <<[n |-> 1, id |-> 1]>>, known |-> TRUE, els |-> e] :
             e \in {<<Node(100, "page", 1, TRUE, 0, 0), Node(101, "el", 2, FALSE, 2, 1)>>,
                    <<Node(100, "page", 1, FALSE, 0, 0), Node(101, "panel", 2, TRUE, 2, 0), Node(102, "page", 3, FALSE, 0, 0), Node(103, "el", 4, FALSE, 3, 1)>>}}
InitX == /\ phase = "make" /\ sr = <<NoSrc, NoSrc>> /\ out = NoForm /\ hist = <<>> /\ want = 0
         /\ \E d \in Donors : fm = <<d, NoForm>>
MakeX == /\ UNCHANGED <<phase, sr, out, hist, want>>
         /\ LET t == fm[2].els IN
            \/ \E n \in PropNames, id \in Ids : AddProp(2, [n |-> n, id |-> id])
            \/ /\ \A i \in DOMAIN t : t[i].at = <<>>
               /\ \E ty \in {"page", "el", "panel"}, d \in 1..4, a \in BOOLEAN :
                  \E lk \in IF ty = "el" THEN {0} \cup {fm[2].props[j].id : j \in DOMAIN fm[2].props} ELSE {0} :
                    AddEl(2, Node(200 + Len(t), ty, d, a, IF ty = "page" THEN 0 ELSE 12 - Len(t), lk))
            \/ /\ \A i \in DOMAIN t : t[i].at = <<>>
               /\ Complete(fm[2])
               /\ \E i \in DOMAIN t : \E r \in Targets(t, i), s \in {2, 6} : Anchor(2, i, s, 1, r, 3)
NextX == \/ MakeX
         \/ Extract /\ UNCHANGED want
         \/ Len(hist) < MaxEdits /\ EditOf({"drop", "move", "noprop", "prop", "swap", "el", "area"}) /\ UNCHANGED want
         \/ Build /\ UNCHANGED want
SpecX == InitX /\ [][NextX]_<<vars, want>>
\* ---- simulation: forms are made to a size drawn at random ----
One1(S) == {RandomElement(S)}             \* bound by \E: drawn once
WInit == Init /\ want = <<>>
Draw == /\ want = <<>> /\ UNCHANGED vars
        /\ \E p1 \in One1(0..MaxProps), p2 \in One1({0, 0, 1, MaxProps}), e1 \in One1({1, 3, MaxEls - 3}), e2 \in One1({2, 4, MaxEls - 2, MaxEls}),
              n1 \in One1({0, 2, 5}), n2 \in One1({0, 2, 6, 9}), at1 \in One1({0, 1, 3, 99}), at2 \in One1({0, 1, 2, 99}),
              f \in One1({"any", "area", "like", "none", "move", "el", "prop"}), n \in One1(0..MaxEdits) :
              want' = [p |-> IF f = "like" THEN <<2, 3>> ELSE <<p1, p2>>, e |-> <<e1, e2>>, x |-> <<n1, n2>>,
                       at |-> IF f = "like" THEN <<0, 0>> ELSE <<at1, at2>>, first |-> IF f = "like" THEN "area" ELSE f,
                       like |-> f = "like", edits |-> IF f \in {"any", "none"} THEN n ELSE Max({n, 1})]
Sides == {1, 2, 2, 3, 4, 4, 5, 6}
MakeEl(k, f) ==
    LET t == f.els
        last == IF t = <<>> THEN 0 ELSE t[Len(t)].d
        ok == {d \in 1..(last + 1) : \E ty \in {"page", "el", "panel"} : Inside(t, Node(0, ty, d, FALSE, 0, 0))}
        new == {x \in 2..40 : ~\E j \in Els(t) : t[j].id = x}
    IN  \E z \in One1(1..4), d0 \in One1(ok), id \in One1(new), lk0 \in One1({0} \cup {f.props[j].id : j \in DOMAIN f.props}), y \in One1(1..3) :
        LET d == IF z <= 2 THEN Max(ok) ELSE d0
            ty == IF d % 2 = 1 THEN "page" ELSE IF y = 1 /\ d < 6 /\ Len(t) + 2 < want.e[k] THEN "panel" ELSE "el"
            area == ty # "el" /\ AreaAt(t) = {} /\ Len(t) >= want.at[k]
        IN  AddEl(k, Node(k * 100 + Len(t), ty, d, area, IF ty = "page" THEN 0 ELSE id, IF ty = "el" THEN lk0 ELSE 0))

MakeAnchor(k, f) ==
    \E i \in One1(Els(f.els)), s \in One1(1..6), slot \in One1({1, 2}), b \in One1(0..5), z \in One1(1..5) :
    \E r \in One1(IF z = 1 THEN {0} ELSE Targets(f.els, i)) :
        IF \E x \in DOMAIN f.els[i].at : f.els[i].at[x].s = s /\ f.els[i].at[x].k = slot
        THEN UNCHANGED fm ELSE Anchor(k, i, s, slot, r, b)
Grown(k) == Len(fm[k].els) >= want.e[k] /\ Complete(fm[k])
MakeSim == /\ UNCHANGED <<phase, sr, out, hist>>
           /\ LET k == IF Grown(1) /\ want.x[1] = 0 THEN 2 ELSE 1
                  f == fm[k]
              IN  IF Len(f.props) < want.p[k]
                  THEN UNCHANGED want /\ \E n \in One1(IF k = 2 /\ want.like /\ Len(f.props) < Len(fm[1].props) THEN {fm[1].props[Len(f.props) + 1].n}
                                       ELSE {x \in PropNames : Named(f.props, x) = {}}), id \in One1({x \in Ids : Of(f.props, x) = {}}) : AddProp(k, [n |-> n, id |-> id])
                  ELSE IF ~Grown(k) THEN UNCHANGED want /\ MakeEl(k, f)
                  ELSE want' = [want EXCEPT !.x[k] = @ - 1] /\ (IF Els(f.els) = {} THEN UNCHANGED fm ELSE MakeAnchor(k, f))
Ready == want.p[2] = Len(fm[2].props) /\ Grown(1) /\ Grown(2) /\ want.x = <<0, 0>>
Kinds == {"drop", "move", "prop", "el", "area", "other"}
Allowed(x) == IF hist = <<>> /\ want.first # "any" THEN {want.first} ELSE IF x = "other" THEN {"noprop", "swap"} ELSE {x}
Go ==      \/ ~Ready /\ phase = "make" /\ MakeSim
           \/ /\ Ready /\ phase = "make" /\ UNCHANGED <<out, hist, want>> /\ phase' = "sources"
              /\ \E k \in One1({1, 2}), x \in One1(1..16) :
                    fm' = [fm EXCEPT ![k].known = ~(x = 1 /\ Els(fm[k].els) # {})]
              /\ sr' = [j \in {1, 2} |-> Shown(fm'[j])]
           \/ want.first # "none" /\ Len(hist) < want.edits /\ (\E x \in Kinds : EditOf(Allowed(x))) /\ UNCHANGED want
           \/ (want.first = "none" \/ hist # <<>> \/ want.edits = 0) /\ Build /\ UNCHANGED want
SimNext == Draw \/ (want # <<>> /\ Go)
Emit == phase \in {"built", "failed"} => PrintT("@@" \o ToJson([fm |-> fm, ops |-> hist, ok |-> phase = "built"]))
=============================================================================
