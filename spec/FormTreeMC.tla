----------------------------- MODULE FormTreeMC -----------------------------
EXTENDS FormTree, Json
View == <<phase, fm, sr, out, Len(hist)>>
\* exhaustive: the donor is an area of one element, one of a few; the target is any form of few parts
P1 == [n : {"a"}, id : {1}, ty : {"host1"}, ch : {<<>>, <<[n |-> "c", id |-> 2]>>}]
Donors == {[NoForm EXCEPT !.host = "host1", !.props = p, !.cmds = c,
              !.els = <<[d |-> 1, n |-> 100, t |-> "Group", a |-> TRUE, lk |-> <<>>, cm |-> 0], e>>] :
             p \in {<<x>> : x \in P1}, c \in {<<[n |-> "k", id |-> 1]>>},
             e \in {[d |-> 2, n |-> 101, t |-> t[1], a |-> FALSE, lk |-> t[2], cm |-> t[3]] :
                    t \in {<<"Field", <<1>>, 0>>, <<"Field", <<1, 2>>, 0>>, <<"Table", <<1>>, 0>>, <<"Button", <<>>, 1>>, <<"Button", <<>>, 0>>}}}
WellBound(f) == \A i \in DOMAIN f.els : Len(f.els[i].lk) = 2 => f.props[1].ch # <<>>
InitX == /\ phase = "make" /\ sr = <<NoSrc, NoSrc>> /\ out = NoForm /\ hist = <<>>
         /\ \E d \in {x \in Donors : WellBound(x)}, h \in {"host2", ""} : fm = <<d, [NoForm EXCEPT !.host = h]>>
\* simulation: forms are made to a size drawn at random
VARIABLE want
WInit == Init /\ want = <<>>
Pairs(S, T) == {<<RandomElement(S), RandomElement(T)>>}
Draw == /\ want = <<>> /\ UNCHANGED vars
        /\ \E p \in Pairs(0..MaxProps, 0..MaxProps), c \in Pairs(0..MaxCmds, 0..MaxCmds), e \in Pairs({0, 2, 4, MaxEls - 2}, {1, 3, 5, MaxEls}),
              at \in Pairs({0, 1, 99}, {0, 1, 3, 99}), f \in {"any", "area", "like", "form", "none"}, n \in 0..MaxEdits :
              want' = IF f = "like"      \* forms with the same names and other ids, the area of one taken to the other
                      THEN [p |-> <<2, 3>>, c |-> <<2, 2>>, e |-> <<6, e[2]>>, at |-> <<0, 1>>, first |-> "area", edits |-> Max({n, 1}), like |-> TRUE]
                      ELSE [p |-> p, c |-> c, e |-> e, at |-> at, first |-> f, edits |-> n, like |-> FALSE]
Parted == {"Group", "Group2", "Table", "Field", "Field2", "Field3", "Button", "Button2", "Decoration"}
TypeOf(t) == CASE t = "Group2" -> "Group" [] t \in {"Field2", "Field3"} -> "Field" [] t = "Button2" -> "Button" [] OTHER -> t
One1(S) == {RandomElement(S)}             \* bound by \E: drawn once
Good(f) == {lk \in LinksOf(f) : NamesOf(f.props, lk) # <<>>}
DonorCols(n) == IF Named(fm[1].props, n) = {} THEN <<>> ELSE fm[1].props[One(Named(fm[1].props, n))].ch
MakeEl(k, f) ==
    LET area == AreaAt(f) = {} /\ Len(f.els) >= want.at[k]
        top == IF f.els = <<>> THEN 1 ELSE f.els[Len(f.els)].d + 1
    IN  \E t \in (IF area THEN {"Group"} ELSE {TypeOf(RandomElement(Parted))}) :
        \E lk \in (IF t \in {"Field", "Table"} THEN One1(IF want.like /\ Good(f) # {} THEN Good(f) ELSE LinksOf(f)) ELSE {<<>>}) :
        \E cm \in (IF t = "Button" /\ f.cmds # <<>> THEN One1({0} \cup {f.cmds[j].id : j \in DOMAIN f.cmds}) ELSE {0}) :
        LET e == [n |-> k * 100 + Len(f.els), t |-> t, a |-> area, lk |-> lk, cm |-> cm]
            ok == {j \in 1..top : Inside(f, [d |-> j] @@ e)}
        IN  \E d \in One1(ok), x \in One1(1..3) : AddEl(k, [d |-> IF x = 1 THEN d ELSE Max(ok)] @@ e)
MakeSim == /\ UNCHANGED <<phase, sr, out, hist, want>>
           /\ LET k == IF Len(fm[1].els) < want.e[1] THEN 1 ELSE 2
                  f == fm[k]
              IN  \/ /\ Len(f.props) < want.p[k]
                     /\ \E n \in IF k = 2 /\ want.like /\ Len(f.props) < 2 THEN {fm[1].props[Len(f.props) + 1].n} ELSE PropNames, id \in Ids : \E ty \in One1(Types), nc \in One1(0..2), c1 \in One1(ColNames), j1 \in One1(Ids) :
                        \E c2 \in One1(ColNames \ {c1}), j2 \in One1(Ids \ {j1}) :
                          AddProp(k, [n |-> n, id |-> id, ty |-> ty,
                                 ch |-> LET own == SubSeq(<<[n |-> c1, id |-> j1], [n |-> c2, id |-> j2]>>, 1, nc)
                                            their == DonorCols(n)
                                        IN  IF k = 2 /\ want.like /\ their # <<>>
                                            THEN [i \in DOMAIN their |-> [n |-> their[i].n, id |-> <<j1, j2>>[i]]] ELSE own])
                  \/ /\ Len(f.props) = want.p[k] /\ Len(f.cmds) < want.c[k]
                     /\ \E n \in IF k = 2 /\ want.like THEN {fm[1].cmds[Len(f.cmds) + 1].n} ELSE CmdNames, id \in Ids : AddCmd(k, [n |-> n, id |-> id])
                  \/ Len(f.props) = want.p[k] /\ Len(f.cmds) = want.c[k] /\ Len(f.els) < want.e[k] /\ MakeEl(k, f)
Ready == Len(fm[1].els) = want.e[1] /\ Len(fm[2].els) = want.e[2]
\* what is done first, and then anything; an unknown element now and then
Kinds == {"drop", "move", "prop", "el", "area", "other"}
Allowed(x) == IF hist = <<>> /\ want.first # "any" THEN {want.first} ELSE IF x = "other" THEN {"noprop", "nocols", "nocmd", "swap"} ELSE {x}
Go ==      \/ ~Ready /\ phase = "make" /\ MakeSim
           \/ /\ Ready /\ phase = "make" /\ UNCHANGED <<out, hist, want>> /\ phase' = "sources"
              /\ \E k \in One1({1, 2}), x \in One1(1..10) :
                    fm' = [fm EXCEPT ![k].known = ~(x = 1 /\ fm[k].els # <<>>)]
              /\ sr' = [j \in {1, 2} |-> Shown(fm'[j])]
           \/ want.first # "none" /\ Len(hist) < want.edits /\ (\E x \in Kinds : EditOf(Allowed(x))) /\ UNCHANGED want
           \/ (want.first = "none" \/ hist # <<>> \/ want.edits = 0) /\ Build /\ UNCHANGED want
SimNext == Draw \/ (want # <<>> /\ Go)
Emit == phase \in {"built", "failed"} => PrintT("@@" \o ToJson([fm |-> fm, ops |-> hist, ok |-> phase = "built"]))
Next1 == /\ \/ MakeOf({2})
            \/ fm[2].els # <<>> /\ Extract
            \/ Edit
            \/ Build
         /\ UNCHANGED want
Spec1 == InitX /\ want = 0 /\ [][Next1]_<<vars, want>>
=============================================================================
