------------------------------ MODULE OrdForm ------------------------------
(* An ordinary form in the product and in the sources (taken apart with auto_include).

   In the product a form has attributes (with ids) and panels; the form itself is a panel.  A panel has pages and one
   list of elements, among them panels; an element has an id that is its own in the whole form, and tells the number of
   its page.  An element tells by ids what its sides are anchored to (another element, the panel, itself), and, once
   more, which elements are anchored to it; a panel has lists of what is anchored to it, side by side; a list of the form
   tells which element shows which attribute.  In the sources the elements are a tree: pages, their elements, the pages
   of panels; what refers to an element or an attribute does so by name.  A page or a panel named include_X is an area:
   its file may come from another form.

   Node: [d depth, n name, t "page"/"el"/"panel", a holder of the area, id, lk id of the attribute or 0,
          at sequence of [s side 1..6, k slot 1..2, r what to, b its border 0..5], by sequence of [l list 1..4, r, b]].
   Refers: 0 the panel; an id that is not there (Odd): the platform means the element itself.
   Form: [els, props, known].  known: FALSE - contains an element the program does not know; kept as it is.              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS PropNames, Ids, Odd, MaxProps, MaxEls, MaxEdits

VARIABLES phase, fm, sr, out, hist
vars == <<phase, fm, sr, out, hist>>

\* ---- trees as sequences of nodes ----
Parent(t, i) == IF t[i].d = 1 THEN 0 ELSE Max({j \in 1..(i - 1) : t[j].d = t[i].d - 1})
LastBelow(t, i) == LET c == {j \in (i + 1)..Len(t) : t[j].d <= t[i].d} IN IF c = {} THEN Len(t) ELSE Min(c) - 1
RECURSIVE InArea(_, _)
InArea(t, i) == i # 0 /\ (t[i].a \/ InArea(t, Parent(t, i)))
Cut(t, a, b) == SubSeq(t, 1, a - 1) \o SubSeq(t, b + 1, Len(t))
Put(t, at, part) == SubSeq(t, 1, at) \o part \o SubSeq(t, at + 1, Len(t))
Shift(part, by) == [k \in DOMAIN part |-> [part[k] EXCEPT !.d = @ + by]]
IsEl(t, i) == t[i].t # "page"
Els(t) == {i \in DOMAIN t : IsEl(t, i)}
PanelOf(t, i) == IF i = 0 THEN 0 ELSE IF t[i].t = "page" THEN Parent(t, i) ELSE Parent(t, Parent(t, i))
Peers(t, i) == {j \in Els(t) : PanelOf(t, j) = PanelOf(t, i)}
PageNo(t, i) == Cardinality({j \in 1..(Parent(t, i) - 1) : t[j].t = "page" /\ Parent(t, j) = PanelOf(t, i)})

\* ---- ids and names ----
One(set) == CHOOSE x \in set : TRUE
Of(s, id) == {k \in DOMAIN s : s[k].id = id}
Named(s, n) == {k \in DOMAIN s : s[k].n = n}
PropOf(props, id) == IF Of(props, id) = {} THEN 0 ELSE props[One(Of(props, id))].n
PeerOf(t, i, id) == {j \in Peers(t, i) : t[j].id = id}
PeerNamed(t, i, n) == {j \in Peers(t, i) : t[j].n = n}
ToName(t, i, r) == IF r = 0 THEN 0 ELSE IF PeerOf(t, i, r) = {} THEN t[i].n ELSE t[One(PeerOf(t, i, r))].n

\* ---- extraction ----
NamedNode(f, i) ==
    LET e == f.els[i] IN
    [d |-> e.d, n |-> e.n, t |-> e.t, a |-> e.a, bn |-> PropOf(f.props, e.lk),
     at |-> [k \in DOMAIN e.at |-> [e.at[k] EXCEPT !.r = ToName(f.els, i, @)]],
     by |-> [k \in DOMAIN e.by |-> [e.by[k] EXCEPT !.r = ToName(f.els, i, @)]]]
Shown(f) == IF ~f.known THEN [els |-> <<>>, props |-> <<>>, whole |-> <<f>>]
            ELSE [els |-> [i \in DOMAIN f.els |-> NamedNode(f, i)], props |-> f.props, whole |-> <<>>]

\* ---- building ----
Refs(e) == {e.at[k].r : k \in DOMAIN e.at} \cup {e.by[k].r : k \in DOMAIN e.by}
Buildable(s) == s.whole # <<>> \/
    \A i \in Els(s.els) : /\ \A r \in Refs(s.els[i]) \ {0} : PeerNamed(s.els, i, r) # {}
                          /\ (s.els[i].bn # 0 => Named(s.props, s.els[i].bn) # {})
\* elements are numbered anew, one after another through all panels
Number(t, i) == 1 + Cardinality({j \in Els(t) : j <= i})
ToId(t, i, r) == IF r = 0 THEN 0 ELSE Number(t, One(PeerNamed(t, i, r)))
MadeNode(s, i) ==
    LET e == s.els[i] IN
    [d |-> e.d, n |-> e.n, t |-> e.t, a |-> e.a, id |-> IF IsEl(s.els, i) THEN Number(s.els, i) ELSE 0,
     lk |-> IF e.bn = 0 THEN 0 ELSE s.props[One(Named(s.props, e.bn))].id,
     at |-> [k \in DOMAIN e.at |-> [e.at[k] EXCEPT !.r = ToId(s.els, i, @)]],
     by |-> [k \in DOMAIN e.by |-> [e.by[k] EXCEPT !.r = ToId(s.els, i, @)]]]
Made(s) == IF s.whole # <<>> THEN s.whole[1]
           ELSE [els |-> [i \in DOMAIN s.els |-> MadeNode(s, i)], props |-> s.props, known |-> TRUE]
\* what a panel tells to be anchored to it: [p the panel's name or 0, l list, n the element, b the side of the element]
List(b) == IF b > 3 THEN 1 ELSE b
Indexes(els) ==
    UNION {{[p |-> IF PanelOf(els, i) = 0 THEN 0 ELSE els[PanelOf(els, i)].n, l |-> List(els[i].at[k].b) + 1, n |-> els[i].n,
             b |-> List(els[i].at[k].s - 1)] : k \in {x \in DOMAIN els[i].at : els[i].at[x].r = 0}} : i \in Els(els)}
Distinct(els) == \A i, j \in Els(els) : els[i].id = els[j].id => i = j

\* ---- changes of sources ----
AreaAt(t) == {i \in DOMAIN t : t[i].a}
CanWithArea(s, o) == /\ s.whole = <<>> /\ o.whole = <<>> /\ AreaAt(s.els) # {} /\ AreaAt(o.els) # {}
                     /\ s.els[One(AreaAt(s.els))].t = o.els[One(AreaAt(o.els))].t
WithArea(s, o) ==
    LET i == One(AreaAt(s.els))  j == One(AreaAt(o.els))
        part == SubSeq(o.els, j + 1, LastBelow(o.els, j))
    IN  [s EXCEPT !.els = Put(Cut(@, i + 1, LastBelow(@, i)), i, Shift(part, s.els[i].d - o.els[j].d))]
\* pages other than the only one of a panel
CanDrop(s, i) == s.els[i].t = "page" => \E j \in DOMAIN s.els \ {i} : s.els[j].t = "page" /\ Parent(s.els, j) = Parent(s.els, i)
Dropped(s, i) == [s EXCEPT !.els = Cut(@, i, LastBelow(@, i))]
\* a page becomes the last one of its panel; an element the last one of a page (g) of its panel
CanMove(s, i, g) ==
    IF s.els[i].t = "page" THEN g = 0
    ELSE g # 0 /\ s.els[g].t = "page" /\ PanelOf(s.els, g) = PanelOf(s.els, i)
Moved(s, i, g) ==
    LET part == SubSeq(s.els, i, LastBelow(s.els, i))
        rest == Cut(s.els, i, LastBelow(s.els, i))
        own == IF s.els[i].t = "page" THEN PanelOf(s.els, i) ELSE g
        h == IF own > i THEN own - Len(part) ELSE own
    IN  [s EXCEPT !.els = Put(rest, IF h = 0 THEN Len(rest) ELSE LastBelow(rest, h), part)]
NoProp(s, k) == [s EXCEPT !.props = Cut(@, k, k)]
CanTakeProp(s, o, k) == /\ s.whole = <<>> /\ Named(s.props, o.props[k].n) = {} /\ Of(s.props, o.props[k].id) = {}
WithProp(s, o, k) == [s EXCEPT !.props = Append(@, o.props[k])]
Swapped(s) == [s EXCEPT !.props = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]]
\* an element or a page of the donor becomes the last one of a page (of a panel) g of the form
CanTakeEl(s, o, i, g) ==
    /\ s.whole = <<>> /\ o.whole = <<>> /\ ~InArea(o.els, i) /\ ~\E j \in i..LastBelow(o.els, i) : o.els[j].a
    /\ IF o.els[i].t = "page" THEN g = 0 ELSE g # 0 /\ s.els[g].t = "page"
    /\ {o.els[j].n : j \in i..LastBelow(o.els, i)} \cap {s.els[j].n : j \in DOMAIN s.els} = {}
WithEl(s, o, i, g) ==
    [s EXCEPT !.els = Put(@, IF g = 0 THEN Len(@) ELSE LastBelow(@, g),
                          Shift(SubSeq(o.els, i, LastBelow(o.els, i)), (IF g = 0 THEN 1 ELSE s.els[g].d + 1) - o.els[i].d))]

\* ---- model ----
NoForm == [els |-> <<>>, props |-> <<>>, known |-> TRUE]
NoSrc == [els |-> <<>>, props |-> <<>>, whole |-> <<>>]
Init == phase = "make" /\ sr = <<NoSrc, NoSrc>> /\ out = NoForm /\ hist = <<>> /\ fm = <<NoForm, NoForm>>
AddProp(k, p) ==
    LET f == fm[k] IN
    /\ phase = "make" /\ f.els = <<>> /\ Len(f.props) < MaxProps /\ Named(f.props, p.n) = {} /\ Of(f.props, p.id) = {}
    /\ fm' = [fm EXCEPT ![k].props = Append(@, p)]
\* e may follow as the last node of the tree: pages in panels, elements on pages, every panel has a page
Inside(t, e) ==
    LET last == IF t = <<>> THEN 0 ELSE t[Len(t)].d IN
    /\ e.d <= last + 1
    /\ (e.t = "page") = (e.d % 2 = 1)
    /\ (t # <<>> /\ t[Len(t)].t = "panel" => e.d = last + 1)
    /\ (e.d > last /\ t # <<>> => t[Len(t)].t # "el")
    /\ (e.a => e.t # "el" /\ AreaAt(t) = {})
AddEl(k, e) ==
    /\ phase = "make" /\ Len(fm[k].els) < MaxEls /\ Inside(fm[k].els, e)
    /\ (IsEl(<<e>>, 1) => ~\E j \in Els(fm[k].els) : fm[k].els[j].id = e.id)
    /\ fm' = [fm EXCEPT ![k].els = Append(@, e)]
\* a side of an element anchored to another element of its page, to the panel, to itself or to nothing there is
Targets(t, i) == {0, t[i].id, Odd} \cup {t[j].id : j \in {x \in Els(t) : Parent(t, x) = Parent(t, i)}}
Anchor(k, i, s, slot, r, b) ==
    LET t == fm[k].els
        there == {j \in Els(t) : Parent(t, j) = Parent(t, i) /\ t[j].id = r}
    IN  /\ phase = "make" /\ IsEl(t, i) /\ r \in Targets(t, i)
        /\ ~\E x \in DOMAIN t[i].at : t[i].at[x].s = s /\ t[i].at[x].k = slot
        /\ LET t1 == [t EXCEPT ![i].at = Append(@, [s |-> s, k |-> slot, r |-> r, b |-> b])]
           IN  fm' = [fm EXCEPT ![k].els =
                        IF there = {} THEN t1
                        ELSE [t1 EXCEPT ![One(there)].by = Append(@, [l |-> List(b) + 1, r |-> t[i].id, b |-> List(s - 1)])]]
Complete(f) == f.els # <<>> /\ f.els[Len(f.els)].t # "panel"
Extract == /\ phase = "make" /\ Complete(fm[1]) /\ Complete(fm[2])
           /\ phase' = "sources" /\ sr' = <<Shown(fm[1]), Shown(fm[2])>> /\ UNCHANGED <<fm, out, hist>>
Step(op, i, g) == hist' = Append(hist, [op |-> op, i |-> i, g |-> g])
EditOf(ops) ==
    /\ phase = "sources" /\ UNCHANGED <<phase, fm, out>>
    /\ LET s == sr[2]
           o == sr[1]
           To(op, i, g, new) == op \in ops /\ sr' = [sr EXCEPT ![2] = new] /\ Step(op, i, g)
       IN
       \/ \E i \in DOMAIN s.els : CanDrop(s, i) /\ To("drop", i, 0, Dropped(s, i))
       \/ \E i \in DOMAIN s.els, g \in 0..Len(s.els) : CanMove(s, i, g) /\ To("move", i, g, Moved(s, i, g))
       \/ \E k \in DOMAIN s.props : To("noprop", k, 0, NoProp(s, k))
       \/ \E k \in DOMAIN o.props : CanTakeProp(s, o, k) /\ To("prop", k, 0, WithProp(s, o, k))
       \/ Len(s.props) > 1 /\ To("swap", 0, 0, Swapped(s))
       \/ \E i \in DOMAIN o.els, g \in 0..Len(s.els) : CanTakeEl(s, o, i, g) /\ To("el", i, g, WithEl(s, o, i, g))
       \/ CanWithArea(s, o) /\ To("area", 0, 0, WithArea(s, o))
Build == /\ phase = "sources" /\ UNCHANGED <<fm, sr, hist>>
         /\ IF Buildable(sr[2]) THEN phase' = "built" /\ out' = Made(sr[2]) ELSE phase' = "failed" /\ out' = out

\* ---- what must hold ----
Bones(els) == [i \in DOMAIN els |-> [d |-> els[i].d, n |-> els[i].n, t |-> els[i].t]]
\* nothing done to the sources: the same form, with other numbers
SameForm == (phase = "built" /\ hist = <<>>) => Shown(out) = sr[2] /\ Bones(out.els) = Bones(fm[2].els)
                                               /\ Indexes(out.els) = Indexes(fm[2].els)
\* the form is what the sources say
ByNames == (phase = "built" /\ sr[2].whole = <<>>) => Shown(out) = sr[2] /\ Distinct(out.els)
\* every reference leads to an element of the same panel, and what is anchored is known to what it is anchored to
Connected == (phase = "built" /\ out.known) =>
    \A i \in Els(out.els) : \A k \in DOMAIN out.els[i].at :
        LET x == out.els[i].at[k] IN x.r # 0 => \E j \in Peers(out.els, i) : out.els[j].id = x.r
Inv == SameForm /\ ByNames /\ Connected
=============================================================================
