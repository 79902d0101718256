------------------------------ MODULE FormTree ------------------------------
(* A managed form in the product and in the sources.

   In the product a form has attributes (with an id, a type, and columns with ids of their own), commands (with an id) and
   a tree of elements; an element says by ids which attribute it shows or which command it runs.  In the sources the
   same is told by names.  A group named include_X is an area: its file may come from another form, and there its
   elements belong to the attributes and commands of the same names.  Elements outside of areas keep what they had.
   An attribute of the type of the object that owns the form gets the type of the object the form is built into.

   Form: [els, props, cmds, known, host].  known: FALSE - contains an element the program does not know; such a form is
   kept as it is.  Element: [d depth, n name, t type, a, lk ids of the attribute, cm id of the command or 0]; a: TRUE for
   the holder of the area.  Attribute: [n, id, ty, ch columns].  Type of attribute "own": that of the owner of the form.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS PropNames, ColNames, CmdNames, Ids, Odd, MaxProps, MaxCmds, MaxEls, MaxEdits, Types, Links3

VARIABLES phase, fm, sr, out, hist
vars == <<phase, fm, sr, out, hist>>

\* ---- trees as sequences of nodes ----
Parent(t, i) == LET c == {j \in 1..(i - 1) : t[j].d = t[i].d - 1} IN IF t[i].d = 1 THEN 0 ELSE Max(c)
LastBelow(t, i) == LET c == {j \in (i + 1)..Len(t) : t[j].d <= t[i].d} IN IF c = {} THEN Len(t) ELSE Min(c) - 1
RECURSIVE InArea(_, _)
InArea(t, i) == i # 0 /\ (t[i].a \/ InArea(t, Parent(t, i)))
Cut(t, a, b) == SubSeq(t, 1, a - 1) \o SubSeq(t, b + 1, Len(t))
Put(t, at, part) == SubSeq(t, 1, at) \o part \o SubSeq(t, at + 1, Len(t))
Shift(part, by) == [k \in DOMAIN part |-> [part[k] EXCEPT !.d = @ + by]]

\* ---- ids and names ----
Of(s, id) == {k \in DOMAIN s : s[k].id = id}
Named(s, n) == {k \in DOMAIN s : s[k].n = n}
One(set) == CHOOSE x \in set : TRUE
\* <<>>: shows nothing of the attributes of the form
NamesOf(props, lk) ==
    IF lk = <<>> \/ Len(lk) > 2 \/ Of(props, lk[1]) = {} THEN <<>>
    ELSE LET p == props[One(Of(props, lk[1]))]
         IN  IF Len(lk) = 1 THEN <<p.n>>
             ELSE IF Of(p.ch, lk[2]) = {} THEN <<>> ELSE <<p.n, p.ch[One(Of(p.ch, lk[2]))].n>>
Found(props, bn) == /\ Named(props, bn[1]) # {}
                    /\ (Len(bn) = 2 => Named(props[One(Named(props, bn[1]))].ch, bn[2]) # {})
IdsOf(props, bn) == LET p == props[One(Named(props, bn[1]))]
                    IN  IF Len(bn) = 1 THEN <<p.id>> ELSE <<p.id, p.ch[One(Named(p.ch, bn[2]))].id>>
CmdOf(cmds, id) == IF Of(cmds, id) = {} THEN "" ELSE cmds[One(Of(cmds, id))].n

\* ---- extraction and building ----
Shown(f) ==
    IF ~f.known THEN [els |-> <<>>, props |-> <<>>, cmds |-> <<>>, whole |-> <<f>>]
    ELSE [els |-> [i \in DOMAIN f.els |-> [d |-> f.els[i].d, n |-> f.els[i].n, t |-> f.els[i].t, a |-> f.els[i].a,
                                           lk |-> f.els[i].lk, cm |-> f.els[i].cm,
                                           bn |-> NamesOf(f.props, f.els[i].lk), cn |-> CmdOf(f.cmds, f.els[i].cm)]],
          props |-> [k \in DOMAIN f.props |-> [f.props[k] EXCEPT !.ty = IF f.host # "" /\ @ = f.host THEN "own" ELSE @]],
          cmds |-> f.cmds, whole |-> <<>>]
Buildable(s, host) == s.whole # <<>> \/
    /\ \A k \in DOMAIN s.props : s.props[k].ty = "own" => host # ""
    /\ \A i \in DOMAIN s.els : InArea(s.els, i) => /\ (s.els[i].bn # <<>> => Found(s.props, s.els[i].bn))
                                                 /\ (s.els[i].cn # "" => Named(s.cmds, s.els[i].cn) # {})
Element(s, i) ==
    LET e == s.els[i]
    IN  [d |-> e.d, n |-> e.n, t |-> e.t, a |-> e.a,
         lk |-> IF InArea(s.els, i) /\ e.bn # <<>> THEN IdsOf(s.props, e.bn) ELSE e.lk,
         cm |-> IF InArea(s.els, i) /\ e.cn # "" THEN s.cmds[One(Named(s.cmds, e.cn))].id ELSE e.cm]
Made(s, host) ==
    IF s.whole # <<>> THEN [s.whole[1] EXCEPT !.host = host]
    ELSE [els |-> [i \in DOMAIN s.els |-> Element(s, i)],
          props |-> [k \in DOMAIN s.props |-> [s.props[k] EXCEPT !.ty = IF @ = "own" THEN host ELSE @]],
          cmds |-> s.cmds, known |-> TRUE, host |-> host]

\* ---- changes of sources ----
AreaAt(s) == {i \in DOMAIN s.els : s.els[i].a}
\* the file of the area of s replaced by that of the area of o
WithArea(s, o) ==
    LET i == One(AreaAt(s))  j == One(AreaAt(o))
        part == SubSeq(o.els, j + 1, LastBelow(o.els, j))
    IN  [s EXCEPT !.els = Put(Cut(@, i + 1, LastBelow(@, i)), i, Shift(part, s.els[i].d - o.els[j].d))]
Dropped(s, i) == [s EXCEPT !.els = Cut(@, i, LastBelow(@, i))]
\* subtree i becomes the last of what element g (0: the form) contains
Holds(t) == t \in {"Group", "Table"}
CanMove(s, i, g) == /\ g < i \/ g > LastBelow(s.els, i)
                    /\ (g # 0 => (Holds(s.els[g].t) /\ (s.els[g].t = "Table" => s.els[i].t \in {"Field", "Group"})))
Moved(s, i, g) ==
    LET part == SubSeq(s.els, i, LastBelow(s.els, i))
        rest == Cut(s.els, i, LastBelow(s.els, i))
        h == IF g > i THEN g - Len(part) ELSE g
    IN  [s EXCEPT !.els = Put(rest, IF h = 0 THEN Len(rest) ELSE LastBelow(rest, h),
                              Shift(part, (IF h = 0 THEN 1 ELSE rest[h].d + 1) - s.els[i].d))]
NoProp(s, k) == [s EXCEPT !.props = Cut(@, k, k)]
NoCmd(s, k) == [s EXCEPT !.cmds = Cut(@, k, k)]
NoCols(s, k) == [s EXCEPT !.props[k].ch = <<>>]
\* parts of the sources of the donor put among those of the form
CanTakeProp(s, o, k) == /\ s.whole = <<>> /\ Named(s.props, o.props[k].n) = {} /\ Of(s.props, o.props[k].id) = {}
WithProp(s, o, k) == [s EXCEPT !.props = Append(@, o.props[k])]
NamesIn(t) == {t[i].n : i \in DOMAIN t}
CanTakeEl(s, o, i) == /\ s.whole = <<>> /\ ~InArea(o.els, i) /\ ~\E j \in i..LastBelow(o.els, i) : o.els[j].a
                      /\ NamesIn(SubSeq(o.els, i, LastBelow(o.els, i))) \cap NamesIn(s.els) = {}
WithEl(s, o, i) == [s EXCEPT !.els = @ \o Shift(SubSeq(o.els, i, LastBelow(o.els, i)), 1 - o.els[i].d)]
Swapped(s) == [s EXCEPT !.props = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]]

\* ---- model ----
NoForm == [els |-> <<>>, props |-> <<>>, cmds |-> <<>>, known |-> TRUE, host |-> ""]
NoSrc == [els |-> <<>>, props |-> <<>>, cmds |-> <<>>, whole |-> <<>>]
Init == /\ phase = "make" /\ sr = <<NoSrc, NoSrc>> /\ out = NoForm /\ hist = <<>>
        /\ \E h \in {"host2", ""} : fm = <<[NoForm EXCEPT !.host = "host1"], [NoForm EXCEPT !.host = h]>>
AddProp(k, p) ==
    LET f == fm[k] IN
    /\ phase = "make" /\ f.els = <<>> /\ f.cmds = <<>> /\ Len(f.props) < MaxProps
    /\ Named(f.props, p.n) = {} /\ Of(f.props, p.id) = {}
    /\ fm' = [fm EXCEPT ![k].props = Append(@, p)]
AddCmd(k, c) ==
    LET f == fm[k] IN
    /\ phase = "make" /\ f.els = <<>> /\ Len(f.cmds) < MaxCmds /\ Named(f.cmds, c.n) = {} /\ Of(f.cmds, c.id) = {}
    /\ fm' = [fm EXCEPT ![k].cmds = Append(@, c)]
\* what an element may show: an attribute, a column, something of an attribute the form does not declare, something unknown
LinksOf(f) == {<<>>} \cup {<<f.props[k].id>> : k \in DOMAIN f.props}
              \cup UNION {{<<f.props[k].id, f.props[k].ch[j].id>> : j \in DOMAIN f.props[k].ch} : k \in DOMAIN f.props}
              \cup (IF f.props = <<>> THEN {} ELSE {<<f.props[1].id, Odd>>})
              \cup (IF Links3 THEN {<<Odd>>} \cup (IF f.props = <<>> THEN {} ELSE {<<f.props[1].id, Odd, Odd>>}) ELSE {})
Inside(f, e) ==      \* e may follow as the last node of the tree
    /\ e.d <= (IF f.els = <<>> THEN 1 ELSE f.els[Len(f.els)].d + 1)
    /\ LET g == IF e.d = 1 THEN 0 ELSE Max({j \in DOMAIN f.els : f.els[j].d = e.d - 1})
       IN  /\ (g # 0 => (Holds(f.els[g].t) /\ (f.els[g].t = "Table" => e.t \in {"Field", "Group"})))
           /\ (e.a => (AreaAt(f) = {}))
AddEl(k, e) ==
    /\ phase = "make" /\ Len(fm[k].els) < MaxEls /\ Inside(fm[k], e)
    /\ fm' = [fm EXCEPT ![k].els = Append(@, e)]
Strange(k) == phase = "make" /\ fm[k].known /\ fm[k].els # <<>> /\ fm' = [fm EXCEPT ![k].known = FALSE]
MakeOf(ks) ==
        /\ UNCHANGED <<phase, sr, out, hist>>
        /\ \E k \in ks :
            \/ \E n \in PropNames, id \in Ids, ty \in Types, ch \in {<<>>} \cup {<<[n |-> c, id |-> j]>> : c \in ColNames, j \in Ids}
                    \cup {<<[n |-> c[1], id |-> c[2]], [n |-> c[3], id |-> c[4]]>> : c \in {x \in ColNames \X Ids \X ColNames \X Ids : x[1] # x[3] /\ x[2] # x[4]}} :
                   AddProp(k, [n |-> n, id |-> id, ty |-> ty, ch |-> ch])
            \/ \E n \in CmdNames, id \in Ids : AddCmd(k, [n |-> n, id |-> id])
            \/ \E t \in {"Group", "Table", "Field", "Button", "Decoration"}, d \in 1..MaxEls :
                 \E a \in IF t = "Group" THEN BOOLEAN ELSE {FALSE},
                    lk \in IF t \in {"Field", "Table"} THEN LinksOf(fm[k]) ELSE {<<>>},
                    cm \in IF t = "Button" THEN {0} \cup {fm[k].cmds[j].id : j \in DOMAIN fm[k].cmds} ELSE {0} :
                   AddEl(k, [d |-> d, n |-> k * 100 + Len(fm[k].els), t |-> t, a |-> a, lk |-> lk, cm |-> cm])
            \/ Strange(k)
Make == MakeOf({1, 2})
Extract == /\ phase = "make" /\ phase' = "sources" /\ sr' = <<Shown(fm[1]), Shown(fm[2])>> /\ UNCHANGED <<fm, out, hist>>
Step(op, i, g) == hist' = Append(hist, [op |-> op, i |-> i, g |-> g])
EditOf(ops) ==
    /\ phase = "sources" /\ UNCHANGED <<phase, fm, out>>
    /\ LET s == sr[2]
           o == sr[1]
           To(op, i, g, new) == op \in ops /\ sr' = [sr EXCEPT ![2] = new] /\ Step(op, i, g)
       IN
       \/ \E i \in DOMAIN s.els : To("drop", i, 0, Dropped(s, i))
       \/ \E i \in DOMAIN s.els, g \in 0..Len(s.els) : CanMove(s, i, g) /\ To("move", i, g, Moved(s, i, g))
       \/ \E k \in DOMAIN s.props : To("noprop", k, 0, NoProp(s, k))
       \/ \E k \in DOMAIN s.props : s.props[k].ch # <<>> /\ To("nocols", k, 0, NoCols(s, k))
       \/ \E k \in DOMAIN s.cmds : To("nocmd", k, 0, NoCmd(s, k))
       \/ Len(s.props) > 1 /\ To("swap", 0, 0, Swapped(s))
       \/ \E k \in DOMAIN o.props : CanTakeProp(s, o, k) /\ To("prop", k, 0, WithProp(s, o, k))
       \/ \E i \in DOMAIN o.els : CanTakeEl(s, o, i) /\ To("el", i, 0, WithEl(s, o, i))
       \/ AreaAt(s) # {} /\ AreaAt(o) # {} /\ To("area", 0, 0, WithArea(s, o))
       \/ hist = <<>> /\ To("form", 0, 0, o)
AllOps == {"drop", "move", "noprop", "nocols", "nocmd", "swap", "prop", "el", "area", "form"}
Edit == Len(hist) < MaxEdits /\ EditOf(AllOps)
Build == /\ phase = "sources" /\ UNCHANGED <<fm, sr, hist>>
         /\ IF Buildable(sr[2], fm[2].host) THEN phase' = "built" /\ out' = Made(sr[2], fm[2].host) ELSE phase' = "failed" /\ UNCHANGED out
Next == Make \/ Extract \/ Edit \/ Build
Spec == Init /\ [][Next]_vars

\* ---- properties ----
RoundTrip == phase = "built" /\ hist = <<>> => out = fm[2]
NeverFailsUnchanged == phase = "failed" => hist # <<>>
\* what is in an area belongs to what has the name, here
AreaNamed == phase = "built" /\ sr[2].whole = <<>> =>
    \A i \in DOMAIN out.els : InArea(out.els, i) =>
        /\ (sr[2].els[i].bn # <<>> => NamesOf(out.props, out.els[i].lk) = sr[2].els[i].bn)
        /\ (sr[2].els[i].cn # "" => CmdOf(out.cmds, out.els[i].cm) = sr[2].els[i].cn)
OutsideKept == phase = "built" /\ sr[2].whole = <<>> =>
    \A i \in DOMAIN out.els : ~InArea(out.els, i) => out.els[i].lk = sr[2].els[i].lk /\ out.els[i].cm = sr[2].els[i].cm
OwnType == phase = "built" /\ sr[2].whole = <<>> =>
    \A k \in DOMAIN out.props : /\ (sr[2].props[k].ty = "own" => out.props[k].ty = fm[2].host)
                                /\ (sr[2].props[k].ty # "own" => out.props[k].ty = sr[2].props[k].ty)
\* a name that is missing is never passed over
Loud == phase = "built" /\ sr[2].whole = <<>> =>
    \A i \in DOMAIN sr[2].els : InArea(sr[2].els, i) /\ sr[2].els[i].bn # <<>> => Found(sr[2].props, sr[2].els[i].bn)
Trees == phase = "sources" => \A i \in DOMAIN sr[2].els :
    /\ (i = 1 => sr[2].els[i].d = 1) /\ (i > 1 => sr[2].els[i].d <= sr[2].els[i - 1].d + 1)
    /\ (Parent(sr[2].els, i) # 0 => Holds(sr[2].els[Parent(sr[2].els, i)].t))
=============================================================================
