------------------------------ MODULE FormAreas -------------------------------
(* Elements of a form: a tree, and data of every element (and of the pages of every panel) under its path in the tree.
   An element named include_X or includr_X is an area: everything below it is moved to a file of its own, where paths
   begin with the area; includr_ areas are never written; on assembling both kinds take what the file holds.
   A form is the sequence of its nodes in tree order, node = [d depth, n name, g page of the enclosing panel it is on,
   ps pages of the panel it is].  A name is <<kind, text>>, kind in {"el", "page", "inc", "incr"}; a path is a sequence
   of names; <<"pages", "">> ends the path under which the list of pages of a panel is kept.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Mode, MaxNodes, AreaNames, PageLists
VARIABLES form, rootps
vars == <<form, rootps>>

Pg == <<"pages", "">>
IsArea(nd) == nd.n[1] \in {"inc", "incr"}
Norm(n) == IF n[1] = "incr" THEN <<"inc", n[2]>> ELSE n
OnPage(nd) == IF nd.g = "" THEN <<>> ELSE << <<"page", nd.g>> >>
Parent(f, i) == LET c == {j \in 1..(i - 1) : f[j].d = f[i].d - 1} IN IF f[i].d = 1 THEN 0 ELSE Max(c)
RECURSIVE Base(_, _)
\* path of the place node i is at; path of what is inside node i
Base(f, i) == (IF Parent(f, i) = 0 THEN <<>> ELSE Base(f, Parent(f, i)) \o << Norm(f[Parent(f, i)].n) >>) \o OnPage(f[i])
Inner(f, i) == Base(f, i) \o << Norm(f[i].n) >>
Own(f, i) == Base(f, i) \o << f[i].n >>
PageKeys(p, ps) == IF ps = <<>> THEN {} ELSE {p \o << Pg >>} \cup {p \o << <<"page", ps[k]>> >> : k \in 1..Len(ps)}
Keys(f, ps0) == {Own(f, i) : i \in 1..Len(f)} \cup UNION {PageKeys(Inner(f, i), f[i].ps) : i \in 1..Len(f)}
                \cup PageKeys(<<>>, ps0)

RECURSIVE InArea(_, _)
InArea(f, i) == LET p == Parent(f, i) IN p # 0 /\ (IsArea(f[p]) \/ InArea(f, p))
AreasOf(f) == {i \in 1..Len(f) : IsArea(f[i]) /\ ~InArea(f, i)}
\* last node below node i
LastBelow(f, i) == LET c == {j \in (i + 1)..Len(f) : f[j].d <= f[i].d} IN IF c = {} THEN Len(f) ELSE Min(c) - 1
Shift(f, a, b, by) == [k \in 1..(b - a + 1) |-> [f[a + k - 1] EXCEPT !.d = @ + by]]
Starts(p, k) == Len(k) > Len(p) /\ SubSeq(k, 1, Len(p)) = p

RECURSIVE RootNodes(_, _)
RootNodes(f, i) == IF i > Len(f) THEN <<>>
                   ELSE << f[i] >> \o RootNodes(f, (IF i \in AreasOf(f) THEN LastBelow(f, i) ELSE i) + 1)
RootData(f, dt) == LET gone == {k \in DOMAIN dt : \E i \in AreasOf(f) : Starts(Inner(f, i), k)}
                   IN [k \in DOMAIN dt \ gone |-> dt[k]]
AreaNodes(f, i) == Shift(f, i + 1, LastBelow(f, i), -f[i].d)
AreaData(f, dt, i) == LET b == Base(f, i)
                          ks == {k \in DOMAIN dt : Starts(Inner(f, i), k)}
                      IN [k \in {SubSeq(x, Len(b) + 1, Len(x)) : x \in ks} |-> dt[b \o k]]
Written(f) == {i \in AreasOf(f) : f[i].n[1] = "inc"}

\* files: function from area names to [nodes, data]
RECURSIVE JoinNodes(_, _, _)
JoinNodes(f, i, files) == IF i > Len(f) THEN <<>>
    ELSE << f[i] >> \o (IF IsArea(f[i]) THEN LET x == files[f[i].n[2]].nodes IN Shift(x, 1, Len(x), f[i].d) ELSE <<>>)
         \o JoinNodes(f, i + 1, files)
JoinData(f, dt, files) ==
    LET added(i) == [k \in {Base(f, i) \o x : x \in DOMAIN files[f[i].n[2]].data} |->
                        files[f[i].n[2]].data[SubSeq(k, Len(Base(f, i)) + 1, Len(k))]]
        as == AreasOf(f)
    IN  [k \in DOMAIN dt \cup UNION {DOMAIN added(i) : i \in as} |->
            IF \E i \in as : k \in DOMAIN added(i) THEN added(CHOOSE i \in as : k \in DOMAIN added(i))[k] ELSE dt[k]]

(* ---- model: all forms of a dialect ---- *)
\* "managed": no pages; "pages": panels whose elements name their page; "auto": pages are nodes of the tree
El(d, nm, g, ps) == [d |-> d, n |-> nm, g |-> g, ps |-> ps]
Used == {form[i].n : i \in 1..Len(form)}
NewNames == {<<"el", ToString(Len(form))>>}
            \cup {n \in ({"inc", "incr"} \X AreaNames) : Norm(n) \notin {Norm(x) : x \in Used}}
PsOf(i) == IF i = 0 THEN rootps ELSE form[i].ps
Init == form = <<>> /\ rootps \in (IF Mode = "managed" THEN {<<>>} ELSE PageLists \ {<<>>})
AddUnder(i) ==    \* a new last node, below node i (0: the form)
    LET d == IF i = 0 THEN 1 ELSE form[i].d + 1
        pss == IF Mode = "managed" THEN {<<>>} ELSE PageLists
        nested(n) == n[1] \in {"inc", "incr"} => (i = 0 \/ (~IsArea(form[i]) /\ ~InArea(form, i)))
    IN  IF Mode = "auto" /\ PsOf(i) # <<>>
        THEN LET done == {j \in 1..Len(form) : Parent(form, j) = i}      \* the pages of a panel, in order
             IN  /\ Cardinality(done) < Len(PsOf(i))
                 /\ form' = Append(form, El(d, <<"page", PsOf(i)[Cardinality(done) + 1]>>, "", <<>>))
        ELSE \E n \in {x \in NewNames : nested(x)}, ps \in pss :
             \E g \in (IF Mode = "pages" /\ PsOf(i) # <<>> THEN {PsOf(i)[k] : k \in 1..Len(PsOf(i))} ELSE {""}) :
                form' = Append(form, El(d, n, g, ps))
\* nodes that can still get a child when nodes are listed in tree order: the last one and those above it
RECURSIVE Above(_)
Above(i) == IF i = 0 THEN {0} ELSE {i} \cup Above(Parent(form, i))
Leaf(i) == i # 0 /\ Mode # "managed" /\ form[i].n[1] # "page" /\ form[i].ps = <<>>   \* only panels contain elements
Complete == Mode = "auto" => \A i \in 0..Len(form) :
                Cardinality({j \in 1..Len(form) : Parent(form, j) = i}) >= Len(PsOf(i))
Next == Len(form) < MaxNodes /\ (\E i \in Above(Len(form)) : ~Leaf(i) /\ AddUnder(i)) /\ UNCHANGED rootps
Spec == Init /\ [][Next]_vars
Data(f, ps0) == [k \in Keys(f, ps0) |-> k]        \* every key holds something of its own
FilesOf(f, dt) == [a \in {f[i].n[2] : i \in AreasOf(f)} |->
                    LET i == CHOOSE j \in AreasOf(f) : f[j].n[2] = a IN [nodes |-> AreaNodes(f, i), data |-> AreaData(f, dt, i)]]
RoundTrip == LET dt == Data(form, rootps)  fs == FilesOf(form, dt) IN
    /\ JoinNodes(RootNodes(form, 1), 1, fs) = form
    /\ JoinData(RootNodes(form, 1), RootData(form, dt), fs) = dt
\* every piece of data is in exactly one place
Conserved == LET dt == Data(form, rootps)  fs == FilesOf(form, dt) IN
    Cardinality(DOMAIN RootData(form, dt)) + FoldSet(LAMBDA a, n : n + Cardinality(DOMAIN fs[a].data), 0, DOMAIN fs)
        = Cardinality(DOMAIN dt)
\* an area file does not depend on where in a form the area is
Portable == LET dt == Data(form, rootps) IN \A i \in AreasOf(form) :
    \A k \in DOMAIN AreaData(form, dt, i) : k[1] = <<"inc", form[i].n[2]>>
Emit == (Len(form) = MaxNodes /\ Complete) => PrintT("@@" \o ToJson([form |-> form, ps |-> rootps]))
=============================================================================
