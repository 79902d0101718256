------------------------------ MODULE Objects ------------------------------
(* A product is a tree of objects.  Every object has a kind, an owner (0 is the product itself), a name that is unique
   among the owner's objects of that kind, and a body (everything else it says: properties, modules, pictures, ...).
   The owner lists its objects of each kind in some order.

   Extracting gives every object a folder, at the place Kind/Name inside the folder of its owner.  In the default mode
   the owner's file keeps the lists; with auto_include it does not, and building lists whatever folders there are, by
   name.  Between extracting and building, folders can be removed, brought in from elsewhere, given another
   identifier, and their texts edited.

   Building works in rounds over a pool of workers: an object that has folders inside is put aside until the round of
   its own objects is over, and every object reports to its owner.  Within a round the order is arbitrary.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Kinds, RootKinds, SubOf, Names, MaxObjs, MaxPuts, MaxEdits

VARIABLES phase, auto, prod, tree, hist, todo, next, group, stack, opened, done, index, out
vars == <<phase, auto, prod, tree, hist, todo, next, group, stack, opened, done, index, out>>

(* ---- what products are ---- *)
Empty == [x \in {} |-> 0]
Into(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE PathOf(_, _, _)
PathOf(objs, top, i) == IF i = top THEN <<>>
                        ELSE Append(PathOf(objs, top, objs[i].up), <<objs[i].kind, objs[i].name>>)
RECURSIVE Below(_, _)
Below(objs, i) == {i} \cup UNION {Below(objs, j) : j \in {k \in DOMAIN objs : objs[k].up = i}}
ChildrenOf(objs, i, k) == {j \in DOMAIN objs : objs[j].up = i /\ objs[j].kind = k}
Slots(objs) == {<<objs[j].up, objs[j].kind>> : j \in DOMAIN objs}

\* names are sequences of code points, ordered as such
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
              ELSE Less(Tail(a), Tail(b))
ByName(objs, ids) == SetToSortSeq(ids, LAMBDA x, y : Less(objs[x].name, objs[y].name))
SortedLists(objs) == [s \in Slots(objs) |-> ByName(objs, ChildrenOf(objs, s[1], s[2]))]

(* ---- what extracting and building give ---- *)
ListsAfter(p, mode) == IF mode THEN SortedLists(p.objs) ELSE p.lists
Without(p, i) == LET gone == Below(p.objs, i) IN
                 [objs |-> [x \in DOMAIN p.objs \ gone |-> p.objs[x]],
                  lists |-> [s \in {s \in DOMAIN p.lists : s[1] \notin gone /\ \E x \in ToSet(p.lists[s]) : x \notin gone}
                             |-> SelectSeq(p.lists[s], LAMBDA x : x \notin gone)]]
With(p, i, o) == [objs |-> Into(p.objs, i, o),
                  lists |-> LET s == <<o.up, o.kind>> IN
                            Into(p.lists, s, (IF s \in DOMAIN p.lists THEN p.lists[s] ELSE <<>>) \o <<i>>)]
Renumber(p, i, j) == LET r(x) == IF x = i THEN j ELSE x IN
                 [objs |-> [x \in (DOMAIN p.objs \ {i}) \cup {j} |->
                              LET o == IF x = j THEN p.objs[i] ELSE p.objs[x] IN [o EXCEPT !.up = r(@)]],
                  lists |-> [s \in {<<r(t[1]), t[2]>> : t \in DOMAIN p.lists} |->
                              LET t == CHOOSE t \in DOMAIN p.lists : <<r(t[1]), t[2]>> = s
                              IN  [k \in 1..Len(p.lists[t]) |-> r(p.lists[t][k])]]]
Rebody(p, i, b) == [p EXCEPT !.objs[i].body = b]

(* ---- the product is made ---- *)
Init == /\ phase = "make" /\ auto = FALSE /\ prod = [objs |-> Empty, lists |-> Empty] /\ tree = prod /\ hist = <<>>
        /\ todo = {} /\ next = {} /\ group = {} /\ stack = <<>> /\ opened = {} /\ done = {} /\ index = Empty /\ out = prod
New(p) == Cardinality(DOMAIN p.objs) + 1
Rest == UNCHANGED <<todo, next, group, stack, opened, done, index, out>>
Free(p, u, k, n) == \A j \in ChildrenOf(p.objs, u, k) : p.objs[j].name # n
KindsAt(p, u) == IF u = 0 THEN RootKinds ELSE SubOf[p.objs[u].kind]
Add(u, k, n) == /\ phase = "make" /\ New(prod) <= MaxObjs /\ k \in KindsAt(prod, u) /\ Free(prod, u, k, n)
                /\ LET i == New(prod) IN
                   /\ prod' = With(prod, i, [kind |-> k, up |-> u, name |-> n, body |-> i])
                   /\ hist' = Append(hist, [a |-> "add", id |-> i, kind |-> k, up |-> u, name |-> n])
                /\ UNCHANGED <<phase, auto, tree>> /\ Rest
Extract(m) == /\ phase = "make" /\ phase' = "edit" /\ auto' = m /\ tree' = prod
              /\ hist' = Append(hist, [a |-> "extract", auto |-> m])
              /\ UNCHANGED prod /\ Rest

(* ---- the sources are worked on ---- *)
Edits == Cardinality({j \in 1..Len(hist) : hist[j].a \notin {"add", "extract"}})
Fresh == 100 + Edits * 10
CanEdit == phase = "edit" /\ Edits < MaxEdits
Drop(i) == /\ CanEdit /\ auto /\ i \in DOMAIN tree.objs /\ tree' = Without(tree, i)
           /\ hist' = Append(hist, [a |-> "drop", id |-> i]) /\ UNCHANGED <<phase, auto, prod>> /\ Rest
RECURSIVE PutAll(_, _, _, _)
PutAll(p, top, ks, n) == IF ks = <<>> THEN p
                         ELSE PutAll(With(p, top + Len(ks), [kind |-> Head(ks), up |-> top, name |-> n, body |-> top + Len(ks)]),
                                     top, Tail(ks), n)
Put(u, k, n, ks) == /\ CanEdit /\ auto /\ (u = 0 \/ u \in DOMAIN tree.objs) /\ k \in KindsAt(tree, u) /\ Free(tree, u, k, n)
                    /\ ks \in {SetToSeq(x) : x \in SUBSET SubOf[k]}
                    /\ tree' = PutAll(With(tree, Fresh, [kind |-> k, up |-> u, name |-> n, body |-> Fresh]), Fresh, ks, n)
                    /\ hist' = Append(hist, [a |-> "put", id |-> Fresh, kind |-> k, up |-> u, name |-> n, kids |-> ks])
                    /\ UNCHANGED <<phase, auto, prod>> /\ Rest
Reid(i) == /\ CanEdit /\ auto /\ i \in DOMAIN tree.objs /\ tree' = Renumber(tree, i, Fresh)
           /\ hist' = Append(hist, [a |-> "reid", id |-> i, new |-> Fresh]) /\ UNCHANGED <<phase, auto, prod>> /\ Rest
Edit(i) == /\ CanEdit /\ i \in DOMAIN tree.objs /\ tree' = Rebody(tree, i, Fresh)
           /\ hist' = Append(hist, [a |-> "edit", id |-> i, body |-> Fresh]) /\ UNCHANGED <<phase, auto, prod>> /\ Rest

(* ---- building, in rounds ---- *)
Kids(i) == {j \in DOMAIN tree.objs : tree.objs[j].up = i}
Start == /\ phase = "edit" /\ phase' = "build" /\ todo' = Kids(0)
         /\ UNCHANGED <<auto, prod, tree, hist, next, group, stack, opened, done, index, out>>
Visit(i) == /\ phase = "build" /\ i \in todo /\ todo' = todo \ {i}
            /\ IF Kids(i) # {} /\ i \notin opened
               THEN /\ opened' = opened \cup {i} /\ group' = group \cup {i} /\ next' = next \cup Kids(i)
                    /\ UNCHANGED <<done, index>>
               ELSE /\ done' = done \cup {i}
                    /\ LET s == <<tree.objs[i].up, tree.objs[i].kind>> IN
                       index' = Into(index, s, (IF s \in DOMAIN index THEN index[s] ELSE <<>>) \o <<i>>)
                    /\ UNCHANGED <<opened, group, next>>
            /\ UNCHANGED <<phase, auto, prod, tree, hist, stack, out>>
Round == /\ phase = "build" /\ todo = {}
         /\ LET st == IF group = {} THEN stack ELSE Append(stack, group) IN
            /\ group' = {} /\ next' = {}
            /\ IF next # {} THEN todo' = next /\ stack' = st /\ UNCHANGED <<phase, out>>
               ELSE IF st # <<>> THEN todo' = st[Len(st)] /\ stack' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<phase, out>>
               ELSE /\ phase' = "built" /\ UNCHANGED todo /\ stack' = st
                    /\ out' = [objs |-> tree.objs,
                               lists |-> IF auto THEN [s \in DOMAIN index |-> ByName(tree.objs, ToSet(index[s]))]
                                         ELSE tree.lists]
         /\ UNCHANGED <<auto, prod, tree, hist, opened, done, index>>
NextMake == \E u \in 0..MaxObjs : \E k \in Kinds : \E n \in Names :
               (u = 0 \/ u \in DOMAIN prod.objs) /\ Add(u, k, n)
NextEdit == \/ \E i \in DOMAIN tree.objs : Drop(i) \/ Reid(i) \/ Edit(i)
            \/ \E u \in {0} \cup DOMAIN tree.objs : \E k \in Kinds : \E n \in Names : \E x \in SUBSET SubOf[k] :
                  Put(u, k, n, SetToSeq(x))
Next == NextMake \/ (\E m \in BOOLEAN : Extract(m)) \/ NextEdit \/ Start \/ (\E i \in todo : Visit(i)) \/ Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Round) /\ WF_vars(\E i \in todo : Visit(i))

(* ---- what has to hold ---- *)
PathsUnique == \A i, j \in DOMAIN tree.objs : PathOf(tree.objs, 0, i) = PathOf(tree.objs, 0, j) => i = j
ChildrenFirst == \A i \in done : Kids(i) \subseteq done
OnceEach == \A s \in DOMAIN index : IsInjective(index[s])
RoundTrip == (phase = "built" /\ tree = prod) =>
                /\ out.objs = prod.objs
                /\ (~auto) => out.lists = prod.lists
                /\ DOMAIN out.lists = DOMAIN prod.lists
                /\ \A s \in DOMAIN out.lists : ToSet(out.lists[s]) = ToSet(prod.lists[s])
BuiltIsTree == phase = "built" => /\ done = DOMAIN tree.objs
                                  /\ out.lists = ListsAfter(tree, auto)
EditsKeepTree == /\ \A i \in DOMAIN tree.objs : tree.objs[i].up = 0 \/ tree.objs[i].up \in DOMAIN tree.objs
                 /\ DOMAIN tree.lists = Slots(tree.objs)
                 /\ \A s \in DOMAIN tree.lists : ToSet(tree.lists[s]) = ChildrenOf(tree.objs, s[1], s[2])
Finishes == (phase = "build") ~> (phase = "built")
=============================================================================
