------------------------------ MODULE Nesting ------------------------------
(* The compression stage and nested containers.  A product's folder is a tree: leaves are files, inner nodes become
   containers inside containers.  Writing: every top-level entry is turned into one raw-deflate stream (a folder is
   first built into a container, recursively and without compression), then the streams become the entries of the
   outer container.  Reading is the inverse, one task per entry, in any order; an inflated entry that is a container
   is replaced by the folder of its entries, recursively.
   A representation is <<"file", c>>, <<"cont", [name -> representation]>> or <<"deflate", representation>>.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Contents, MaxDepth, MaxNodes
VARIABLES src,      \* the tree chosen: set of <<path, content>>; inner nodes are the proper prefixes
          store,    \* path (top-level name) -> representation after compression
          out,      \* <<path, content>> produced by the reader
          phase,
          done      \* names already processed in this phase
vars == <<src, store, out, phase, done>>

Prefix(p, n) == SubSeq(p, 1, n)
IsTree(t) == /\ \A x, y \in t : x[1] = y[1] => x = y
             /\ \A x, y \in t : \A n \in 1..(Len(x[1]) - 1) : Prefix(x[1], n) # y[1]
Tops(t) == {x[1][1] : x \in t}
Under(t, n) == {<<Tail(x[1]), x[2]>> : x \in {y \in t : y[1][1] = n}}

RECURSIVE Rep(_)
Rep(t) == IF \E x \in t : x[1] = <<>> THEN <<"file", (CHOOSE x \in t : x[1] = <<>>)[2]>>
          ELSE <<"cont", [n \in Tops(t) |-> Rep(Under(t, n))]>>
RECURSIVE Tree(_, _)
Tree(p, r) == IF r[1] = "file" THEN {<<p, r[2]>>}
              ELSE UNION {Tree(Append(p, n), r[2][n]) : n \in DOMAIN r[2]}

Init == src = {} /\ store = <<>> /\ out = {} /\ phase = "choose" /\ done = {}
Paths == UNION {[1..d -> Names] : d \in 1..MaxDepth}
AddFile == /\ phase = "choose"
           /\ Cardinality(src) < MaxNodes
           /\ \E p \in Paths, c \in Contents :
                 /\ IsTree(src \cup {<<p, c>>}) /\ <<p, c>> \notin src
                 /\ \A x \in src : x[1] # p
                 /\ src' = src \cup {<<p, c>>}
           /\ UNCHANGED <<store, out, phase, done>>
Start == phase = "choose" /\ src # {} /\ phase' = "compress" /\ UNCHANGED <<src, store, out, done>>
Compress == /\ phase = "compress"
            /\ \E n \in Tops(src) \ done :
                 /\ store' = [m \in (DOMAIN store) \cup {n} |->
                                IF m = n THEN <<"deflate", Rep(Under(src, n))>> ELSE store[m]]
                 /\ done' = done \cup {n}
            /\ UNCHANGED <<src, out, phase>>
Written == phase = "compress" /\ done = Tops(src) /\ phase' = "inflate" /\ done' = {} /\ UNCHANGED <<src, store, out>>
Inflate == /\ phase = "inflate"
           /\ \E n \in DOMAIN store \ done :
                /\ store[n][1] = "deflate"
                /\ out' = out \cup Tree(<<n>>, store[n][2])
                /\ done' = done \cup {n}
           /\ UNCHANGED <<src, store, phase>>
Finish == phase = "inflate" /\ done = DOMAIN store /\ phase' = "end" /\ UNCHANGED <<src, store, out, done>>
Next == AddFile \/ Start \/ Compress \/ Written \/ Inflate \/ Finish
Spec == Init /\ [][Next]_vars

OneStream == \A n \in DOMAIN store : store[n][1] = "deflate" /\ store[n][2][1] # "deflate"
NothingInvented == out \subseteq src
Complete == phase = "end" => out = src
Emit == phase = "end" => PrintT("@@" \o ToJson([tree |-> [x \in 1..1 |-> src]]))
=============================================================================
