-------------------------------- MODULE Index --------------------------------
(* Index files: written by hand, updated from the sources, including each other, used by extraction and building.

   ix[k]: a partial function from files <<dir, name>> (name "*": the rest of the folder) to "stay" or to a root outside the
   sources: the file goes to <root>/dir/name.  inc: the indexes that the main one includes, in order.  Where files are is
   told by Sources.tla.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Files, Roots, Subs, Contents, MaxOps, Version
VARIABLES ix, inc, store, hist, last
vars == <<ix, inc, store, hist, last>>
S == INSTANCE Sources WITH Versions <- {Version}, Indexes <- {}, idx <- {}, ops <- <<>>

Empty == [x \in {} |-> ""]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]     \* g is laid over f
RECURSIVE Merged(_, _)
Merged(xs, k) == IF k = 0 THEN Empty ELSE Over(Merged(xs, k - 1), xs[k])
\* what a run uses: the included ones in order, the main one last
Used(x, i) == Over(Merged([k \in DOMAIN i |-> x[i[k]]], Len(i)), x["main"])
Updated(f, present, core) == Over([p \in present |-> IF core = "" THEN "stay" ELSE core], f)
Entries(f) == {[d |-> p[1], n |-> p[2], td |-> IF f[p] = "stay" THEN "" ELSE f[p] \o ":" \o p[1], tn |-> IF p[2] = "*" THEN "" ELSE p[2]] : p \in DOMAIN f}
Present(st) == {<<k[2], k[3]>> : k \in {x \in DOMAIN st : x[1] = "src"}}
Extracted(st, used, p) == S!Unpacked(st, Entries(used), Version, p)
Buildable(st, used) == S!Buildable(st, Entries(used))
Built(st, used) == S!Built(st, Entries(used), Version)

\* ---- steps ----
Note(h, l) == hist' = Append(hist, h) /\ last' = l
Write(k, f, i) == /\ ix' = [ix EXCEPT ![k] = f] /\ inc' = (IF k = "main" THEN i ELSE inc) /\ UNCHANGED store
                  /\ Note([do |-> "write", k |-> k, f |-> {<<p[1], p[2], f[p]>> : p \in DOMAIN f}, inc |-> inc'], [was |-> "write"])
Update(k, core) == /\ ix' = [ix EXCEPT ![k] = Updated(@, Present(store), core)] /\ UNCHANGED <<inc, store>>
                   /\ Note([do |-> "update", k |-> k, core |-> core], [was |-> "update", k |-> k, core |-> core, f |-> ix[k]])
Extract(p) == /\ store' = Extracted(store, Used(ix, inc), p) /\ UNCHANGED <<ix, inc>>
              /\ Note([do |-> "extract", c |-> {p[f] : f \in DOMAIN p}], [was |-> "extract", p |-> p])
Build == /\ Buildable(store, Used(ix, inc)) /\ UNCHANGED <<ix, inc, store>>
         /\ Note([do |-> "build"], [was |-> "build", p |-> IF last.was = "extract" THEN last.p ELSE Empty])
Lose(k) == /\ store' = [x \in DOMAIN store \ {k} |-> store[x]] /\ UNCHANGED <<ix, inc>>
             /\ Note([do |-> "remove", d |-> k[2], n |-> k[3]], [was |-> "remove"])

\* ---- properties ----
Kept == last.was = "update" => \A p \in DOMAIN last.f : p \in DOMAIN ix[last.k] /\ ix[last.k][p] = last.f[p]
OneForEach == last.was = "update" =>
    /\ Present(store) \subseteq DOMAIN ix[last.k]
    /\ \A p \in DOMAIN ix[last.k] \ DOMAIN last.f : p \in Present(store) /\ ix[last.k][p] = (IF last.core = "" THEN "stay" ELSE last.core)
UpdatedOnce == last.was = "update" => Updated(ix[last.k], Present(store), last.core) = ix[last.k]
\* an index made anew without a core moves nothing; with a core it moves everything, and what was moved comes back
NothingMoves == last.was = "update" /\ last.f = Empty /\ last.core = "" /\ last.k = "main" =>
    \A p \in Present(store) : ~S!Routed(Entries(ix["main"]), p)
AllMoves == last.was = "update" /\ last.f = Empty /\ last.core # "" /\ last.k = "main" =>
    \A p \in Present(store) : S!Target(Entries(Used(ix, inc)), p) = S!Out(last.core \o ":" \o p[1], p[2])
MainFirst == \A p \in DOMAIN ix["main"] : Used(ix, inc)[p] = ix["main"][p]
LaterFirst == \A j \in DOMAIN inc : \A p \in DOMAIN ix[inc[j]] :
    p \notin DOMAIN ix["main"] /\ (\A l \in DOMAIN inc : l > j => p \notin DOMAIN ix[inc[l]]) => Used(ix, inc)[p] = ix[inc[j]][p]
RoundTrip == last.was = "extract" => /\ Buildable(store, Used(ix, inc))
                                     /\ \A f \in DOMAIN last.p : LET b == Built(store, Used(ix, inc)) IN f \in DOMAIN b /\ b[f] = last.p[f]
=============================================================================
