------------------------------ MODULE Sources ---------------------------------
(* The folder of sources.  A product is a set of files <<dir, name>>.  Unpacking routes every file: to the place the
   index names (outside the source folder, shared, never versioned) or to the source folder itself, there - when a
   version is given - under the version's suffix, and only if the file differs from the one that version would inherit.
   Building collects, for a version, what unpacking would have to find there.
   mode -1: no versions (the source folder is emptied first); a version is a number >= 0 (0 has no suffix).          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Files, Contents, Versions, Indexes, MaxOps
VARIABLES idx, store, ops, last
vars == <<idx, store, ops, last>>

Plain == -1
Empty == [x \in {} |-> ""]
Src(f, v) == <<"src", f[1], f[2], v>>
Out(d, n) == <<"out", d, n, 0>>

(* index: set of entries [d, n, td, tn]; n = "*" for the rest of folder d; td = "" means the file stays *)
Explicit(ix, f) == {e \in ix : e.d = f[1] /\ e.n = f[2]}
Star(ix, f) == {e \in ix : e.d = f[1] /\ e.n = "*"}
Routed(ix, f) == \/ \E e \in Explicit(ix, f) : e.td # ""
                 \/ Explicit(ix, f) = {} /\ Star(ix, f) # {}
Target(ix, f) == IF Explicit(ix, f) # {} THEN LET e == CHOOSE x \in Explicit(ix, f) : TRUE IN Out(e.td, e.tn)
                 ELSE LET e == CHOOSE x \in Star(ix, f) : TRUE IN Out(e.td, f[2])

(* versions of a file present in a store, and the one that version v uses *)
Have(st, f) == {k[4] : k \in {x \in DOMAIN st : x[1] = "src" /\ x[2] = f[1] /\ x[3] = f[2]}}
Usable(st, f, v) == IF v = Plain THEN Have(st, f) \cap {0} ELSE {w \in Have(st, f) : w <= v}
Inherit(st, f, v) == st[Src(f, Max(Usable(st, f, v)))]

Put(st, k, c) == [x \in DOMAIN st \cup {k} |-> IF x = k THEN c ELSE st[x]]
UnpackFile(st, ix, v, f, c) ==
    IF Routed(ix, f) THEN Put(st, Target(ix, f), c)
    ELSE IF v = Plain THEN Put(st, Src(f, 0), c)
    ELSE IF Src(f, v) \in DOMAIN st \/ Usable(st, f, v) = {} \/ Inherit(st, f, v) # c THEN Put(st, Src(f, v), c)
    ELSE st
Cleared(st, v) == IF v # Plain THEN st ELSE [x \in {y \in DOMAIN st : y[1] = "out"} |-> st[x]]
RECURSIVE UnpackAll(_, _, _, _, _)
UnpackAll(st, ix, v, p, S) == IF S = {} THEN st
                              ELSE LET f == CHOOSE x \in S : TRUE
                                   IN  UnpackAll(UnpackFile(st, ix, v, f, p[f]), ix, v, p, S \ {f})
Unpacked(st, ix, v, p) == UnpackAll(Cleared(st, v), ix, v, p, DOMAIN p)

(* building *)
Logical(st, v) == {<<k[2], k[3]>> : k \in {x \in DOMAIN st : x[1] = "src"}}
FromSrc(st, v) == {f \in Logical(st, v) : Usable(st, f, v) # {}}
FromIndex(st, ix) == {<<e.d, e.n>> : e \in {x \in ix : x.n # "*" /\ x.td # ""}}
                     \cup {<<e.d, k[3]>> : e \in {x \in ix : x.n = "*"}, k \in {x \in DOMAIN st : x[1] = "out"}}
StarFrom(st, ix, f) == Explicit(ix, f) = {} /\ Star(ix, f) # {} /\ Target(ix, f) \in DOMAIN st
Taken(st, ix) == {f \in FromIndex(st, ix) : (Explicit(ix, f) # {} /\ Routed(ix, f)) \/ StarFrom(st, ix, f)}
Buildable(st, ix) == \A f \in Taken(st, ix) : Target(ix, f) \in DOMAIN st
Built(st, ix, v) == LET T == Taken(st, ix) IN
    [f \in T \cup FromSrc(st, v) |-> IF f \in T THEN st[Target(ix, f)] ELSE Inherit(st, f, v)]

(* ---- model ---- *)
Products == UNION {[S -> Contents] : S \in (SUBSET Files) \ {{}}}
Init == /\ idx \in Indexes /\ store = Empty /\ ops = <<>> /\ last = [v |-> Plain, p |-> Empty]
Unpack(v, p) == /\ store' = Unpacked(store, idx, v, p) /\ last' = [v |-> v, p |-> p]
                /\ ops' = Append(ops, [op |-> "unpack", v |-> v, p |-> {<<f, p[f]>> : f \in DOMAIN p}])
Edit(k, c) == /\ (k \in DOMAIN store => store[k] # c) /\ store' = Put(store, k, c) /\ last' = [v |-> Plain, p |-> Empty]
              /\ ops' = Append(ops, [op |-> "edit", k |-> k, c |-> c])
Remove(k) == /\ store' = [x \in DOMAIN store \ {k} |-> store[x]] /\ last' = [v |-> Plain, p |-> Empty]
             /\ ops' = Append(ops, [op |-> "remove", k |-> k])
Folders == {e.td : e \in {x \in idx : x.n = "*"}}
Next == /\ Len(ops) < MaxOps
        /\ \/ \E v \in Versions, p \in Products : Unpack(v, p)
           \/ \E k \in DOMAIN store, c \in Contents : Edit(k, c)
           \/ \E k \in DOMAIN store : Remove(k)
           \/ \E d \in Folders, n \in {f[2] : f \in Files}, c \in Contents : Out(d, n) \notin DOMAIN store /\ Edit(Out(d, n), c)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
View == <<idx, store, last, Len(ops)>>
\* building what was unpacked last gives it back
RoundTrip == Buildable(store, idx) => \A f \in DOMAIN last.p :
                 LET b == Built(store, idx, last.v) IN f \in DOMAIN b /\ b[f] = last.p[f]
\* unpacking a version leaves every earlier version's unshared files as they were
OldStable == [][\A v \in Versions : (ops' # ops /\ ops'[Len(ops')].op = "unpack" /\ v # Plain
                     /\ v < ops'[Len(ops')].v) =>
                   \A f \in Files : Usable(store', f, v) = Usable(store, f, v)
                                    /\ (Usable(store, f, v) # {} => Inherit(store', f, v) = Inherit(store, f, v))]_vars
\* a version stores a file of its own only where it differs from the version below it
Minimal == [][\A f \in Files, v \in Versions :
                (Src(f, v) \in DOMAIN store' /\ Src(f, v) \notin DOMAIN store /\ v # Plain /\ Usable(store, f, v) # {}
                    /\ ops'[Len(ops')].v = v)
                    => Inherit(store, f, v) # store'[Src(f, v)]]_vars
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson([idx |-> idx, ops |-> ops]))
=============================================================================
