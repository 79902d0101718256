------------------------------- MODULE Areas -------------------------------
(* Code modules split into include areas.  A module is a sequence of lines
     [k |-> "code" | "dir" | "open" | "inc" | "incr" | "end" | "dyn", n |-> name/id, d |-> directive]
   `inc`/`incr` open an include area called n, possibly giving a dynamic directive d to the code inside; `open` is an
   ordinary area; `dyn` is a line marked //DynamicDirective carrying directive d.
   Unpack (one line per step) keeps every area's header and end in the enclosing file and moves the lines between them
   to the area's own file; an `incr` area's lines are dropped (its file is maintained elsewhere).
   Pack puts files back in place of their areas.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Names, Codes, Dirs, MaxLines
VARIABLES lines, open, phase, pos, un, packed
vars == <<lines, open, phase, pos, un, packed>>

L(k, n, d) == [k |-> k, n |-> n, d |-> d]
Root == "<root>"

(* ---- unpack ---- *)
U0 == [stack |-> <<>>, cur |-> <<Root>>, data |-> [x \in {Root} |-> <<>>], kind |-> [x \in {} |-> ""]]
Into(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Strip(l) == IF l.k = "dyn" THEN L("dyn", l.n, "") ELSE l
Add(u, l) == [u EXCEPT !.data[u.cur[Len(u.cur)]] = Append(@, l)]
UStep(u, l) ==
    CASE l.k \in {"inc", "incr"} ->
            LET v == Add(u, l) IN
            [v EXCEPT !.data = Into(@, l.n, <<>>), !.kind = Into(@, l.n, l.k), !.cur = Append(@, l.n),
                      !.stack = Append(@, TRUE)]
      [] l.k = "open" -> LET v == Add(u, l) IN [v EXCEPT !.stack = Append(@, FALSE)]
      [] l.k = "end"  -> LET v == [u EXCEPT !.stack = Front(@), !.cur = IF Last(u.stack) THEN Front(@) ELSE @]
                         IN  Add(v, l)
      [] OTHER -> Add(u, Strip(l))
Unpack(ls) == FoldLeft(UStep, U0, ls)
RootOf(ls) == Unpack(ls).data[Root]
Saved(ls) == LET u == Unpack(ls) IN {<<n, u.data[n]>> : n \in {m \in DOMAIN u.kind : u.kind[m] = "inc"}}

(* ---- pack ---- *)
RECURSIVE Expand(_, _, _)
Expand(ls, store, dd) ==
    FlattenSeq([j \in 1..Len(ls) |->
        CASE ls[j].k = "dyn" /\ dd # "" /\ ls[j].d = "" -> <<L("dyn", ls[j].n, dd)>>
          [] ls[j].k \in {"inc", "incr"} ->
                <<ls[j]>> \o Expand(store[ls[j].n], store, IF ls[j].d # "" THEN ls[j].d ELSE dd)
          [] OTHER -> <<ls[j]>>])

(* ---- model ---- *)
Init == lines = <<>> /\ open = <<>> /\ phase = "write" /\ pos = 0 /\ un = U0 /\ packed = <<>>
Names1 == {lines[j].n : j \in {m \in 1..Len(lines) : lines[m].k \in {"inc", "incr"}}}
RECURSIVE CurDir(_)
CurDir(o) == IF o = <<>> THEN "" ELSE IF Last(o).d # "" THEN Last(o).d ELSE CurDir(Front(o))
Room == Len(lines) + Len(open) + 1
Line == /\ phase = "write"
        /\ \/ /\ Room <= MaxLines /\ \E c \in Codes : lines' = Append(lines, L("code", c, "")) /\ UNCHANGED open
           \/ /\ Room <= MaxLines /\ lines' = Append(lines, L("dir", "p", "")) /\ UNCHANGED open
           \/ /\ Room <= MaxLines /\ CurDir(open) # "" /\ lines' = Append(lines, L("dyn", "y", CurDir(open)))
              /\ UNCHANGED open
           \/ /\ Room + 1 <= MaxLines
              /\ \E n \in Names \ Names1, d \in Dirs : /\ lines' = Append(lines, L("inc", n, d))
                                                       /\ open' = Append(open, L("inc", n, d))
           \/ /\ Room + 1 <= MaxLines
              /\ lines' = Append(lines, L("open", "o", "")) /\ open' = Append(open, L("open", "o", ""))
           \/ /\ open # <<>> /\ lines' = Append(lines, L("end", "e", "")) /\ open' = Front(open)
        /\ UNCHANGED <<phase, pos, un, packed>>
Begin == phase = "write" /\ open = <<>> /\ lines # <<>> /\ phase' = "unpack" /\ UNCHANGED <<lines, open, pos, un, packed>>
Split == /\ phase = "unpack" /\ pos < Len(lines)
         /\ un' = UStep(un, lines[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<lines, open, phase, packed>>
PackAll == /\ phase = "unpack" /\ pos = Len(lines)
           /\ packed' = Expand(un.data[Root], un.data, "") /\ phase' = "end"
           /\ UNCHANGED <<lines, open, pos, un>>
Next == Line \/ Begin \/ Split \/ PackAll
Spec == Init /\ [][Next]_vars

\* no line is lost or duplicated while splitting
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(f[x]) + Total(f, S \ {x})
Conserved == phase = "unpack" => Total(un.data, DOMAIN un.data) = pos
Closed == phase = "end" => un.cur = <<Root>> /\ un.stack = <<>>
RoundTrip == phase = "end" => packed = lines
Emit == phase = "end" => PrintT("@@" \o ToJson([lines |-> lines]))
=============================================================================
