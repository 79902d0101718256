------------------------------- MODULE IndexMC -------------------------------
EXTENDS Index, Json
VARIABLE todo
FilesSmall == {<<"", "x">>, <<"A", "x">>, <<"A", "y">>}
FilesMany == {<<"", "x">>, <<"", "y">>, <<"A", "x">>, <<"A", "y">>, <<"A", "z">>, <<"B", "x">>, <<"B", "y">>, <<"C", "x">>}
CONSTANT Versioned
TheVersion == IF Versioned THEN 3 ELSE -1
Keys == Files \cup {<<f[1], "*">> : f \in {g \in Files : g[1] # ""}}
Ks == {"main"} \cup Subs
ValuesFor(p) == IF p[2] = "*" THEN Roots ELSE Roots \cup {"stay"}
Incs == {<<>>} \cup {<<s>> : s \in Subs} \cup {<<s, t>> : s \in Subs, t \in Subs}
All(c) == [f \in Files |-> c]
Init == ix = [k \in Ks |-> Empty] /\ inc = <<>> /\ store = Empty /\ hist = <<>> /\ last = [was |-> ""] /\ todo = 0
\* one entry at a time
Next == /\ Len(hist) < MaxOps /\ UNCHANGED todo
        /\ \/ \E k \in Ks, p \in Keys : \E v \in ValuesFor(p), i \in Incs : Write(k, Over(ix[k], (p :> v)), i)
           \/ \E k \in Ks, core \in Roots \cup {""} : Update(k, core)
           \/ \E c \in Contents : Extract(All(c))
           \/ \E k \in DOMAIN store : k[1] = "src" /\ Lose(k)
View == <<ix, inc, store, last, Len(hist)>>
\* ---- simulation ----
One1(S_) == {RandomElement(S_)}
SInit == ix = [k \in Ks |-> Empty] /\ inc = <<>> /\ store = Empty /\ hist = <<>> /\ last = [was |-> ""] /\ todo \in {-4, -1}
Draw == todo = -1 /\ (\E n \in 3..MaxOps : todo' = n) /\ \E c \in One1(Contents) : Extract(All(c))
Some(n) == {p \in Keys : RandomElement(1..n) = 1}
AnyOp == \E x \in One1(1..12) :
    CASE x <= 3 -> \E k \in One1(Ks) : \E D \in {Some(4)} : \E f \in {[p \in D |-> RandomElement(ValuesFor(p))]} : \E i \in One1(Incs) :
                     \E g \in {IF RandomElement(1..2) = 1 THEN f ELSE Over(ix[k], f)} : Write(k, g, i)
      [] x \in 4..6 -> \E k \in {IF RandomElement(1..2) = 1 THEN "main" ELSE RandomElement(Ks)}, core \in One1(Roots \cup {""}) : Update(k, core)
      [] x \in 7..9 -> \E c \in One1(Contents) : Extract(All(c))
      [] x = 10 -> \E k \in {y \in DOMAIN store : y[1] = "src"} : Lose(k)
      [] OTHER -> Build
\* often the indexes are there before, with much in them
Prepare == todo < -1 /\ todo' = todo + 1 /\ \E D \in {Some(IF todo = -2 THEN 4 ELSE 2)} : \E f \in {[p \in D |-> RandomElement(ValuesFor(p))]} :
               Write(IF todo = -4 THEN "s" ELSE IF todo = -3 THEN "t" ELSE "main", f, IF RandomElement(1..2) = 1 THEN <<"s", "t">> ELSE <<"t", "s">>)
SimNext == Prepare \/ Draw \/ (todo > 0 /\ todo' = todo - 1 /\ AnyOp)
Emit == todo = 0 => PrintT("@@" \o ToJson([hist |-> hist, v |-> Version]))
=============================================================================
