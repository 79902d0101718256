------------------------------ MODULE RunsMC ------------------------------
EXTENDS Runs, Json
VARIABLE todo
O(pre, ver, auto, desc) == [pre |-> pre, ver |-> ver, auto |-> auto, desc |-> desc]
OptsSmall == {O("", "", FALSE, ""), O("", "", TRUE, "0")}
OptsAll == {O(p, v, a, d) : p \in {"", "Нов_"}, v \in {"", "80306"}, a \in BOOLEAN, d \in {"", "0", "3"}}
Products == {[code |-> k, src |-> s, bin |-> b, temp |-> t, idx |-> i, dis |-> d, o |-> o] :
             k \in Codes, s \in Srcs, b \in Bins, t \in Temps, i \in Indexes, d \in BOOLEAN, o \in Opts}
Singles == {[op |-> op, src |-> s, bin |-> b, temp |-> t, idx |-> i, o |-> o, procs |-> n] :
            op \in {"E", "B"}, s \in Srcs, b \in Bins, t \in Temps, i \in Indexes, o \in Opts, n \in Procs}
Lists == {[op |-> op, code |-> k, procs |-> n] : op \in {"EA", "BA"}, k \in Codes \cup {"", "gone"}, n \in Procs}
\* products with code, in the order of the list; codes are different
ListsOf == {[st |-> "ok", products |-> <<>>]} \cup {[st |-> "ok", products |-> <<p>>] : p \in Products}
Init == /\ bins \in [Bins -> {"none", "ok", "junk"}] /\ srcs = [s \in Srcs |-> Src("none", NoHow)]
        /\ \E st \in ListStates, p \in Products, q \in Products : p.code = "p1" /\ q.code = "p2" /\ (st = "ok" \/ (p.dis /\ q.dis)) /\ list = [st |-> st, products |-> <<p, q>>]
        /\ hist = <<>> /\ last = NoRun /\ todo = 0
Next == /\ Len(hist) < MaxRuns /\ UNCHANGED todo
        /\ \/ \E c \in Singles : Run(c)
           \/ \E c \in Lists : Run(c)

View == <<bins, srcs, list, last, Len(hist)>>
\* ---- simulation ----
One1(S) == {RandomElement(S)}
SInit == /\ bins = [b \in Bins |-> "none"] /\ srcs = [s \in Srcs |-> Src("none", NoHow)] /\ hist = <<>> /\ last = NoRun
         /\ list = [st |-> "", products |-> <<>>] /\ todo = -1
Draw == /\ todo = -1 /\ UNCHANGED <<srcs, last>>
        /\ \E n \in 2..MaxRuns, k \in 1..MaxProducts : todo' = n /\ \E l \in One1(1..8) :
             \* the products of a folder of sources mostly use it in one way
             \E how \in {[x \in Srcs |-> [idx |-> RandomElement(Indexes \ BadIndexes), o |-> RandomElement(Opts)]]} :
             \E x \in {[j \in 1..k |-> [code |-> SetToSeq(Codes)[j], src |-> RandomElement(Srcs), bin |-> RandomElement(Bins), temp |-> RandomElement(Temps),
                                        idx |-> IF RandomElement(1..8) = 1 THEN RandomElement(Indexes) ELSE RandomElement(Indexes \ BadIndexes),
                                        dis |-> RandomElement(1..4) = 1, o |-> RandomElement(Opts)]]} :
             \E y \in {[j \in 1..k |-> IF RandomElement(1..5) = 1 THEN x[j]
                                      ELSE [x[j] EXCEPT !.idx = how[x[j].src].idx, !.o.auto = how[x[j].src].o.auto, !.o.desc = how[x[j].src].o.desc]]} :
             list' = [st |-> IF l = 1 THEN RandomElement(ListStates) ELSE "ok", products |-> y]
        /\ \E f \in {[b \in Bins |-> IF RandomElement(1..7) = 1 THEN RandomElement(BinStates) ELSE "ok"]} :
             bins' = f /\ hist' = <<[do |-> "make", bins |-> f]>>
Likely(S, T, n) == IF RandomElement(1..n) = 1 THEN RandomElement(S) ELSE RandomElement(T)
Single(op, s, b) == [op |-> op, src |-> s, bin |-> b, temp |-> RandomElement(Temps), idx |-> Likely(Indexes, Indexes \ BadIndexes, 8),
                     o |-> RandomElement(Opts), procs |-> RandomElement(Procs)]
\* the same again, the other way round
Turned(c) == [c EXCEPT !.op = IF @ = "E" THEN "B" ELSE "E", !.bin = RandomElement(Bins)]
RunAny ==
    \E x \in One1(1..10) :
      IF Was /\ x \in 1..4 THEN \E c \in {IF last.c.op \in {"E", "B"} THEN Turned(last.c) ELSE [last.c EXCEPT !.op = IF @ = "EA" THEN "BA" ELSE "EA"]} : Run(c)
      ELSE IF x \in 5..7 THEN \E c \in {Single(IF \E s \in Srcs : srcs[s].st = "ok" THEN RandomElement({"E", "B"}) ELSE "E", RandomElement(Srcs), RandomElement(Bins))} : Run(c)
      ELSE \E c \in {[op |-> RandomElement({"EA", "BA"}), code |-> Likely(Codes \cup {"gone"}, {""}, 2), procs |-> RandomElement(Procs)]} : Run(c)
SimNext == \/ Draw
           \/ todo > 0 /\ todo' = todo - 1 /\ RunAny
           \/ /\ todo > 0 /\ todo' = todo /\ Was /\ \E x \in One1(1..4) : x = 1
              /\ \/ \E b \in One1(Bins), st \in One1(BinStates) : Hurt(b, "", st)
                 \/ \E s \in {z \in Srcs : srcs[z].st = "ok"} : \E st \in One1(SrcStates) : Hurt("", s, st)
Emit == todo = 0 => PrintT("@@" \o ToJson([list |-> list, hist |-> hist]))
=============================================================================
