----------------------------- MODULE RunsTrace -----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES i, s, fails
tvars == <<i, s, fails>>
BinsT == {"b1", "b2", "b3"}
SrcsT == {"s1", "s2"}
Bad == {"torn", "gone", "array", "subgone"}
R == INSTANCE Runs WITH Bins <- BinsT, Srcs <- SrcsT, Codes <- {}, Indexes <- {}, BadIndexes <- Bad, Opts <- {}, Temps <- {}, Procs <- {},
        MaxRuns <- 0, MaxProducts <- 0, BinStates <- {}, SrcStates <- {}, ListStates <- {}, bins <- 0, srcs <- 0, list <- 0, hist <- 0, last <- 0
S0 == [bins |-> [b \in BinsT |-> "none"], srcs |-> [x \in SrcsT |-> R!Src("none", R!NoHow)], list |-> [st |-> "", products |-> <<>>]]
RECURSIVE Play(_, _, _, _)
\* the state after each call
Play(bs, ss, res, k) == IF k > Len(res) THEN << <<bs, ss>> >>
                        ELSE LET a == R!After(bs, ss, res[k].c, res[k].ok) IN << <<bs, ss>> >> \o Play(a[1], a[2], res, k + 1)
Oks(res) == [k \in DOMAIN res |-> res[k].ok]
Expected(o, ok) == o = "any" \/ (o = "ok") = ok
\* folders of sources nobody answers for: an extraction into them failed, over what had been made in another way
Loose(p, res) == {res[k].c.src : k \in {j \in DOMAIN res : ~res[j].ok /\ res[j].c.op = "E" /\ R!Outcome(p[j][1], p[j][2], res[j].c) = "any"}}
Clauses(e, st) ==
    IF e.ev # "Run" THEN <<>>
    ELSE LET a == R!Asked(st.list, e.c)
             p == Play(st.bins, st.srcs, e.res, 1)
             exit == IF R!Done(a, Oks(e.res)) THEN 0 ELSE 1
             kept == {e.res[k].c.temp : k \in {j \in DOMAIN e.res : e.res[j].ok}} \ {""}
         IN  << <<"does-what-is-asked", /\ Len(e.res) <= Len(a.calls)
                                        /\ \A k \in DOMAIN e.res : e.res[k].c = a.calls[k]
                                        /\ (Len(e.res) < Len(a.calls) => e.res # <<>> /\ ~e.res[Len(e.res)].ok)>>,
                <<"damage-is-told", \A k \in DOMAIN e.res : R!Outcome(p[k][1], p[k][2], e.res[k].c) = "fail" => ~e.res[k].ok>>,
                <<"sound-input-succeeds", \A k \in DOMAIN e.res : R!Outcome(p[k][1], p[k][2], e.res[k].c) = "ok" => e.res[k].ok>>,
                <<"exit-status", e.exit = exit>>,
                <<"error-is-said", exit = 1 => e.said>>,
                <<"places-as-the-calls-leave-them", \A k \in DOMAIN e.differ : e.differ[k] \in Loose(p, e.res)>>,
                <<"given-temp-stays", \A t \in kept : \E k \in DOMAIN e.temps : e.temps[k] = t>>,
                <<"nothing-left-in-temp", ~e.junk>>,
                <<"processes-as-asked", \A k \in DOMAIN e.procs : e.procs[k] = e.c.procs>> >>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "World" -> [st EXCEPT !.bins = e.bins, !.list = e.list]
      [] e.ev = "Hurt" -> IF e.b # "" THEN [st EXCEPT !.bins[e.b] = e.st] ELSE [st EXCEPT !.srcs[e.s].st = e.st]
      [] e.ev = "Run" -> LET p == Play(st.bins, st.srcs, e.res, 1)
                         IN  [st EXCEPT !.bins = p[Len(p)][1], !.srcs = p[Len(p)][2]]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
