-------------------------------- MODULE Runs --------------------------------
(* What a run of the program does: a single extraction or build, or a list of products.

   Places: products (binary files) and folders of sources.  bins[b]: "none", "ok", how it is damaged, or
   "odd": built from sources used in another way than they were made.  srcs[s]: st as
   well, and how the sources came to be (index, descent, auto).  A command asks for calls; they are done in turn until one
   fails.  Exit status 0: everything asked for was done.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Bins, Srcs, Codes, Indexes, BadIndexes, Opts, Temps, Procs, MaxRuns, MaxProducts, BinStates, SrcStates, ListStates

VARIABLES bins, srcs, list, hist, last
vars == <<bins, srcs, list, hist, last>>

NoHow == [idx |-> "", desc |-> "", auto |-> FALSE]
Src(st, how) == [st |-> st, idx |-> how.idx, desc |-> how.desc, auto |-> how.auto]
Plain(idx) == IF idx = "empty" THEN "" ELSE idx
\* nothing of the options of a list is told by the command line, and the other way round
CallOf(op, p, procs) == [op |-> op, src |-> p.src, bin |-> p.bin, temp |-> p.temp, idx |-> p.idx, o |-> p.o, procs |-> procs,
                         prod |-> IF op = "B" THEN p.code ELSE ""]
Chosen(l, code) == SelectSeq(l.products, LAMBDA p : IF code = "" THEN ~p.dis ELSE p.code = code)
\* what is asked for; bad: it cannot even be said what
Asked(l, c) ==
    IF c.op \in {"E", "B"} THEN [calls |-> <<CallOf(c.op, [code |-> ""] @@ c, c.procs)>>, bad |-> FALSE]
    ELSE IF l.st # "ok" THEN [calls |-> <<>>, bad |-> TRUE]
    ELSE [calls |-> [k \in DOMAIN Chosen(l, c.code) |-> CallOf(IF c.op = "EA" THEN "E" ELSE "B", Chosen(l, c.code)[k], c.procs)],
          bad |-> c.code # "" /\ Chosen(l, c.code) = <<>>]
\* "ok", "fail" or "any": sources that were made in another way than they are used
Outcome(bs, ss, c) ==
    IF c.idx \in BadIndexes THEN "fail"
    ELSE IF c.op = "E" THEN IF bs[c.bin] = "odd" THEN "any" ELSE IF bs[c.bin] # "ok" THEN "fail"
                            ELSE IF c.o.desc # "" /\ ss[c.src].st \notin {"ok", "none"} THEN "any" ELSE "ok"
    ELSE IF ss[c.src].st \notin {"ok", "mixed"} THEN "fail"
    ELSE IF ss[c.src].st = "ok" /\ ss[c.src].idx = Plain(c.idx) /\ ss[c.src].desc = c.o.desc /\ ss[c.src].auto = c.o.auto THEN "ok" ELSE "any"
\* the sources after an extraction
Made(s, c) == IF c.o.desc = "" \/ s.st = "none" \/ (s.st = "ok" /\ s.desc = c.o.desc /\ s.idx = Plain(c.idx) /\ s.auto = c.o.auto)
              THEN Src("ok", [idx |-> Plain(c.idx), desc |-> c.o.desc, auto |-> c.o.auto]) ELSE Src("mixed", NoHow)
After(bs, ss, c, ok) ==
    IF ok THEN IF c.op = "E" THEN <<bs, [ss EXCEPT ![c.src] = IF bs[c.bin] = "odd" THEN Src("mixed", NoHow) ELSE Made(@, c)]>>
               ELSE <<[bs EXCEPT ![c.bin] = IF Outcome(bs, ss, c) = "any" THEN "odd" ELSE "ok"], ss>>
    ELSE IF c.op = "E" /\ Outcome(bs, ss, c) = "any" THEN <<bs, [ss EXCEPT ![c.src] = Src("mixed", NoHow)]>> ELSE <<bs, ss>>

\* ---- runs ----
\* res: how each call done so far went; the last may have failed
RECURSIVE Go(_, _, _)
Go(bs, ss, calls) ==
    IF calls = <<>> THEN {[bs |-> bs, ss |-> ss, res |-> <<>>]}
    ELSE LET c == Head(calls)
             o == Outcome(bs, ss, c)
         IN  UNION {LET a == After(bs, ss, c, ok)
                    IN  IF ~ok THEN {[bs |-> a[1], ss |-> a[2], res |-> <<FALSE>>]}
                        ELSE {[r EXCEPT !.res = <<TRUE>> \o @] : r \in Go(a[1], a[2], Tail(calls))} :
                    ok \in IF o = "any" THEN BOOLEAN ELSE {o = "ok"}}
Done(a, res) == ~a.bad /\ Len(res) = Len(a.calls) /\ \A k \in DOMAIN res : res[k]

Run(c) ==
    LET a == Asked(list, c)
    IN  \E r \in Go(bins, srcs, a.calls) :
            /\ bins' = r.bs /\ srcs' = r.ss /\ UNCHANGED list
            /\ hist' = Append(hist, [do |-> "run", c |-> c, calls |-> a.calls, res |-> r.res, st |-> [k \in DOMAIN a.calls |-> IF a.calls[k].op = "E" THEN bins[a.calls[k].bin] ELSE srcs[a.calls[k].src].st]])
            /\ last' = [was |-> TRUE, c |-> c, a |-> a, res |-> r.res, exit |-> IF Done(a, r.res) THEN 0 ELSE 1, bins |-> bins, srcs |-> srcs]
NoRun == [was |-> FALSE, c |-> "", a |-> "", res |-> <<>>, exit |-> 0, bins |-> "", srcs |-> ""]
Hurt(b, s, st) ==
    /\ \/ b # "" /\ bins' = [bins EXCEPT ![b] = st] /\ UNCHANGED srcs
       \/ s # "" /\ srcs' = [srcs EXCEPT ![s].st = st] /\ UNCHANGED bins
    /\ UNCHANGED list /\ hist' = Append(hist, [do |-> "hurt", b |-> b, s |-> s, st |-> st]) /\ last' = NoRun

\* ---- properties ----
Was == last.was
ExitTells == Was /\ last.exit = 0 => \A k \in DOMAIN last.a.calls : last.res[k] /\ last.a.calls[k].idx \notin BadIndexes
\* what was not asked for is as it was; what failed as well (sources used in another way than made may be lost)
OnlyAsked == Was => /\ \A b \in Bins : bins[b] # last.bins[b] => \E k \in DOMAIN last.res : last.res[k] /\ last.a.calls[k].bin = b
                    /\ \A s \in Srcs : srcs[s] # last.srcs[s] => \E k \in DOMAIN last.res : last.a.calls[k].op = "E" /\ last.a.calls[k].src = s
NotDone == Was /\ last.exit = 0 =>
    \A b \in Bins : last.bins[b] \notin {"ok", "odd"} /\ bins[b] \notin {"ok", "odd"} => ~\E k \in DOMAIN last.a.calls : last.a.calls[k].bin = b
Disabled == Was /\ last.c.op \in {"EA", "BA"} /\ last.c.code = "" /\ list.st = "ok" =>
    \A k \in DOMAIN last.a.calls : \E j \in DOMAIN list.products : ~list.products[j].dis /\ list.products[j].bin = last.a.calls[k].bin
InOrder == Was => \A k \in DOMAIN last.res : ~last.res[k] => k = Len(last.res)
\* sources extracted by a run are built by the same run the other way round
BackAgain == Was /\ last.exit = 0 /\ last.c.op = "E" => Outcome(bins, srcs, [last.a.calls[1] EXCEPT !.op = "B"]) \in {"ok", "any"}
=============================================================================
