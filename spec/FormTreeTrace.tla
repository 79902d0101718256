--------------------------- MODULE FormTreeTrace ---------------------------
(* A trace is the life of two forms, the donor (1) and the target (2).  Events:
     Form(k, f, rest)        what is extracted; rest: digest of everything in the form that is not modelled
     Extracted(ok), Src(k, els, props, cmds)     the sources;   Edit(op, i, g)     a change of the sources of the target;
     Built(ok), Out(els, props, cmds, rest)      the target in the product that was built                              *)
EXTENDS TraceBase
T == INSTANCE FormTree WITH PropNames <- {}, ColNames <- {}, CmdNames <- {}, Ids <- {}, Odd <- 99, MaxProps <- 0, MaxCmds <- 0,
        MaxEls <- 0, MaxEdits <- 0, Types <- {}, Links3 <- FALSE, phase <- 0, fm <- 0, sr <- 0, out <- 0, hist <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
None == [els |-> <<>>, props |-> <<>>, cmds |-> <<>>, known |-> TRUE, host |-> ""]
NoSrc == [els |-> <<>>, props |-> <<>>, cmds |-> <<>>, whole |-> <<>>]
S0 == [fm |-> <<None, None>>, sr |-> <<NoSrc, NoSrc>>, rest |-> <<"", "">>]
Bones(els) == [k \in DOMAIN els |-> [d |-> els[k].d, n |-> els[k].n, t |-> els[k].t, a |-> els[k].a]]
Ties(els) == [k \in DOMAIN els |-> [lk |-> els[k].lk, cm |-> els[k].cm]]
Names(els) == [k \in DOMAIN els |-> [bn |-> els[k].bn, cn |-> els[k].cn]]
Changed(st, e) ==
    LET q == st.sr[2]  o == st.sr[1] IN
    CASE e.op = "drop" -> T!Dropped(q, e.i) [] e.op = "move" -> T!Moved(q, e.i, e.g)
      [] e.op = "noprop" -> T!NoProp(q, e.i) [] e.op = "nocols" -> T!NoCols(q, e.i) [] e.op = "nocmd" -> T!NoCmd(q, e.i)
      [] e.op = "swap" -> T!Swapped(q) [] e.op = "prop" -> T!WithProp(q, o, e.i) [] e.op = "el" -> T!WithEl(q, o, e.i)
      [] e.op = "area" -> T!WithArea(q, o) [] e.op = "form" -> o
Clauses(e, st) ==
    CASE e.ev = "Extracted" -> << <<"extract-no-error", e.ok>> >>
      [] e.ev = "Src" -> << <<"source-elements", Bones(e.els) = Bones(st.sr[e.k].els)>>,
                            <<"source-raw-binding", Ties(e.els) = Ties(st.sr[e.k].els)>>,
                            <<"source-binding", Names(e.els) = Names(st.sr[e.k].els)>>,
                            <<"source-attributes", e.props = st.sr[e.k].props>>,
                            <<"source-commands", e.cmds = st.sr[e.k].cmds>> >>
      [] e.ev = "Built" -> << <<"build-succeeds-exactly-when-names-are-there", e.ok = T!Buildable(st.sr[2], st.fm[2].host)>> >>
      [] e.ev = "Out" ->
            IF ~T!Buildable(st.sr[2], st.fm[2].host) THEN <<>>
            ELSE IF st.sr[2].whole # <<>> THEN << <<"unknown-form-kept", e.rest = st.rest[2]>> >>
            ELSE LET m == T!Made(st.sr[2], st.fm[2].host) IN
                 << <<"built-elements", Bones(e.els) = Bones(m.els)>>, <<"built-binding", Ties(e.els) = Ties(m.els)>>,
                    <<"built-attributes", e.props = m.props>>, <<"built-commands", e.cmds = m.cmds>>,
                    <<"built-rest", e.rest = st.rest[2]>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Form" -> [st EXCEPT !.fm[e.k] = e.f, !.sr[e.k] = T!Shown(e.f), !.rest[e.k] = e.rest]
      [] e.ev = "Edit" -> [st EXCEPT !.sr[2] = Changed(st, e), !.rest[2] = IF e.op = "form" THEN st.rest[1] ELSE @]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
