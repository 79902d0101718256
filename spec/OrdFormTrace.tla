---------------------------- MODULE OrdFormTrace ----------------------------
(* A trace is the life of two ordinary forms, the donor (1) and the target (2).  Events:
     Form(k, f, plain, rest)    what is extracted; plain: without auto_include; rest: digest of what is not modelled
     Extracted(ok), Src(k, els, props)       the sources;   Edit(op, i, g)     a change of the sources of the target;
     Built(ok), Out(els, props, ix, rest)    the target in the product that was built                              *)
EXTENDS TraceBase, FiniteSetsExt
T == INSTANCE OrdForm WITH PropNames <- {}, Ids <- {}, Odd <- 99, MaxProps <- 0, MaxEls <- 0, MaxEdits <- 0,
        phase <- 0, fm <- 0, sr <- 0, out <- 0, hist <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
None == [els |-> <<>>, props |-> <<>>, known |-> TRUE]
NoSrc == [els |-> <<>>, props |-> <<>>, whole |-> <<>>]
S0 == [fm |-> <<None, None>>, sr |-> <<NoSrc, NoSrc>>, rest |-> <<"", "">>, plain |-> FALSE]
Bones(els) == [k \in DOMAIN els |-> [d |-> els[k].d, n |-> els[k].n, t |-> els[k].t, a |-> els[k].a]]
Names(els) == [k \in DOMAIN els |-> els[k].bn]
Sides(els) == [k \in DOMAIN els |-> els[k].at]
Bys(els) == [k \in DOMAIN els |-> els[k].by]
Changed(st, e) ==
    LET q == st.sr[2]  o == st.sr[1] IN
    CASE e.op = "drop" -> T!Dropped(q, e.i) [] e.op = "move" -> T!Moved(q, e.i, e.g)
      [] e.op = "noprop" -> T!NoProp(q, e.i) [] e.op = "swap" -> T!Swapped(q) [] e.op = "prop" -> T!WithProp(q, o, e.i)
      [] e.op = "el" -> T!WithEl(q, o, e.i, e.g) [] e.op = "area" -> T!WithArea(q, o)
\* the built form is well made: a tree of pages and elements
Formed(els) == /\ \A k \in DOMAIN els : els[k].d \in 1..20 /\ els[k].t \in {"page", "el", "panel"} /\ (els[k].t = "page") = (els[k].d % 2 = 1)
               /\ \A k \in DOMAIN els : els[k].d > 1 => k > 1 /\ els[k].d <= els[k - 1].d + 1
Ix(els) == T!Indexes(els)
Connected(els) == \A k \in T!Els(els) : \A r \in T!Refs(els[k]) \ {0} : T!PeerOf(els, k, r) # {}
Clauses(e, st) ==
    CASE e.ev = "Extracted" -> << <<"extract-no-error", e.ok>> >>
      [] e.ev = "Src" -> << <<"source-elements", Bones(e.els) = Bones(st.sr[e.k].els)>>,
                            <<"source-binding", Names(e.els) = Names(st.sr[e.k].els)>>,
                            <<"source-anchored-to", Sides(e.els) = Sides(st.sr[e.k].els)>>,
                            <<"source-anchored-by", Bys(e.els) = Bys(st.sr[e.k].els)>>,
                            <<"source-attributes", e.props = st.sr[e.k].props>> >>
      [] e.ev = "Built" -> << <<"build-succeeds-exactly-when-names-are-there", e.ok = (st.plain \/ T!Buildable(st.sr[2]))>> >>
      [] e.ev = "Out" ->
            IF st.plain THEN << <<"form-kept-without-auto-include", e.rest = st.rest[2]>> >>
            ELSE IF ~T!Buildable(st.sr[2]) THEN <<>>
            ELSE IF st.sr[2].whole # <<>> THEN << <<"unknown-form-kept", e.rest = st.rest[2]>> >>
            ELSE << <<"built-elements", Bones(e.els) = Bones(st.sr[2].els)>>,
                    <<"built-attributes", e.props = st.sr[2].props>>, <<"built-rest", e.rest = st.rest[2]>> >>
                 \o (IF ~Formed(e.els) THEN << <<"built-tree", FALSE>> >>
                     ELSE LET m == T!Shown([els |-> e.els, props |-> e.props, known |-> TRUE])
                          IN  << <<"built-ids-distinct", T!Distinct(e.els)>>, <<"built-connected", Connected(e.els)>>,
                                 <<"built-binding", Names(m.els) = Names(st.sr[2].els)>>,
                                 <<"built-anchored-to", Sides(m.els) = Sides(st.sr[2].els)>>,
                                 <<"built-anchored-by", Bys(m.els) = Bys(st.sr[2].els)>>,
                                 <<"built-panel-lists", {e.ix[k] : k \in DOMAIN e.ix} = Ix(e.els)>>,
                                 <<"built-panel-lists-once", Len(e.ix) = FoldSet(LAMBDA k, n : n + Cardinality({x \in DOMAIN e.els[k].at : e.els[k].at[x].r = 0}), 0, T!Els(e.els))>> >>)
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Form" -> [st EXCEPT !.fm[e.k] = e.f, !.sr[e.k] = T!Shown(e.f), !.rest[e.k] = e.rest, !.plain = e.plain]
      [] e.ev = "Edit" -> [st EXCEPT !.sr[2] = Changed(st, e)]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
