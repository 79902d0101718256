---------------------------- MODULE SourcesTrace ----------------------------
(* Events:  Index(entries) the index in use;  Unpack(v, files, ok) a product was unpacked;  Listing(files) every file
   below the repository root afterwards, <<area, dir, name, version, content>>;  Edit(file) a file changed by hand;
   Remove(file) deleted by hand;  Build(v, ok, files) what building collected: <<dir, name, content>>.                                             *)
EXTENDS TraceBase, FiniteSets, FiniteSetsExt
S == INSTANCE Sources WITH Files <- {}, Contents <- {}, Versions <- {}, Indexes <- {}, MaxOps <- 0,
        idx <- {}, store <- <<>>, ops <- <<>>, last <- <<>>
VARIABLES i, s, fails
tvars == <<i, s, fails>>
S0 == [ix |-> {}, st |-> S!Empty, got |-> S!Empty]
Elems(q) == {q[k] : k \in 1..Len(q)}
Prod(fs) == [f \in {<<x[1], x[2]>> : x \in Elems(fs)} |-> (CHOOSE x \in Elems(fs) : x[1] = f[1] /\ x[2] = f[2])[3]]
Store(fs) == [k \in {<<x[1], x[2], x[3], x[4]>> : x \in Elems(fs)} |->
                 (CHOOSE x \in Elems(fs) : <<x[1], x[2], x[3], x[4]>> = k)[5]]
Clauses(e, st) ==
    CASE e.ev = "Unpack" -> << <<"unpack-no-error", e.ok>> >>
      [] e.ev = "Listing" -> LET g == Store(e.files) IN
            << <<"listing-no-duplicates", Cardinality(DOMAIN g) = Len(e.files)>>,
               <<"moved-files", \A k \in DOMAIN st.st : k[1] = "out" => k \in DOMAIN g /\ g[k] = st.st[k]>>,
               <<"source-files", \A k \in DOMAIN st.st : k[1] = "src" => k \in DOMAIN g /\ g[k] = st.st[k]>>,
               <<"no-other-files", DOMAIN g \subseteq DOMAIN st.st>> >>
      [] e.ev = "Build" -> LET b == S!Built(st.st, st.ix, e.v)  g == Prod(e.files) IN
            << <<"build-no-error", S!Buildable(st.st, st.ix) => e.ok>>,
               <<"missing-moved-file-reported", e.ok => S!Buildable(st.st, st.ix)>>,
               <<"build-files", (e.ok /\ S!Buildable(st.st, st.ix)) => DOMAIN g = DOMAIN b>>,
               <<"build-content", (e.ok /\ S!Buildable(st.st, st.ix)) => \A f \in DOMAIN g \cap DOMAIN b : g[f] = b[f]>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Index" -> [st EXCEPT !.ix = Elems(e.entries)]
      [] e.ev = "Unpack" -> [st EXCEPT !.st = S!Unpacked(st.st, st.ix, e.v, Prod(e.files))]
      [] e.ev = "Edit" -> [st EXCEPT !.st = S!Put(@, <<e.file[1], e.file[2], e.file[3], e.file[4]>>, e.file[5])]
      [] e.ev = "Remove" -> [st EXCEPT !.st = [x \in DOMAIN st.st \ {<<e.file[1], e.file[2], e.file[3], e.file[4]>>} |-> st.st[x]]]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
