----------------------------- MODULE IndexTrace -----------------------------
EXTENDS TraceBase, FiniteSets, SequencesExt
VARIABLES i, s, fails
tvars == <<i, s, fails>>
Plain == -1
I == INSTANCE Index WITH Files <- {}, Roots <- {}, Subs <- {}, Contents <- {}, MaxOps <- 0, ix <- 0, inc <- 0, store <- 0, hist <- 0, last <- 0,
     Version <- Plain
N == INSTANCE Index WITH Files <- {}, Roots <- {}, Subs <- {}, Contents <- {}, MaxOps <- 0, ix <- 0, inc <- 0, store <- 0, hist <- 0, last <- 0,
     Version <- 3      \* with the descent number
None == [x \in {} |-> ""]
S0 == [ix |-> [k \in {"main", "s", "t"} |-> None], inc |-> <<>>, store |-> None, v |-> Plain, files |-> {}, vary |-> {}, areas |-> [k \in {"main", "s", "t"} |-> ""]]
Files(e) == {<<e[k][1], e[k][2]>> : k \in DOMAIN e}
Fun(es) == [p \in Files(es) |-> LET k == CHOOSE j \in DOMAIN es : <<es[j][1], es[j][2]>> = p IN es[k][3]]
Product(st, c) == [f \in st.files |-> IF f \in st.vary THEN c ELSE "p"]
Listing(fs) == {<<fs[k][1], fs[k][2], fs[k][3], fs[k][4], fs[k][5]>> : k \in DOMAIN fs}
Stored(st) == {<<k[1], k[2], k[3], k[4], st[k]>> : k \in DOMAIN st}
Used(st) == I!Used(st.ix, st.inc)
Extracted(st, p) == IF st.v = Plain THEN I!Extracted(st.store, Used(st), p) ELSE N!Extracted(st.store, Used(st), p)
Buildable(st) == IF st.v = Plain THEN I!Buildable(st.store, Used(st)) ELSE N!Buildable(st.store, Used(st))
Built(st) == IF st.v = Plain THEN I!Built(st.store, Used(st)) ELSE N!Built(st.store, Used(st))
After(e, st) ==
    CASE e.ev = "Extract" -> [st EXCEPT !.store = Extracted(st, Product(st, e.c))]
      [] e.ev = "Update" -> [st EXCEPT !.ix[e.k] = I!Updated(@, I!Present(st.store), e.core)]
      [] e.ev = "Remove" -> [st EXCEPT !.store = [x \in {y \in DOMAIN @ : ~(y[1] = "src" /\ y[2] = e.d /\ y[3] = e.n)} |-> @[x]]]
      [] e.ev = "Write" -> [st EXCEPT !.ix[e.k] = Fun(e.f), !.inc = IF e.k = "main" THEN e.inc ELSE @, !.areas[e.k] = e.areas]
      [] OTHER -> st
Clauses(e, st) ==
    IF e.ev \in {"New", "World"} THEN <<>>
    ELSE LET a == After(e, st)
             b == IF e.ev = "Build" THEN Built(st) ELSE None
             whole == e.ev = "Build" /\ Buildable(st) /\ DOMAIN b = st.files
         IN << <<"succeeds", (e.ev \in {"Extract", "Update"} \/ whole) => e.ok>>,
               <<"wrong-is-told", e.ev = "Wrong" => ~e.ok>>,
               <<"entries-kept-and-added", (e.ev = "Update" /\ e.ok) => Fun(e.f) = a.ix[e.k] /\ Len(e.f) = Cardinality(DOMAIN a.ix[e.k])>>,
               <<"the-rest-of-the-index-kept", (e.ev = "Update" /\ e.ok) => ((e.k = "main" => e.inc = st.inc) /\ e.areas = st.areas[e.k])>>,
               <<"files-where-the-index-says", Listing(e.files) = Stored(a.store)>>,
               <<"built-of-what-the-index-says", (whole /\ e.ok) => {<<e.built[k][1], e.built[k][2], e.built[k][3]>> : k \in DOMAIN e.built}
                                                     = {<<f[1], f[2], IF f \in st.vary THEN b[f] ELSE "p">> : f \in DOMAIN b}>>,
               <<"other-indexes-untouched", e.touched = <<>> >> >>
Apply(e, st) == CASE e.ev = "New" -> S0
                  [] e.ev = "World" -> [st EXCEPT !.v = e.v, !.files = Files(e.all), !.vary = Files(e.vary)]
                  [] OTHER -> After(e, st)
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
