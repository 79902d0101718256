--------------------------- MODULE FormAreasTrace ---------------------------
(* Events:  Form(path, nodes, data, rest) a form of the product;  Pre(name, nodes, data) an area file that existed before;
            Root(path, nodes, data, rest), File(name, nodes, data) what unpacking wrote;  Extra(path) any other new file;
            Change(name, nodes, data) an area file changed by hand;  Split(ok);  Packed(path, nodes, data, rest);
            Joined(ok).   nodes: [d, kind, text, page] in tree order;  data: [path, content], path a list of [kind, text] *)
EXTENDS TraceBase, FiniteSets, FiniteSetsExt
F == INSTANCE FormAreas WITH Mode <- "", MaxNodes <- 0, AreaNames <- {}, PageLists <- {}, form <- <<>>, rootps <- <<>>
VARIABLES i, s, fails
tvars == <<i, s, fails>>
None == [x \in {} |-> <<>>]
S0 == [forms |-> None, files |-> None, roots |-> None, cand |-> {}, shared |-> {}]
Ns(q) == [k \in 1..Len(q) |-> [d |-> q[k][1], n |-> <<q[k][2], q[k][3]>>, g |-> q[k][4]]]
Dt(q) == [p \in {q[k][1] : k \in 1..Len(q)} |-> (CHOOSE x \in {q[k] : k \in 1..Len(q)} : x[1] = p)[2]]
Unique(q) == Cardinality({q[k][1] : k \in 1..Len(q)}) = Len(q)
Into(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rec(e) == [nodes |-> Ns(e.nodes), data |-> Dt(e.data)]
RecR(e) == [nodes |-> Ns(e.nodes), data |-> Dt(e.data), rest |-> e.rest]
Area(fm, j) == [nodes |-> F!AreaNodes(fm.nodes, j), data |-> F!AreaData(fm.nodes, fm.data, j)]
NamesIn(fm) == {fm.nodes[j].n[2] : j \in F!AreasOf(fm.nodes)}
Clauses(e, st) ==
    CASE e.ev = "Root" -> LET known == e.path \in DOMAIN st.forms  fm == st.forms[e.path] IN
            << <<"form-file-known", known>>, <<"form-file-paths-unique", Unique(e.data)>>,
               <<"form-keeps-frame", known => Ns(e.nodes) = F!RootNodes(fm.nodes, 1)>>,
               <<"form-keeps-its-data", known => Dt(e.data) = F!RootData(fm.nodes, fm.data)>>,
               <<"form-keeps-the-rest", known => e.rest = fm.rest>> >>
      [] e.ev = "File" -> << <<"area-file", <<e.name, Rec(e)>> \in st.cand
                                  \/ (/\ \A c \in st.cand : c[1] # e.name
                                      /\ e.name \in DOMAIN st.files /\ st.files[e.name] = Rec(e))>> >>
      [] e.ev = "Extra" -> << <<"no-extra-file", FALSE>> >>
      [] e.ev = "Split" -> << <<"split-no-error", e.ok>>,
                              <<"split-all-forms", e.ok => DOMAIN st.roots = DOMAIN st.forms>>,
                              <<"split-all-areas", e.ok => \A c \in st.cand : c[1] \in DOMAIN st.files>> >>
      [] e.ev = "Packed" -> LET known == e.path \in DOMAIN st.roots  r == st.roots[e.path]
                                all == \A n \in NamesIn(r) : n \in DOMAIN st.files IN
            << <<"pack-known", known>>, <<"pack-areas-known", known => all>>,
               <<"pack-tree", (known /\ all) => Ns(e.nodes) = F!JoinNodes(r.nodes, 1, st.files)>>,
               <<"pack-data", (known /\ all) => Dt(e.data) = F!JoinData(r.nodes, r.data, st.files)>>,
               <<"pack-rest", known => e.rest = r.rest>>,
               <<"pack-restores-form", (e.path \in DOMAIN st.forms /\ NamesIn(st.forms[e.path]) \cap st.shared = {}) =>
                     RecR(e) = st.forms[e.path]>> >>
      [] e.ev = "Joined" -> << <<"pack-no-error", e.ok>>,
                               <<"pack-all-forms", e.ok => e.n = Cardinality(DOMAIN st.forms)>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Form" -> LET fm == RecR(e) IN
            [st EXCEPT !.forms = Into(@, e.path, fm),
                       !.cand = @ \cup {<<fm.nodes[j].n[2], Area(fm, j)>> : j \in F!Written(fm.nodes)},
                       !.shared = @ \cup UNION {NamesIn(fm) \cap NamesIn(st.forms[p]) : p \in DOMAIN st.forms}
                                    \cup {fm.nodes[j].n[2] : j \in F!AreasOf(fm.nodes) \ F!Written(fm.nodes)}]
      [] e.ev = "Pre" \/ e.ev = "File" -> [st EXCEPT !.files = Into(@, e.name, Rec(e))]
      [] e.ev = "Change" -> [st EXCEPT !.files = Into(@, e.name, Rec(e)), !.shared = @ \cup {e.name}]
      [] e.ev = "Root" -> [st EXCEPT !.roots = Into(@, e.path, RecR(e))]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
