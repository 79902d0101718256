---------------------------- MODULE ObjectsTrace ----------------------------
(* Events:  Obj(id, kind, up, name, body) an object of the product, in the order of its owner's list;  Rest(name, body)
            anything else the product contains;  Folder(path, id) a folder of the sources;  Extracted(ok);
            Drop(path), Put(objs), Reid(path, new), Edit(path, body) work on the sources;
            Out(id, kind, up, name, body), List(up, kind, ids), RestOut(name, body), Stray(name) what the built product
            contains;  Built(ok);  Again(ok, same) a second run from the same start.   New(auto) starts a trace.
            Src(name, sum), SrcAgain(name, sum), Sources the files of the sources, and those of the built product extracted
            Entry(name, sum), Listed(name, sum), Manifest(count) the entries of the built product and its own list of them *)
EXTENDS TraceBase, FiniteSets, FiniteSetsExt, SequencesExt
O == INSTANCE Objects WITH Kinds <- {}, RootKinds <- {}, SubOf <- <<>>, Names <- {}, MaxObjs <- 0, MaxPuts <- 0,
        MaxEdits <- 0, phase <- 0, auto <- FALSE, prod <- 0, tree <- 0, hist <- <<>>, todo <- {}, next <- {}, group <- {},
        stack <- <<>>, opened <- {}, done <- {}, index <- <<>>, out <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
None == [x \in {} |-> <<>>]
S0 == [auto |-> FALSE, p |-> [objs |-> None, lists |-> None], rest |-> {}, folders |-> {}, got |-> None, listed |-> None,
       restgot |-> {}, at |-> None, entries |-> <<>>, manifest |-> <<>>, src |-> {}, again |-> {}]
Rec(e) == [kind |-> e.kind, up |-> e.up, name |-> e.name, body |-> e.body]
Path(p, id) == O!PathOf(p.objs, "", id)
Find(st, path) == CHOOSE id \in DOMAIN st.p.objs : st.at[id] = path
Known(st, path) == \E id \in DOMAIN st.p.objs : st.at[id] = path
At(p) == [id \in DOMAIN p.objs |-> Path(p, id)]
RECURSIVE PutAll(_, _)
PutAll(p, os) == IF os = <<>> THEN p ELSE PutAll(O!With(p, os[1].id, Rec(os[1])), Tail(os))
ExpectedList(st, slot) ==
    IF slot \notin O!Slots(st.p.objs) THEN <<>>
    ELSE IF st.auto THEN O!ByName(st.p.objs, O!ChildrenOf(st.p.objs, slot[1], slot[2]))
    ELSE st.p.lists[slot]
Clauses(e, st) ==
    CASE e.ev = "Folder" -> << <<"folder-for-object", e.id \in DOMAIN st.p.objs /\ st.at[e.id] = e.path>>,
                               <<"one-folder-each", e.path \notin st.folders>> >>
      [] e.ev = "Extracted" -> << <<"extract-no-error", e.ok>>,
                                  <<"folder-for-every-object", e.ok => st.folders = {st.at[id] : id \in DOMAIN st.p.objs}>> >>
      [] e.ev = "Out" -> << <<"object-known", e.id \in DOMAIN st.p.objs>>,
                            <<"object-once", e.id \notin DOMAIN st.got>>,
                            <<"object-place", e.id \in DOMAIN st.p.objs =>
                                  LET o == st.p.objs[e.id] IN e.kind = o.kind /\ e.up = o.up /\ e.name = o.name>>,
                            <<"object-content", e.id \in DOMAIN st.p.objs => e.body = st.p.objs[e.id].body>> >>
      [] e.ev = "List" -> << <<"list-once", <<e.up, e.kind>> \notin DOMAIN st.listed>>,
                             <<"list-as-expected", e.ids = ExpectedList(st, <<e.up, e.kind>>)>> >>
      [] e.ev = "RestOut" -> << <<"rest-unchanged", <<e.name, e.body>> \in st.rest>> >>
      [] e.ev = "Stray" -> << <<"no-stray-entry", FALSE>> >>
      [] e.ev = "Built" -> << <<"build-no-error", e.ok>>,
                              <<"object-lost", e.ok => DOMAIN st.got = DOMAIN st.p.objs>>,
                              <<"list-lost", e.ok => O!Slots(st.p.objs) \subseteq DOMAIN st.listed>>,
                              <<"rest-lost", e.ok => st.restgot = {r[1] : r \in st.rest}>> >>
      [] e.ev = "Again" -> << <<"same-whatever-the-schedule", e.ok /\ e.same>> >>
      [] e.ev = "Sources" -> << <<"sources-survive-build", {f[1] : f \in st.src \ st.again} = {}>>,
                                <<"no-new-sources", {f[1] : f \in st.again} \subseteq {f[1] : f \in st.src}>> >>
      [] e.ev = "Manifest" ->
            << <<"manifest-lists-each-entry-once", IsInjective([k \in 1..Len(st.manifest) |-> st.manifest[k][1]])>>,
               <<"manifest-count", e.count = Len(st.manifest)>>,
               <<"manifest-is-the-content", ToSet(st.manifest) = ToSet(st.entries)>> >>
      [] OTHER -> <<>>
Upd(st, p) == [st EXCEPT !.p = p, !.at = At(p)]
Apply(e, st) ==
    CASE e.ev = "New" -> [S0 EXCEPT !.auto = e.auto]
      [] e.ev = "Obj" -> LET p == O!With(st.p, e.id, Rec(e)) IN
                         [st EXCEPT !.p = p, !.at = O!Into(@, e.id, Path(p, e.id))]
      [] e.ev = "Rest" -> [st EXCEPT !.rest = @ \cup {<<e.name, e.body>>}]
      [] e.ev = "Folder" -> [st EXCEPT !.folders = @ \cup {e.path}]
      [] e.ev = "Drop" /\ Known(st, e.path) -> Upd(st, O!Without(st.p, Find(st, e.path)))
      [] e.ev = "Put" -> Upd(st, PutAll(st.p, e.objs))
      [] e.ev = "Reid" /\ Known(st, e.path) -> Upd(st, O!Rebody(O!Renumber(st.p, Find(st, e.path), e.new), e.new, e.body))
      [] e.ev = "Edit" /\ Known(st, e.path) -> Upd(st, O!Rebody(st.p, Find(st, e.path), e.body))
      [] e.ev = "Out" -> [st EXCEPT !.got = O!Into(@, e.id, TRUE)]
      [] e.ev = "List" -> [st EXCEPT !.listed = O!Into(@, <<e.up, e.kind>>, TRUE)]
      [] e.ev = "RestOut" -> [st EXCEPT !.restgot = @ \cup {e.name}]
      [] e.ev = "Entry" -> [st EXCEPT !.entries = Append(@, <<e.name, e.sum>>)]
      [] e.ev = "Listed" -> [st EXCEPT !.manifest = Append(@, <<e.name, e.sum>>)]
      [] e.ev = "Src" -> [st EXCEPT !.src = @ \cup {<<e.name, e.sum>>}]
      [] e.ev = "SrcAgain" -> [st EXCEPT !.again = @ \cup {<<e.name, e.sum>>}]
      [] e.ev = "Clear" -> [st EXCEPT !.got = None, !.listed = None, !.restgot = {}, !.entries = <<>>, !.manifest = <<>>]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
