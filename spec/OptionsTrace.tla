---------------------------- MODULE OptionsTrace ----------------------------
(* A trace is the life of one product.  Texts are sequences of code points.  Events:
     Product(kind, compat, pre, ver, note, rest), Obj(id, name, top, own, dp, note)     what is extracted first;
     Extract(v, pre), Extracted(ok), SrcObj(id, name, folder), Src(compat, file, fileis, ids);
     Release(t);   Build(v, pre, g, out), Built(ok), Out(compat, pre, ver, note, rest, ids), OutObj(id, name, note);
     Same(ok, what)      something the options are not about                                                        *)
EXTENDS TraceBase
O == INSTANCE Options WITH Products <- {}, Prefixes <- {}, Versions <- {}, Goods <- {}, Releases <- {}, Outs <- {}, Sep <- <<95>>,
        Mark <- <<118, 101, 114, 58>>, Colon <- <<58>>, MaxSteps <- 0, phase <- 0, prod <- 0, first <- 0, src <- 0, hist <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
None == [kind |-> "none", objs |-> <<>>]
S0 == [prod |-> None, src |-> None, rest |-> ""]
NoObj == [name |-> <<>>]
At(p, id) == IF id \in DOMAIN p.objs THEN p.objs[id] ELSE NoObj
Clauses(e, st) ==
    CASE e.ev = "Extracted" -> << <<"extract-no-error", e.ok>> >>
      [] e.ev = "SrcObj" -> << <<"source-object-known", e.id \in DOMAIN st.src.objs>>,
                               <<"source-name", e.name = At(st.src, e.id).name>>,
                               <<"source-folder", e.folder = At(st.src, e.id).name>> >>
      [] e.ev = "Src" -> << <<"source-objects", e.ids = Len(st.src.objs)>>,
                            <<"source-compatibility", st.src.kind = "epf" \/ e.compat = st.src.compat>>,
                            <<"source-version-file", e.file = st.src.file>> >>
      [] e.ev = "Built" -> << <<"build-no-error", e.ok>> >>
      [] e.ev = "Out" -> << <<"built-objects", e.ids = Len(st.prod.objs)>>,
                            <<"built-compatibility", st.prod.kind = "epf" \/ e.compat = st.prod.compat>>,
                            <<"built-prefix", e.pre = st.prod.pre>>, <<"built-version", e.vertext = st.prod.ver>>,
                            <<"built-comment", e.note = st.prod.note>>, <<"nothing-else-changed", e.rest = st.rest>> >>
      [] e.ev = "OutObj" -> << <<"built-object-known", e.id \in DOMAIN st.prod.objs>>,
                               <<"built-name", e.name = At(st.prod, e.id).name>>,
                               <<"built-object-comment", e.id \in DOMAIN st.prod.objs => e.note = st.prod.objs[e.id].note>> >>
      [] e.ev = "Same" -> << <<e.what, e.ok>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Product" -> [prod |-> [kind |-> e.kind, objs |-> <<>>, compat |-> e.compat, pre |-> e.pre, ver |-> e.vertext,
                                        note |-> e.note],
                              src |-> None, rest |-> e.rest]
      [] e.ev = "Obj" -> [st EXCEPT !.prod.objs = Append(@, [name |-> e.name, top |-> e.top, own |-> e.own, dp |-> e.dp, note |-> e.note])]
      [] e.ev = "Extract" -> [st EXCEPT !.src = O!Source(st.prod, e.v, e.pre)]
      [] e.ev = "Release" -> [st EXCEPT !.src.file = [is |-> TRUE, t |-> e.t]]
      [] e.ev = "Build" -> [st EXCEPT !.prod = O!Product(st.src, e.v, e.pre, e.g, e.out)]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
