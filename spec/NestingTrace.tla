---------------------------- MODULE NestingTrace ----------------------------
(* Events: Put(path, dig) a file handed in; Stream(top, eof, rest) how the compressed form of one top-level entry
   ends; Stored(path, dig) a leaf found by independently inflating / parsing the compressed form; Read(path, dig) a
   leaf the real reader produced; End(ok).  `top` and paths are arrays of names.                                   *)
EXTENDS TraceBase, FiniteSets
VARIABLES i, s, fails
tvars == <<i, s, fails>>
Clauses(e, st) ==
    CASE e.ev \in {"New", "Put"} -> <<>>
      [] e.ev = "Bad" -> << <<"stored-form-legal", FALSE>> >>
      [] e.ev = "Stream" -> << <<"stream-ends", e.eof>>, <<"stream-alone", e.rest = 0>>,
                               <<"stream-of-entry", \E p \in st.put : p[1][1] = e.c /\ p[1][2] = e.name>> >>
      [] e.ev = "Stored" -> << <<"stored-leaf", <<e.path, e.dig>> \in st.put>>,
                               <<"stored-once", <<e.path, e.dig>> \notin st.stored>> >>
      [] e.ev = "AllStored" -> << <<"stored-all", st.put = st.stored>> >>
      [] e.ev = "Read" -> << <<"read-leaf", \E p \in st.put : p[1] = e.path>>,
                             <<"read-content", \A p \in st.put : p[1] = e.path => p[2] = e.dig>>,
                             <<"read-once", \A p \in st.got : p[1] # e.path>> >>
      [] e.ev = "End" -> << <<"no-error", e.ok>>,
                            <<"all-read", e.ok => {p[1] : p \in st.put} = {p[1] : p \in st.got}>> >>
Apply(e, st) ==
    CASE e.ev = "New" -> [put |-> {}, got |-> {}, stored |-> {}]
      [] e.ev = "Put" -> [st EXCEPT !.put = @ \cup {<<e.path, e.dig>>}]
      [] e.ev = "Stored" -> [st EXCEPT !.stored = @ \cup {<<e.path, e.dig>>}]
      [] e.ev = "Read" -> [st EXCEPT !.got = @ \cup {<<e.path, e.dig>>}]
      [] OTHER -> st
TraceInit == i = 1 /\ s = [put |-> {}, got |-> {}, stored |-> {}] /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
