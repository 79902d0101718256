--------------------------- MODULE ContainerTrace ---------------------------
(* Trace specification for container files.  Events of one trace:
     Put(c, name, dig)      entry `name` with content `dig` was handed to the writer / rendered into container c
     File(c, ...)           raw layout of container c of the produced file, parsed independently of the code under test
     Read(c, name, dig)     the real reader produced this entry
     End(ok)                the operation ended normally / with an error
   The layout operators are those of Container.tla.                                                               *)
EXTENDS TraceBase, FiniteSets, SequencesExt, FiniteSetsExt
C == INSTANCE Container WITH NEntries <- 1, Sizes <- {0}, Gaps <- {0}, Splits <- {"exact"}, HDR <- 1, BH <- 1,
        sizes <- 0, plan <- 0, placed <- <<>>, eof <- 0, gap <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>

Blk(b) == [off |-> b[1], doc |-> b[2], blk |-> b[3], nxt |-> b[4]]
Blks(bs) == [k \in 1..Len(bs) |-> Blk(bs[k])]
RECURSIVE Flat(_)
Flat(es) == IF es = <<>> THEN <<>> ELSE Blks(Head(es).attr) \o Blks(Head(es).data) \o Flat(Tail(es))

FileClauses(e, st) ==
    LET toc == Blks(e.toc)
        all == toc \o Flat(e.entries)
        stored == {<<e.c, e.entries[k].name, e.entries[k].dig>> : k \in 1..Len(e.entries)}
        chains == {toc} \cup {Blks(e.entries[k].attr) : k \in 1..Len(e.entries)}
                        \cup {Blks(e.entries[k].data) : k \in 1..Len(e.entries)}
    IN  << <<"chains-linked", \A b \in chains : C!ChainLinked(b)>>,
           <<"chains-cover", \A b \in chains : C!ChainCovers(b)>>,
           <<"blocks-disjoint", C!NoOverlap(all, e.bh, e.hdr)>>,
           <<"toc-size", toc[1].doc = e.ent * Len(e.entries)>>,
           <<"header-count", e.count = Len(e.entries)>>,
           <<"inside-file", \A k \in 1..Len(all) : e.base + C!BlockEnd(all[k], e.bh) <= e.len>>,
           <<"stored-set", stored = {p \in st.put : p[1] = e.c}>>,
           <<"stored-once", Cardinality({e.entries[k].name : k \in 1..Len(e.entries)}) = Len(e.entries)>> >>

Clauses(e, st) ==
    CASE e.ev = "New"  -> <<>>
      [] e.ev = "Put"  -> <<>>
      [] e.ev = "Bad"  -> << <<"layout-parses", FALSE>> >>
      [] e.ev = "File" -> FileClauses(e, st)
      [] e.ev = "Read" -> << <<"read-stored", \E p \in st.put : p[1] = e.c /\ p[2] = e.name>>,
                             <<"read-content", \A p \in st.put : (p[1] = e.c /\ p[2] = e.name) => p[3] = e.dig>>,
                             <<"read-once", <<e.c, e.name, e.dig>> \notin st.got>> >>
      [] e.ev = "End"  -> << <<"no-error", e.ok>>,
                             <<"all-read", e.ok => {<<p[1], p[2]>> : p \in st.put} = {<<p[1], p[2]>> : p \in st.got}>> >>

Apply(e, st) ==
    CASE e.ev = "New"  -> [put |-> {}, got |-> {}]
      [] e.ev = "Put"  -> [st EXCEPT !.put = @ \cup {<<e.c, e.name, e.dig>>}]
      [] e.ev = "Read" -> [st EXCEPT !.got = @ \cup {<<e.c, e.name, e.dig>>}]
      [] OTHER -> st

TraceInit == i = 1 /\ s = [put |-> {}, got |-> {}] /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
