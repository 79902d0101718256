----------------------------- MODULE BraceTrace -----------------------------
(* Events of one trace:
     Value(toks)      a value handed to the writer          Given(text)  a brace text laid out as the platform does
     Text(text)       the file the real writer produced     Back(toks)   what the real reader returned for the file
     Again(same)      writing what was read gives the same bytes
     Bytes(same)      the rewritten file has the bytes of the given one (line-end style and BOM aside)
     Fail(op, why)    the code under test refused
   Tokens are <<kind, codes>>.  `#base64:` data wrapped over lines and `##base64:` (one line) are the same data.     *)
EXTENDS TraceBase, FiniteSets, SequencesExt
B == INSTANCE Brace WITH Params <- {}, MaxTokens <- 0, MaxDepth <- 0, MaxRoots <- 0,
        toks <- <<>>, depth <- 0, roots <- 0, phase <- "", text <- <<>>, pos <- 0, rd <- <<>>
VARIABLES i, s, fails
tvars == <<i, s, fails>>
HashHash == <<35, 35, 98, 97, 115, 101, 54, 52, 58>>
Canon(t) == IF Len(t) >= 9 /\ SubSeq(t, 1, 9) = HashHash THEN SubSeq(t, 2, Len(t)) ELSE t
Toks(ts) == [k \in 1..Len(ts) |-> [k |-> ts[k][1], t |-> Canon(ts[k][2])]]
Clauses(e, st) ==
    CASE e.ev = "Given" -> LET r == B!Parse(e.text) IN << <<"given-legal", B!Finished(r)>> >>
      [] e.ev = "Text" -> LET r == B!Parse(e.text) IN << <<"text-legal", B!Finished(r)>>,
                                                         <<"text-means-value", r.out = st.toks>> >>
      [] e.ev = "Back" -> << <<"read-value", Toks(e.toks) = st.toks>> >>
      [] e.ev = "Again" -> << <<"rewrite-stable", e.same>> >>
      [] e.ev = "Bytes" -> << <<"bytes-kept", e.same>> >>
      [] e.ev = "Fail" -> << <<"no-error", FALSE>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> [toks |-> <<>>]
      [] e.ev = "Value" -> [toks |-> Toks(e.toks)]
      [] e.ev = "Given" -> [toks |-> B!Parse(e.text).out]
      [] OTHER -> st
TraceInit == i = 1 /\ s = [toks |-> <<>>] /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
