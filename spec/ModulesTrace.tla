---------------------------- MODULE ModulesTrace ----------------------------
(* One trace is the life of one module.  Events:
     Module(place, enc, lines)   what the product contains;
     Source(file, lines)         a file of the sources that contains this module (file: bsl, bin, image, or another name);
     Extracted(ok)               the sources are complete;        Edited(lines)  the file was rewritten;
     Built(ok, enc, lines)       what the built product contains;  Again  the built product is the next one to be extracted.
   The lines of a module that is not a text are <<[k |-> "t", t |-> digest]>>.                                         *)
EXTENDS TraceBase
M == INSTANCE Modules WITH Places <- {}, Encodings <- {}, Texts <- {}, MaxEdits <- 0, phase <- 0, mod <- 0, first <- 0, src <- 0,
        hist <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
S0 == [place |-> "", enc |-> "", lines |-> <<>>, src |-> <<>>, files |-> 0, edited |-> FALSE]
Clauses(e, st) ==
    CASE e.ev = "Module" -> << <<"harness-stored-ok", M!StoredOK(e.place, e.enc, e.lines)>> >>
      [] e.ev = "Source" -> << <<"one-file", st.files = 0>>,
                               <<"file-name", e.file = M!FileOf(st.enc, st.lines)>>,
                               <<"source-text", e.lines = M!ToSource(st.place, st.enc, st.lines)>> >>
      [] e.ev = "Extracted" -> << <<"extract-no-error", e.ok>>,
                                  <<"text-lost", e.ok /\ M!FileOf(st.enc, st.lines) # "none" => st.files = 1>> >>
      [] e.ev = "Edited" -> << <<"harness-source-ok", M!SourceOK(st.place, st.enc, e.lines)>> >>
      [] e.ev = "Built" -> << <<"build-no-error", e.ok>>,
                              <<"encoding-kept", e.ok => e.enc = st.enc>>,
                              <<"built-text", e.ok => e.lines = M!ToStored(st.place, st.enc, st.src)>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Module" -> [S0 EXCEPT !.place = e.place, !.enc = e.enc, !.lines = e.lines,
                                       !.src = M!ToSource(e.place, e.enc, e.lines)]
      [] e.ev = "Source" -> [st EXCEPT !.files = @ + 1]
      [] e.ev = "Edited" -> [st EXCEPT !.src = e.lines]
      [] e.ev = "Again" -> [st EXCEPT !.lines = M!ToStored(st.place, st.enc, st.src), !.files = 0]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
