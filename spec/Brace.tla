------------------------------- MODULE Brace -------------------------------
(* The brace format ("скобкофайл"): nested lists of parameters.  A value is a stream of tokens
       [k |-> "open"] [k |-> "close"] [k |-> "val", t |-> codes of the characters of a parameter]
   (a list without parameters has one empty parameter).  Reader state machine: Step(r, ch) consumes one character.
   Outside quotes line ends are layout only; inside quotes every character counts and a doubled quote is a quote.
   Writer: Layout(tokens) is the text the platform itself writes.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Params,      \* parameter texts the model chooses from (sequences of codes)
          MaxTokens, MaxDepth, MaxRoots
VARIABLES toks, depth, roots, phase, text, pos, rd
vars == <<toks, depth, roots, phase, text, pos, rd>>

LB == 123  RB == 125  COMMA == 44  QT == 34  LF == 10  CR == 13
Open == [k |-> "open", t |-> <<>>]
Close == [k |-> "close", t |-> <<>>]
Val(t) == [k |-> "val", t |-> t]

(* ---- reader ---- *)
R0 == [mode |-> "v", cur |-> <<>>, after |-> FALSE, d |-> 0, out |-> <<>>, err |-> FALSE]
Plain(r, ch) ==
    CASE ch = LB -> IF r.cur = <<>> /\ ~r.after THEN [r EXCEPT !.out = Append(@, Open), !.d = @ + 1]
                    ELSE [r EXCEPT !.err = TRUE]
      [] ch = RB -> IF r.d = 0 THEN [r EXCEPT !.err = TRUE]
                    ELSE [r EXCEPT !.out = Append(IF r.after THEN @ ELSE Append(@, Val(r.cur)), Close),
                                   !.cur = <<>>, !.after = TRUE, !.d = @ - 1]
      [] ch = COMMA -> IF r.d = 0 THEN [r EXCEPT !.after = FALSE, !.err = ~r.after \/ @]
                       ELSE [r EXCEPT !.out = IF r.after THEN @ ELSE Append(@, Val(r.cur)),
                                      !.cur = <<>>, !.after = FALSE]
      [] ch = QT -> IF r.cur = <<>> /\ ~r.after /\ r.d > 0 THEN [r EXCEPT !.cur = <<QT>>, !.mode = "s"]
                    ELSE [r EXCEPT !.err = TRUE]
      [] ch \in {LF, CR} -> r
      [] OTHER -> IF r.after \/ r.d = 0 THEN [r EXCEPT !.err = TRUE] ELSE [r EXCEPT !.cur = Append(@, ch)]
Step(r, ch) ==
    CASE r.mode = "s" -> [r EXCEPT !.cur = Append(@, ch), !.mode = IF ch = QT THEN "q" ELSE "s"]
      [] r.mode = "q" -> IF ch = QT THEN [r EXCEPT !.cur = Append(@, ch), !.mode = "s"]
                         ELSE IF ch \in {COMMA, RB, LF, CR} THEN Plain([r EXCEPT !.mode = "v"], ch)
                         ELSE [r EXCEPT !.err = TRUE]
      [] OTHER -> Plain(r, ch)
Finished(r) == r.mode = "v" /\ r.d = 0 /\ r.cur = <<>> /\ ~r.err
Parse(cs) == FoldLeft(Step, R0, cs)

(* ---- writer ---- *)
W0 == [text |-> <<>>, prev |-> "none", d |-> 0]
Put(w, tk) ==
    LET sep == IF w.prev \in {"val", "close"} /\ tk.k # "close" THEN <<COMMA>> ELSE <<>>
    IN  CASE tk.k = "open"  -> [text |-> w.text \o sep \o (IF w.prev = "none" THEN <<LB>> ELSE <<LF, LB>>),
                                prev |-> "open", d |-> w.d + 1]
          [] tk.k = "val"   -> [text |-> w.text \o sep \o tk.t, prev |-> "val", d |-> w.d]
          [] tk.k = "close" -> [text |-> w.text \o (IF w.prev = "close" THEN <<LF, RB>> ELSE <<RB>>),
                                prev |-> "close", d |-> w.d - 1]
Layout(ts) == FoldLeft(Put, W0, ts).text

(* ---- the model: choose a value, lay it out, read it character by character ---- *)
Init == toks = <<>> /\ depth = 0 /\ roots = 0 /\ phase = "build" /\ text = <<>> /\ pos = 0 /\ rd = R0
AddTok(tk) == toks' = Append(toks, tk) /\ UNCHANGED <<phase, text, pos, rd>>
LastKind == IF toks = <<>> THEN "none" ELSE toks[Len(toks)].k
Build == /\ phase = "build" /\ Len(toks) < MaxTokens
         /\ \/ /\ depth < MaxDepth /\ (depth > 0 \/ roots < MaxRoots)
               /\ Len(toks) + depth + 3 <= MaxTokens           \* room for a parameter and all closings
               /\ AddTok(Open) /\ depth' = depth + 1 /\ roots' = IF depth = 0 THEN roots + 1 ELSE roots
            \/ /\ depth > 0 /\ Len(toks) + depth + 1 <= MaxTokens
               /\ \E p \in Params : AddTok(Val(p))
               /\ UNCHANGED <<depth, roots>>
            \/ /\ depth > 0 /\ LastKind # "open"
               /\ AddTok(Close) /\ depth' = depth - 1 /\ UNCHANGED roots
Write == /\ phase = "build" /\ depth = 0 /\ toks # <<>>
         /\ text' = Layout(toks) /\ phase' = "read"
         /\ UNCHANGED <<toks, depth, roots, pos, rd>>
Read == /\ phase = "read" /\ pos < Len(text)
        /\ rd' = Step(rd, text[pos + 1]) /\ pos' = pos + 1
        /\ UNCHANGED <<toks, depth, roots, phase, text>>
Stop == /\ phase = "read" /\ pos = Len(text) /\ phase' = "end" /\ UNCHANGED <<toks, depth, roots, text, pos, rd>>
Next == Build \/ Write \/ Read \/ Stop
Spec == Init /\ [][Next]_vars

NoError == ~rd.err
PrefixRead == phase = "read" => IsPrefix(rd.out, toks)
RoundTrip == phase = "end" => rd.out = toks /\ Finished(rd)
Emit == phase = "end" => PrintT("@@" \o ToJson([toks |-> [x \in 1..Len(toks) |-> <<toks[x].k, toks[x].t>>]]))
=============================================================================
