------------------------------- MODULE BraceMC -------------------------------
(* Model values for Brace: bare parameters, and strings over the characters the reader treats specially. *)
EXTENDS Brace
Quoted(n) == {<<QT>> \o FlattenSeq([j \in 1..Len(w) |-> IF w[j] = QT THEN <<QT, QT>> ELSE <<w[j]>>]) \o <<QT>> :
                w \in [1..n -> {QT, COMMA, LF, LB, RB, 97}]}
MCParams == {<<>>, <<97>>, <<QT, QT>>} \cup Quoted(1)
MCWide == {<<>>, <<48>>, <<QT, QT>>} \cup Quoted(1) \cup Quoted(2) \cup Quoted(3)
MCStrings == Quoted(1) \cup Quoted(2) \cup Quoted(3) \cup Quoted(4)
EmitOn == Emit
=============================================================================
