----------------------------- MODULE SourcesMC --------------------------------
EXTENDS Sources, Randomization
E(d, n, td, tn) == [d |-> d, n |-> n, td |-> td, tn |-> tn]
F3 == {<<"A", "x">>, <<"A", "y">>, <<"", "x">>}
I3 == {{}, {E("A", "x", "c", "z")}, {E("A", "*", "c", "")}, {E("A", "x", "", ""), E("A", "*", "c", "")}}
F5 == {<<"A", "x">>, <<"A", "y">>, <<"A", "z">>, <<"", "x">>, <<"B", "x">>}
I5 == {{}, {E("A", "x", "c", "w")}, {E("A", "*", "c", "")}, {E("A", "x", "", ""), E("A", "*", "c", "")},
       {E("A", "x", "d", "y"), E("A", "*", "c", ""), E("", "x", "c", "q")},
       {E("A", "x", "c", "x"), E("B", "x", "c", "y"), E("A", "z", "", "")}, {E("A", "*", "c", ""), E("B", "*", "d", "")}}
\* a few products at random, new ones in every state (for simulation)
SomeProducts == IF Len(ops) >= 0 THEN {RandomElement([S -> Contents]) : S \in RandomSubset(5, (SUBSET Files) \ {{}})} ELSE {}
VPlain == {-1}
V3 == {0, 3, 5}
V4 == {0, 3, 5, 12}
=============================================================================
