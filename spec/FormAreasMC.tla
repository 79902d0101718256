----------------------------- MODULE FormAreasMC ------------------------------
EXTENDS FormAreas
PL == {<<>>, <<"1", "2">>}
=============================================================================
