---------------------------- MODULE Attachments ----------------------------
(* Attachments of metadata objects - templates, pictures, help, predefined data, packages, rights - between the product
   and the files of the sources.

   An attachment is an entry of the product:  [there, shell, data].  data is what a user sees as the content; shell is
   whatever the product keeps around it (a list in braces, for the kinds that have one).  kind:
     "raw"    the entry is the content;
     "text"   the entry is a text: line ends may change, nothing else does;   a text in an unknown encoding is "raw";
     "held"   the content is base64 inside a list that stays in the description of the object;
     "blob"   the content is base64 alone: the file is either the content, named after the comment, or the entry itself.
   Data 0 is no content at all.                                                                                       *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Kinds, Data, Shells, MaxEdits

VARIABLES phase, att, first, file, kept, hist
\* file: content of the file in the sources, or NoFile;  kept: the shell in the description of the object, or NoShell
vars == <<phase, att, first, file, kept, hist>>

NoFile == [is |-> "none", data |-> 0]
NoShell == 0
Plain(d) == [is |-> "data", data |-> d]
Entry(d) == [is |-> "entry", data |-> d]            \* the file is the entry with everything in it
Missing == [there |-> FALSE, shell |-> NoShell, data |-> 0]
Whole(k) == k \in {"raw", "text"}
\* what the sources may contain for an attachment
FilesOf(k, a) ==
    IF ~a.there THEN {NoFile}
    ELSE IF Whole(k) THEN {Plain(a.data)}
    ELSE IF k = "held" THEN (IF a.data = 0 THEN {NoFile, Plain(0)} ELSE {Plain(a.data)})
    ELSE {Plain(a.data), Entry(a.data)}
KeptOf(k, a) == IF k = "held" /\ a.there THEN a.shell ELSE NoShell
\* what is built from a file, and the shell kept in the description
BuiltFrom(k, f, sh, own) ==
    IF Whole(k) THEN (IF f = NoFile THEN Missing ELSE [there |-> TRUE, shell |-> NoShell, data |-> f.data])
    ELSE IF k = "held" THEN (IF sh = NoShell THEN Missing ELSE [there |-> TRUE, shell |-> sh, data |-> f.data])
    ELSE IF f = NoFile THEN Missing
    ELSE [there |-> TRUE, shell |-> own, data |-> f.data]
OK(k, a) == /\ ~a.there => a = Missing
            /\ Whole(k) => a.shell = NoShell
            /\ a.there /\ ~Whole(k) => a.shell # NoShell
            /\ k = "blob" /\ a.there => a.shell = 1       \* there is one way to write it

Init == \E k \in Kinds : \E a \in [there : BOOLEAN, shell : Shells \cup {NoShell}, data : Data] :
            /\ OK(k, a) /\ att = [k |-> k, a |-> a] /\ first = att
            /\ file = NoFile /\ kept = NoShell /\ phase = "product" /\ hist = <<>>
Extract == /\ phase = "product" /\ phase' = "sources"
           /\ \E f \in FilesOf(att.k, att.a) : file' = f
           /\ kept' = KeptOf(att.k, att.a) /\ UNCHANGED <<att, first, hist>>
\* a file is replaced by another one, or - when the object can have one - a file is added
Put(d) == /\ phase = "sources" /\ Len(hist) < MaxEdits
          /\ att.k = "held" => kept # NoShell
          /\ file' = Plain(d) /\ hist' = Append(hist, <<"put", d>>) /\ UNCHANGED <<phase, att, first, kept>>
Remove == /\ phase = "sources" /\ Len(hist) < MaxEdits /\ file # NoFile
          /\ file' = NoFile /\ hist' = Append(hist, <<"remove", 0>>) /\ UNCHANGED <<phase, att, first, kept>>
Build == /\ phase = "sources" /\ phase' = "built"
         /\ att' = [att EXCEPT !.a = BuiltFrom(att.k, file, kept, 1)] /\ UNCHANGED <<first, file, kept, hist>>
Again == /\ phase = "built" /\ Len(hist) < MaxEdits /\ phase' = "product" /\ hist' = Append(hist, <<"again", 0>>)
         /\ UNCHANGED <<att, first, file, kept>>
Next == Extract \/ (\E d \in Data : Put(d)) \/ Remove \/ Build \/ Again
Spec == Init /\ [][Next]_vars

Untouched == \A i \in 1..Len(hist) : hist[i][1] = "again"
RoundTrip == phase = "built" /\ Untouched => att = first
WellFormed == OK(att.k, att.a)
\* what the user put into the sources is what the product contains
FileWins == phase = "built" /\ file # NoFile => att.a.there /\ att.a.data = file.data
ShellKept == att.a.there /\ first.a.there => att.a.shell = first.a.shell
NothingInvented == phase = "built" /\ file = NoFile => att.a.data = 0
=============================================================================
