------------------------------ MODULE Modules ------------------------------
(* The text of one module on its way from a product to its source file and back.

   A text is a sequence of lines [k, t]:  k = "d" a directive of newer platforms (#Область, #КонецОбласти, &НаСервере,
   &НаКлиенте and longer ones) at the beginning of the line, "c" such a directive commented out by the program,
   "t" any other line;  t is the line itself (for "c": the directive).  The empty text has no lines.

   place:  "plain"  a module kept as it is;
           "old"    a module of the product itself on platform 8.1 or 8.2, and
           "form"   the module of an ordinary form: directives are commented out in the product and not in the sources
                    (all but one on the first line, see usage.md);
           "quoted" the module of a managed form: a quoted string inside the form.
   enc:    "utf8", "bom" (with byte order mark), "cp1251" (old platforms), "opaque" (not a text), "image" (encrypted or
           compiled: no text at all).  The last two are not touched, and are kept as they are in a file of their own.   *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Places, Encodings, Texts, MaxEdits

VARIABLES phase, mod, first, src, hist
vars == <<phase, mod, first, src, hist>>

IsText(e) == e \in {"utf8", "bom", "cp1251"}
Marked(p) == p \in {"old", "form"}
Swap(ls, a, b) == [i \in 1..Len(ls) |-> IF i > 1 /\ ls[i].k = a THEN [ls[i] EXCEPT !.k = b] ELSE ls[i]]
ToSource(p, e, ls) == IF IsText(e) /\ Marked(p) THEN Swap(ls, "c", "d") ELSE ls
ToStored(p, e, ls) == IF IsText(e) /\ Marked(p) THEN Swap(ls, "d", "c") ELSE ls
\* the file a module has in the sources
FileOf(e, ls) == IF e = "image" THEN "image" ELSE IF e = "opaque" THEN "bin" ELSE IF ls = <<>> THEN "none" ELSE "bsl"
Has(ls, k) == \E i \in 2..Len(ls) : ls[i].k = k
\* what a platform without directives stores, and what the sources contain
StoredOK(p, e, ls) == (IsText(e) /\ Marked(p)) => ~Has(ls, "d")
SourceOK(p, e, ls) == (IsText(e) /\ Marked(p)) => ~Has(ls, "c")
EncodingOK(p, e) == (p = "quoted" => e = "utf8") /\ (p = "form" => e # "image")

None == [k |-> "-", t |-> <<>>]
Init == /\ \E p \in Places : \E e \in Encodings : \E ls \in Texts :
              /\ EncodingOK(p, e) /\ StoredOK(p, e, ls)
              /\ mod = [place |-> p, enc |-> e, lines |-> ls]
        /\ first = mod /\ src = <<None>> /\ phase = "product" /\ hist = <<>>
Extract == /\ phase = "product" /\ phase' = "sources" /\ src' = ToSource(mod.place, mod.enc, mod.lines)
           /\ UNCHANGED <<mod, first, hist>>
Edit(ls) == /\ phase = "sources" /\ Len(hist) < MaxEdits /\ SourceOK(mod.place, mod.enc, ls)
            /\ FileOf(mod.enc, src) # "none" /\ IsText(mod.enc)
            /\ src' = ls /\ hist' = Append(hist, [a |-> "edit", lines |-> ls]) /\ UNCHANGED <<phase, mod, first>>
Build == /\ phase = "sources" /\ phase' = "built" /\ mod' = [mod EXCEPT !.lines = ToStored(mod.place, mod.enc, src)]
         /\ UNCHANGED <<src, first, hist>>
Again == /\ phase = "built" /\ phase' = "product" /\ Len(hist) < MaxEdits /\ hist' = Append(hist, [a |-> "again", lines |-> src])
         /\ UNCHANGED <<mod, first, src>>
Next == Extract \/ (\E ls \in Texts : Edit(ls)) \/ Build \/ Again
Spec == Init /\ [][Next]_vars

RoundTrip == (phase = "built" /\ \A i \in 1..Len(hist) : hist[i].lines = ToSource(first.place, first.enc, first.lines)) => mod = first
EncodingKept == mod.enc = first.enc /\ mod.place = first.place
Readable == phase # "product" => SourceOK(mod.place, mod.enc, src)
Valid == StoredOK(mod.place, mod.enc, mod.lines)
BuiltIsSource == phase = "built" => ToSource(mod.place, mod.enc, mod.lines) = src
=============================================================================
