-------------------------- MODULE AttachmentsTrace --------------------------
(* One trace is the life of one attachment.  Data and shells are digests here, "0" is no content, "1" the only shell of a
   blob.  Events:
     Attachment(kind, what, there, shell, data, word)   what the product contains; word: last word of the comment;
     File(is, ext, data)    a file of the sources that holds it;    Stray(name)   another file that contains it;
     Extracted(ok);  Put(data), Remove   work on the file;   Built(ok, there, shell, data);   Again                    *)
EXTENDS TraceBase
A == INSTANCE Attachments WITH Kinds <- {}, Data <- {}, Shells <- {}, MaxEdits <- 0, phase <- 0, att <- 0, first <- 0, file <- 0,
        kept <- 0, hist <- 0
VARIABLES i, s, fails
tvars == <<i, s, fails>>
NoFile == [is |-> "none", data |-> "0"]
Missing == [there |-> FALSE, shell |-> "0", data |-> "0"]
S0 == [kind |-> "raw", what |-> "", a |-> Missing, word |-> [text |-> "", short |-> FALSE, alnum |-> FALSE], file |-> NoFile,
       files |-> 0, kept |-> "0", edited |-> FALSE]
\* the last word of the comment names the files that hold binary data, unless the name is taken
ExtOf(w) == IF w.short /\ w.alnum /\ w.text \notin {"json", "bsl"} THEN w.text ELSE "bin"
Names == [table |-> "mxl", scheme |-> "bin", text |-> "txt", oddtext |-> "bin", html |-> "html", help |-> "html", bighelp |-> "bin",
          brace |-> "0.c1brace", package |-> "bin", predefined |-> "Предустановленные данные.bin", map |-> "Карта маршрута.bin", splash |-> "Заставка",
          blob |-> "", picture |-> ""]
NameOK(st, e) == IF e.is = "entry" THEN e.ext = "c1b64"
                 ELSE IF Names[st.what] # "" THEN e.ext = Names[st.what] ELSE e.ext = ExtOf(st.word)
Num(x) == IF x = "0" THEN 0 ELSE 1
\* digests are compared as they are; the specification's operators are used with them in place of numbers
FilesOf(st) == IF ~st.a.there THEN {NoFile}
               ELSE IF st.kind = "held" /\ st.a.data = "0" THEN {NoFile, A!Plain("0")}
               ELSE IF st.kind = "blob" THEN {A!Plain(st.a.data), A!Entry(st.a.data)}
               ELSE {A!Plain(st.a.data)}
Expected(st) == IF A!Whole(st.kind) \/ st.kind = "blob"
                THEN (IF st.file.is = "none" THEN Missing
                      ELSE [there |-> TRUE, shell |-> IF st.kind = "blob" THEN "1" ELSE "0", data |-> st.file.data])
                ELSE IF st.kept = "0" THEN Missing ELSE [there |-> TRUE, shell |-> st.kept, data |-> st.file.data]
AttOf(e) == [there |-> e.there, shell |-> e.shell, data |-> e.data]
Clauses(e, st) ==
    CASE e.ev = "File" -> << <<"one-file", st.files = 0>>, <<"file-name", NameOK(st, e)>>,
                             <<"file-content", [is |-> e.is, data |-> e.data] \in FilesOf(st)>> >>
      [] e.ev = "Stray" -> << <<"no-other-file", FALSE>> >>
      [] e.ev = "Extracted" -> << <<"extract-no-error", e.ok>>,
                                  <<"content-lost", e.ok /\ NoFile \notin FilesOf(st) => st.files = 1>> >>
      [] e.ev = "Built" -> << <<"build-no-error", e.ok>>,
                              <<"entry-kept", e.ok => e.there = Expected(st).there>>,
                              <<"built-shell", e.ok /\ e.there => e.shell = Expected(st).shell>>,
                              <<"built-content", e.ok /\ e.there => e.data = Expected(st).data>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Attachment" -> [S0 EXCEPT !.kind = e.kind, !.what = e.what, !.a = AttOf(e), !.word = e.word,
                                           !.kept = IF e.kind = "held" THEN e.shell ELSE "0"]
      [] e.ev = "File" -> [st EXCEPT !.files = @ + 1]
      [] e.ev = "Extracted" -> [st EXCEPT !.file = IF st.a.there THEN A!Plain(st.a.data) ELSE NoFile]
      [] e.ev = "Put" -> [st EXCEPT !.file = A!Plain(e.data)]
      [] e.ev = "Remove" -> [st EXCEPT !.file = NoFile]
      [] e.ev = "Again" -> [st EXCEPT !.a = Expected(st), !.files = 0]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
