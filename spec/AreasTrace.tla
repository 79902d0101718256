----------------------------- MODULE AreasTrace -----------------------------
(* Events:  Module(path, lines) a module of the product;  Pre(name, lines) an area file that existed before;
            Src(path, lines) the module file after splitting;  File(name, lines) an area file after splitting;
            Split(ok) splitting ended;  Packed(path, lines) the module after assembling;  Joined(ok) assembling ended.
   Several modules may save the same area: whichever is saved last is unspecified, so any of them is allowed.        *)
EXTENDS TraceBase, FiniteSets, SequencesExt
A == INSTANCE Areas WITH Names <- {}, Codes <- {}, Dirs <- {}, MaxLines <- 0,
        lines <- <<>>, open <- <<>>, phase <- "", pos <- 0, un <- <<>>, packed <- <<>>
VARIABLES i, s, fails
tvars == <<i, s, fails>>
Ls(a) == [k \in 1..Len(a) |-> A!L(a[k][1], a[k][2], a[k][3])]
Nothing == [x \in {} |-> <<>>]
S0 == [mods |-> Nothing, files |-> Nothing, srcs |-> Nothing, cand |-> {}]
Names(ls) == {ls[j].n : j \in {m \in 1..Len(ls) : ls[m].k \in {"inc", "incr"}}}
RECURSIVE Reach(_, _, _)
\* every area text needed to assemble ls is there (and no area contains itself)
Reach(ls, f, above) == \A n \in Names(ls) : n \in DOMAIN f /\ n \notin above /\ Reach(f[n], f, above \cup {n})
\* areas of different modules with the same name are the only reason for text to change
Private(p, st) == LET ls == st.mods[p] IN
    /\ \A j \in 1..Len(ls) : ls[j].k # "incr"
    /\ \A q \in DOMAIN st.mods \ {p} : Names(ls) \cap Names(st.mods[q]) = {}
Clauses(e, st) ==
    CASE e.ev = "Src"  -> << <<"module-file-known", e.path \in DOMAIN st.mods>>,
                             <<"module-keeps-frame", e.path \in DOMAIN st.mods => Ls(e.lines) = A!RootOf(st.mods[e.path])>> >>
      [] e.ev = "File" -> << <<"area-file", <<e.name, Ls(e.lines)>> \in st.cand
                                  \/ (/\ \A c \in st.cand : c[1] # e.name
                                      /\ e.name \in DOMAIN st.files /\ st.files[e.name] = Ls(e.lines))>> >>
      [] e.ev = "Extra" -> << <<"no-extra-file", FALSE>> >>
      [] e.ev = "Split" -> << <<"split-no-error", e.ok>>,
                              <<"split-all-modules", e.ok => DOMAIN st.srcs = DOMAIN st.mods>>,
                              <<"split-all-areas", e.ok => \A c \in st.cand : c[1] \in DOMAIN st.files>> >>
      [] e.ev = "Packed" -> << <<"pack-known", e.path \in DOMAIN st.srcs>>,
                               <<"pack-area-known", e.path \in DOMAIN st.srcs => Reach(st.srcs[e.path], st.files, {})>>,
                               <<"pack-inserts-areas", (e.path \in DOMAIN st.srcs /\ Reach(st.srcs[e.path], st.files, {})) =>
                                     Ls(e.lines) = A!Expand(st.srcs[e.path], st.files, "")>>,
                               <<"pack-restores-module", (e.path \in DOMAIN st.mods /\ Private(e.path, st)) =>
                                     Ls(e.lines) = st.mods[e.path]>> >>
      [] e.ev = "Joined" -> << <<"pack-no-error", e.ok>> >>
      [] OTHER -> <<>>
Apply(e, st) ==
    CASE e.ev = "New" -> S0
      [] e.ev = "Module" -> [st EXCEPT !.mods = A!Into(@, e.path, Ls(e.lines)), !.cand = @ \cup A!Saved(Ls(e.lines))]
      [] e.ev = "Pre" -> [st EXCEPT !.files = A!Into(@, e.name, Ls(e.lines))]
      [] e.ev = "File" -> [st EXCEPT !.files = A!Into(@, e.name, Ls(e.lines))]
      [] e.ev = "Src" -> [st EXCEPT !.srcs = A!Into(@, e.path, Ls(e.lines))]
      [] OTHER -> st
TraceInit == i = 1 /\ s = S0 /\ fails = <<>>
TraceNext == /\ i <= Len(Trace)
             /\ LET e == Trace[i]
                    r == Rejected(Clauses(e, s), 1)
                IN  /\ s' = Apply(e, s)
                    /\ fails' = fails \o [k \in 1..Len(r) |-> <<i, r[k]>>]
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (i = Len(Trace) + 1) => PrintT("@@" \o ToJson([fails |-> fails, n |-> i - 1]))
=============================================================================
