------------------------------ MODULE Options ------------------------------
(* What the options of extraction and building do: version (compatibility mode), prefix (of names), product and the file
   version.bin (identification of what was built).

   Texts are sequences.  A product is [kind, objs, compat, pre, ver, note]: kind "cf" (configuration), "cfe" (extension),
   "epf" (external data processor or report); pre: the prefix an extension declares; ver: its version; note: its comment.
   An object is [name, top, own, dp, note]:  top - directly in the product; own - not adopted from another configuration;
   dp - a data processor of a configuration, whose comment is treated like that of an external one.

   A prefix belongs to the names of top-level objects of one's own and to nothing else: extraction takes it away, building
   puts it there.                                                                                                    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Products, Prefixes, Versions, Goods, Releases, Outs, Sep, Mark, Colon, MaxSteps

VARIABLES phase, prod, first, src, hist
vars == <<phase, prod, first, src, hist>>

StartsWith(n, p) == Len(p) <= Len(n) /\ SubSeq(n, 1, Len(p)) = p
Strip(n, p) == IF StartsWith(n, p) THEN SubSeq(n, Len(p) + 1, Len(n)) ELSE n
Carries(o) == o.top /\ o.own
SourceName(o, p) == IF Carries(o) THEN Strip(o.name, p) ELSE o.name
BuiltName(o, p) == IF Carries(o) THEN p \o o.name ELSE o.name
\* version of what is built: the product is named once
Named(v, g) == IF g = <<>> \/ StartsWith(v, g \o Sep) THEN v ELSE g \o Sep \o v
Places(t, m) == {i \in 1..(Len(t) - Len(m) + 1) : SubSeq(t, i, i + Len(m) - 1) = m}
First(s) == CHOOSE x \in s : \A y \in s : x <= y
Noted(t, info) == IF Places(t, Mark) = {} THEN t ELSE SubSeq(t, 1, First(Places(t, Mark)) + Len(Mark) - 1) \o info
\* option v of compatibility: "" is not given
Compat(kind, v, c) == IF kind = "epf" \/ v = "" THEN c ELSE v
NoFile == [is |-> FALSE, t |-> <<>>]

Source(p, v, pre) ==
    [kind |-> p.kind, objs |-> [i \in DOMAIN p.objs |-> [p.objs[i] EXCEPT !.name = SourceName(p.objs[i], pre)]],
     compat |-> Compat(p.kind, v, p.compat), pre |-> p.pre, ver |-> p.ver, note |-> p.note,
     file |-> IF p.kind = "cfe" THEN [is |-> TRUE, t |-> p.ver] ELSE NoFile]
Product(s, v, pre, g, out) ==
    LET told == s.file.is /\ s.file.t # <<>>
    IN  [kind |-> s.kind,
         objs |-> [i \in DOMAIN s.objs |->
                     [s.objs[i] EXCEPT !.name = BuiltName(s.objs[i], pre),
                                       !.note = IF s.objs[i].dp /\ told THEN Noted(@, s.file.t) ELSE @]],
         compat |-> Compat(s.kind, v, s.compat),
         pre |-> IF s.kind = "cfe" /\ pre # <<>> THEN pre ELSE s.pre,
         ver |-> IF s.kind = "cfe" THEN Named(s.file.t, g) ELSE s.ver,
         note |-> IF s.kind # "cf" /\ told THEN Noted(s.note, out \o Colon \o s.file.t) ELSE s.note]
\* no two objects may come out under one name
Distinct(p, pre) == \A i, j \in DOMAIN p.objs : i # j => SourceName(p.objs[i], pre) # SourceName(p.objs[j], pre)
Usable(p, pre) == Distinct(p, pre) /\ \A i \in DOMAIN p.objs : SourceName(p.objs[i], pre) # <<>>

NoSrc == [kind |-> "none"]
Init == /\ prod \in Products /\ first = prod /\ src = NoSrc /\ phase = "product" /\ hist = <<>>
Extract(v, pre) ==
    /\ phase = "product" /\ Usable(prod, pre) /\ src' = Source(prod, v, pre) /\ phase' = "sources"
    /\ hist' = Append(hist, [do |-> "extract", v |-> v, pre |-> pre, g |-> <<>>, out |-> <<>>, t |-> <<>>, same |-> FALSE])
    /\ UNCHANGED <<prod, first>>
Release(t) ==
    /\ phase = "sources" /\ src.file.t # t /\ src' = [src EXCEPT !.file = [is |-> TRUE, t |-> t]]
    /\ hist' = Append(hist, [do |-> "release", v |-> "", pre |-> <<>>, g |-> <<>>, out |-> <<>>, t |-> t, same |-> FALSE])
    /\ UNCHANGED <<phase, prod, first>>
\* same: the product built is what was extracted
Build(v, pre, g, out) ==
    /\ phase = "sources" /\ phase' = "product" /\ prod' = Product(src, v, pre, g, out)
    /\ hist' = Append(hist, [do |-> "build", v |-> v, pre |-> pre, g |-> g, out |-> out, t |-> <<>>,
                             same |-> Product(src, v, pre, g, out) = prod])
    /\ UNCHANGED <<first, src>>
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E v \in Versions, pre \in Prefixes : Extract(v, pre)
           \/ \E t \in Releases : Release(t)
           \/ \E v \in Versions, pre \in Prefixes, g \in Goods, out \in Outs : Build(v, pre, g, out)
Spec == Init /\ [][Next]_vars

\* ---- properties ----
N == Len(hist)
LastOf == hist[N]
Other(o) == ~Carries(o)
\* names of adopted and inner objects never change
OthersNamed == \A i \in DOMAIN prod.objs : Other(prod.objs[i]) => prod.objs[i].name = first.objs[i].name
InSources == src # NoSrc => \A i \in DOMAIN src.objs : Other(src.objs[i]) => src.objs[i].name = first.objs[i].name
\* extracted and built with the same prefix, an option of no other kind: the same names again, if they all carry it
AllCarry(p, pre) == \A i \in DOMAIN p.objs : Carries(p.objs[i]) => StartsWith(p.objs[i].name, pre)
PrefixRoundTrip ==
    [][\A v \in Versions, pre \in Prefixes, g \in Goods, out \in Outs :
         Build(v, pre, g, out) /\ N > 0 /\ LastOf.do = "extract" /\ LastOf.pre = pre /\ AllCarry(prod, pre)
            => \A i \in DOMAIN prod.objs : prod'.objs[i].name = prod.objs[i].name]_vars
\* what is built with a prefix is extracted with it to the same sources
Back(pre) == phase = "product" /\ N > 0 /\ LastOf.pre = pre /\ Usable(prod, pre)
             => \A i \in DOMAIN prod.objs : SourceName(prod.objs[i], pre) = src.objs[i].name
SourcesBack == \A pre \in Prefixes : Back(pre)
\* nothing but what an option is about changes
NoOptionNoChange ==
    [][\A out \in Outs : Build("", <<>>, <<>>, out) /\ N > 0 /\ LastOf.do = "extract" /\ LastOf.pre = <<>> /\ LastOf.v = ""
          /\ Places(prod.note, Mark) = {} /\ (\A i \in DOMAIN prod.objs : ~prod.objs[i].dp \/ Places(prod.objs[i].note, Mark) = {})
         => prod' = prod]_vars
OnceNamed == \A g \in Goods : g # <<>> => Named(Named(prod.ver, g), g) = Named(prod.ver, g)
CompatIsTold == N > 0 /\ LastOf.v # "" /\ prod.kind # "epf" =>
                (phase = "product" => prod.compat = LastOf.v) /\ (LastOf.do = "extract" => src.compat = LastOf.v)
=============================================================================
