----------------------------- MODULE Container -----------------------------
(* The 1C v8 container as an abstract file.
   A container is a header, a table of contents (TOC) and, per entry, an attribute document and a data document.
   A document is a chain of blocks; a block is [off, doc, blk, nxt, from, len]: placed at off (relative to the
   container's base), announcing document size doc (only the first block's announcement counts), capacity blk, link
   nxt, and holding the slice from..from+len-1 of the document's content.
   `Place` is one allocation decision of a conforming writer (the 1C platform's or v8unpack's): any order, any
   fragmentation, gaps.  `Read*` is the reader: it only sees headers and capacities.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

EndMark == -1

\* ---------------------------------------------------------------- layout well-formedness (used by model and traces)
BlockEnd(b, bh) == b.off + bh + b.blk

RECURSIVE SumBlk(_)
SumBlk(bs) == IF bs = <<>> THEN 0 ELSE Head(bs).blk + SumBlk(Tail(bs))

ChainLinked(bs) == /\ bs # <<>>
                   /\ \A k \in 1..Len(bs) : bs[k].nxt = (IF k < Len(bs) THEN bs[k + 1].off ELSE EndMark)
ChainCovers(bs) == SumBlk(bs) >= bs[1].doc

NoOverlap(bs, bh, hdr) ==
    LET srt == SortSeq(bs, LAMBDA a, b : a.off < b.off)
    IN  /\ \A k \in 1..Len(srt) : srt[k].off >= hdr
        /\ \A k \in 1..(Len(srt) - 1) : BlockEnd(srt[k], bh) <= srt[k + 1].off

\* ---------------------------------------------------------------- reader semantics over abstract blocks
BlockAt(bs, off) == CHOOSE b \in ToSet(bs) : b.off = off
RECURSIVE ReadFrom(_, _, _)
\* the sequence of content slices a reader collects: never more than is left, never past a chain's end
ReadFrom(bs, off, left) ==
    LET b == BlockAt(bs, off)
        n == IF b.blk < left THEN b.blk ELSE left
    IN  IF left <= 0 THEN <<>>
        ELSE <<[from |-> b.from, len |-> n]>> \o
             (IF b.nxt = EndMark THEN <<>> ELSE ReadFrom(bs, b.nxt, left - n))
ReadDoc(bs, off) == ReadFrom(bs, off, BlockAt(bs, off).doc)
RECURSIVE Contiguous(_, _)
Contiguous(sl, at) == IF sl = <<>> THEN TRUE ELSE Head(sl).from = at /\ Contiguous(Tail(sl), at + Head(sl).len)
RECURSIVE SumLen(_)
SumLen(sl) == IF sl = <<>> THEN 0 ELSE Head(sl).len + SumLen(Tail(sl))
ReadsWhole(bs, off, size) == LET sl == ReadDoc(bs, off) IN Contiguous(sl, 0) /\ SumLen(sl) = size

\* ---------------------------------------------------------------- allocation machine
CONSTANTS NEntries, Sizes, Gaps, Splits, HDR, BH
\* document 0 is the TOC, 2i-1 the attributes and 2i the data of entry i
Docs == 0..(2 * NEntries)
IsAttr(d) == d % 2 = 1
VARIABLES sizes,      \* document -> content size in units
          plan,       \* document -> sequence of capacities still to be placed
          placed,     \* sequence of blocks, with the owner document
          eof, gap
vars == <<sizes, plan, placed, eof, gap>>

\* the ways one document of size s may be cut: exact, slack, two blocks, two blocks with slack
Cut(s, w) == CASE w = "exact" -> <<s>>
              [] w = "slack" -> <<s + 1>>
              [] w = "two"   -> IF s >= 2 THEN <<1, s - 1>> ELSE <<s>>
              [] w = "three" -> IF s >= 3 THEN <<1, 1, s - 2>> ELSE <<s>>
              [] w = "twoslack" -> IF s >= 2 THEN <<s - 1, 2>> ELSE <<s + 1>>

Init == /\ \E ds \in [1..NEntries -> Sizes], w \in [(0..1) \cup {2 * i : i \in 1..NEntries} -> Splits] :
             /\ sizes = [d \in Docs |-> IF d = 0 THEN NEntries ELSE IF IsAttr(d) THEN 2 ELSE ds[d \div 2]]
             /\ plan = [d \in Docs |-> Cut(sizes[d], w[IF IsAttr(d) THEN 1 ELSE d])]
        /\ placed = <<>> /\ eof = HDR /\ gap \in Gaps

Mine(d) == SelectSeq(placed, LAMBDA b : b.own = d)
Off0(d) == Mine(d)[1].off
Filled(d) == LET m == Mine(d) IN IF m = <<>> THEN 0 ELSE SumLen(m)

Place(d) ==
    /\ plan[d] # <<>>
    /\ placed = <<>> => d = 0                   \* the TOC's first block sits right after the header
    /\ LET cap == Head(plan[d])
           fr  == Filled(d)
           ln  == IF cap < sizes[d] - fr THEN cap ELSE sizes[d] - fr
           off == IF placed = <<>> THEN HDR ELSE eof + gap
           b   == [own |-> d, off |-> off, doc |-> IF fr = 0 /\ Mine(d) = <<>> THEN sizes[d] ELSE 0,
                   blk |-> cap, nxt |-> EndMark, from |-> fr, len |-> ln]
           m   == Mine(d)
       IN  /\ placed' = [k \in 1..Len(placed) |->
                            IF m # <<>> /\ placed[k].off = Last(m).off THEN [placed[k] EXCEPT !.nxt = off]
                            ELSE placed[k]] \o <<b>>
           /\ eof' = off + BH + cap
    /\ plan' = [plan EXCEPT ![d] = Tail(@)]
    /\ UNCHANGED <<sizes, gap>>

Next == \E d \in Docs : Place(d)
Spec == Init /\ [][Next]_vars

Done == \A d \in Docs : plan[d] = <<>>

Shape == /\ NoOverlap(placed, BH, HDR)
         /\ \A k \in 1..Len(placed) : placed[k].len <= placed[k].blk
\* what a conforming reader relies on
Linked == Done => \A d \in Docs : ChainLinked(Mine(d)) /\ ChainCovers(Mine(d))
\* every document is read back whole and in order, whatever the allocation
ReadBack == Done => \A d \in Docs : ReadsWhole(placed, Off0(d), sizes[d])
\* the next container of the file starts at the end of the last allocated block
SizeIsEnd == Done => eof = Max({BlockEnd(placed[k], BH) : k \in 1..Len(placed)})

\* case generation: every terminal allocation is one file to be rendered and given to the real reader
Emit == Done => PrintT("@@" \o ToJson([gap |-> gap,
            blocks |-> [k \in 1..Len(placed) |-> [o |-> placed[k].own, cap |-> placed[k].blk, len |-> placed[k].len,
                                                  doc |-> sizes[placed[k].own]]]]))
=============================================================================
