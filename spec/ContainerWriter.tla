--------------------------- MODULE ContainerWriter ---------------------------
(* v8unpack's own allocation strategy: header and one TOC block reserved, then per entry an attribute block and one
   data block of at least DFLT capacity, and finally the TOC chain (first block in the reserved place, continuation
   blocks at the end of the file).  Checked against the reader semantics of Container.tla for every sequence of entry
   sizes, and for a container that does not start at the beginning of the file.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS MaxEntries, DataSizes, HDR, BH, IDX, ENT, DFLT, ATTR, Bases
C == INSTANCE Container WITH NEntries <- 1, Sizes <- {0}, Gaps <- {0}, Splits <- {"exact"},
        sizes <- 0, plan <- 0, placed <- <<>>, eof <- 0, gap <- 0
VARIABLES base, eof, blocks, toc, todo, phase
vars == <<base, eof, blocks, toc, todo, phase>>
\* offsets in `blocks` and `toc` are relative to base; eof is absolute
Rel(x) == x - base
Blk(off, doc, cap, nxt, own, from, len) ==
    [off |-> off, doc |-> doc, blk |-> cap, nxt |-> nxt, own |-> own, from |-> from, len |-> len]
MaxOf(a, b) == IF a > b THEN a ELSE b

Init == /\ base \in Bases /\ \E n \in 1..MaxEntries : todo \in [1..n -> DataSizes]
        /\ eof = base + HDR + BH + IDX /\ blocks = <<>> /\ toc = <<>> /\ phase = "attr"
K == Len(toc) + (IF phase = "attr" THEN 1 ELSE 0)
WriteAttr == /\ phase = "attr" /\ Len(toc) < Len(todo)
             /\ toc' = Append(toc, <<Rel(eof), 0>>)
             /\ blocks' = Append(blocks, Blk(Rel(eof), ATTR, ATTR, C!EndMark, 2 * K - 1, 0, ATTR))
             /\ eof' = eof + BH + ATTR /\ phase' = "data" /\ UNCHANGED <<base, todo>>
WriteData == /\ phase = "data"
             /\ LET n == Len(toc)  sz == todo[n]  cap == MaxOf(sz, DFLT)
                IN  /\ toc' = [toc EXCEPT ![n][2] = Rel(eof)]
                    /\ blocks' = Append(blocks, Blk(Rel(eof), sz, cap, C!EndMark, 2 * n, 0, sz))
                    /\ eof' = eof + BH + cap
             /\ phase' = "attr" /\ UNCHANGED <<base, todo>>
TocSize == ENT * Len(toc)
NBlocks == (TocSize + IDX - 1) \div IDX
\* when the TOC takes several blocks the code links one more, empty, block at the end of the chain
Total == IF NBlocks > 1 THEN NBlocks + 1 ELSE 1
TocBlock(k) == \* k = 1 in the reserved place, the others one after another from the current end
    LET off == IF k = 1 THEN HDR ELSE Rel(eof) + (k - 2) * (BH + IDX)
        nxt == IF k = Total THEN C!EndMark ELSE Rel(eof) + (k - 1) * (BH + IDX)
        fr  == (k - 1) * IDX
    IN  Blk(off, IF k = 1 THEN TocSize ELSE 0, IDX, nxt, 0, fr, IF TocSize <= fr THEN 0 ELSE IF TocSize - fr < IDX THEN TocSize - fr ELSE IDX)
WriteToc == /\ phase = "attr" /\ Len(toc) = Len(todo)
            /\ blocks' = blocks \o [k \in 1..Total |-> TocBlock(k)]
            /\ eof' = eof + (Total - 1) * (BH + IDX)
            /\ phase' = "done" /\ UNCHANGED <<base, toc, todo>>
Next == WriteAttr \/ WriteData \/ WriteToc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Disjoint == C!NoOverlap(blocks, BH, HDR)
InFile == \A k \in 1..Len(blocks) : base + C!BlockEnd(blocks[k], BH) <= eof
ReadBack == phase = "done" =>
    /\ C!ReadsWhole(blocks, HDR, TocSize)
    /\ \A n \in 1..Len(todo) : C!ReadsWhole(blocks, toc[n][1], ATTR) /\ C!ReadsWhole(blocks, toc[n][2], todo[n])
\* the end of the container, as a reader that walks every chain computes it
SizeIsEnd == phase = "done" => Max({C!BlockEnd(blocks[k], BH) : k \in 1..Len(blocks)}) = eof - base
Finishes == <>(phase = "done")
=============================================================================
