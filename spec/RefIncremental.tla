--------------------------- MODULE RefIncremental --------------------------
(***************************************************************************)
(* The incremental hasher of reference_impl: a chunk is only finished when *)
(* more input comes, and its chaining value is merged at once with as many *)
(* subtrees on the stack as it completes.                                  *)
(***************************************************************************)
EXTENDS Symbolic

CONSTANTS MaxTotal, MaxUpdate, MaxDepth

VARIABLES stack, chunk, total
vars == << stack, chunk, total >>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE PopCount(_)
PopCount(n) == IF n = 0 THEN 0 ELSE (n % 2) + PopCount(n \div 2)

MF == 32

Fresh(idx) == [cv |-> SKey, idx |-> idx, blocks |-> 0, block |-> << >>]
CLen(c) == c.blocks * BlockLen + Len(c.block)
StartFlag(c) == IF c.blocks = 0 THEN 1 ELSE 0
CtrOf(c) == << "chunk", c.idx >>

RECURSIVE ChunkUpdate(_, _)
ChunkUpdate(c, in) ==
  IF Len(in) = 0 THEN c
  ELSE LET c1 == IF Len(c.block) = BlockLen
                 THEN [c EXCEPT !.cv = SCv(SComp(@, SPad(c.block), BlockLen, CtrOf(c), MF + StartFlag(c))),
                                !.blocks = @ + 1, !.block = << >>]
                 ELSE c
           take == Min(BlockLen - Len(c1.block), Len(in))
       IN  ChunkUpdate([c1 EXCEPT !.block = @ \o SubSeq(in, 1, take)], SubSeq(in, take + 1, Len(in)))

ChunkOutput(c) ==
  S!Node(c.cv, SPad(c.block), Len(c.block), CtrOf(c), MF + StartFlag(c) + 2)

RECURSIVE PushCv(_, _, _)
PushCv(st, cv, chunks) ==
  IF Len(st) >= PopCount(chunks)
  THEN PushCv(SubSeq(st, 1, Len(st) - 1), S!Value(S!ParentNode(SKey, MF, st[Len(st)], cv)), chunks)
  ELSE Append(st, cv)

RECURSIVE UpdateBy(_, _, _)
UpdateBy(st, ch, in) ==
  IF Len(in) = 0 THEN [st |-> st, ch |-> ch]
  ELSE LET full == CLen(ch) = ChunkLen
           st1 == IF full THEN PushCv(st, S!Value(ChunkOutput(ch)), ch.idx + 1) ELSE st
           ch1 == IF full THEN Fresh(ch.idx + 1) ELSE ch
           take == Min(ChunkLen - CLen(ch1), Len(in))
       IN  UpdateBy(st1, ChunkUpdate(ch1, SubSeq(in, 1, take)), SubSeq(in, take + 1, Len(in)))

RECURSIVE Fold(_, _)
Fold(st, node) ==
  IF Len(st) = 0 THEN node
  ELSE Fold(SubSeq(st, 1, Len(st) - 1), S!ParentNode(SKey, MF, st[Len(st)], S!Value(node)))

Init == stack = << >> /\ chunk = Fresh(0) /\ total = 0

Update(n) ==
  /\ total + n <= MaxTotal
  /\ LET r == UpdateBy(stack, chunk, [i \in 1..n |-> total + i])
     IN  stack' = r.st /\ chunk' = r.ch
  /\ total' = total + n

Next == \E n \in 0..MaxUpdate : Update(n)
Spec == Init /\ [][Next]_vars

Correct == Fold(stack, ChunkOutput(chunk)) = S!Root(SKey, MF, SMsg(total))
StackBound == Len(stack) = PopCount(chunk.idx) /\ Len(stack) <= MaxDepth
Bounded == CLen(chunk) <= ChunkLen /\ (total > 0 => CLen(chunk) > 0)
Position == chunk.idx * ChunkLen + CLen(chunk) = total
\* Unlike the lazily merging hasher, this one is in the same state however
\* the message was split.
Canonical == \A n \in 0..Min(total, 3) :
  LET a == UpdateBy(<< >>, Fresh(0), [i \in 1..n |-> i])
      r == UpdateBy(a.st, a.ch, [i \in 1..(total - n) |-> n + i])
  IN  r = [st |-> stack, ch |-> chunk]
=============================================================================
