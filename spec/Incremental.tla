---------------------------- MODULE Incremental ----------------------------
(***************************************************************************)
(* The incremental hasher as src/lib.rs and c/baokeshed.c implement it: a  *)
(* partial chunk with a partial block in it, whole chunks hashed in        *)
(* batches straight from the input, and a stack of subtree hashes that is  *)
(* merged lazily, because the last chunk given so far may yet turn out to  *)
(* be part of the root.                                                    *)
(*                                                                         *)
(* The message given so far is bytes 1..total of Symbolic; what has been   *)
(* computed from it must be what TreeHash says about the message of that   *)
(* length, for every way of getting there.                                 *)
(***************************************************************************)
EXTENDS Symbolic

CONSTANTS MaxTotal, MaxUpdate, Lanes, MaxDepth

VARIABLES stack, chunk, total, batch
vars == << stack, chunk, total, batch >>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE PopCount(_)
PopCount(n) == IF n = 0 THEN 0 ELSE (n % 2) + PopCount(n \div 2)

MF == 16                            \* a mode flag, to be seen everywhere

Fresh(idx) == [cv |-> SKey, idx |-> idx, count |-> 0, buf |-> << >>]
CLen(c) == c.count + Len(c.buf)
StartFlag(c) == IF c.count = 0 THEN 1 ELSE 0
CtrOf(c) == << "chunk", c.idx >>

\* Compress a full block into the chunk.
Absorb(c, block) ==
  [c EXCEPT !.cv = SCv(SComp(@, SPad(block), BlockLen, CtrOf(c), MF + StartFlag(c))),
            !.count = @ + BlockLen,
            !.buf = << >>]

RECURSIVE AbsorbAll(_, _)
AbsorbAll(c, in) ==     \* the buffer is empty; keep at least one byte back
  IF Len(in) > BlockLen
  THEN AbsorbAll(Absorb(c, SubSeq(in, 1, BlockLen)), SubSeq(in, BlockLen + 1, Len(in)))
  ELSE [c EXCEPT !.buf = in]

ChunkUpdate(c, in) ==
  IF Len(c.buf) > 0
  THEN LET take == Min(BlockLen - Len(c.buf), Len(in))
           c1 == [c EXCEPT !.buf = @ \o SubSeq(in, 1, take)]
           rest == SubSeq(in, take + 1, Len(in))
       IN  IF Len(rest) > 0 THEN AbsorbAll(Absorb(c1, c1.buf), rest) ELSE c1
  ELSE AbsorbAll(c, in)

ChunkFinal(c) ==
  S!Node(c.cv, SPad(c.buf), Len(c.buf), CtrOf(c), MF + StartFlag(c) + 2)

NeedsMerge(st, chunks) == Len(st) > PopCount(chunks)

MergeTop(st) ==
  LET k == Len(st)
  IN  Append(SubSeq(st, 1, k - 2), S!Value(S!ParentNode(SKey, MF, st[k - 1], st[k])))

RECURSIVE MergeAll(_, _)
MergeAll(st, chunks) == IF NeedsMerge(st, chunks) THEN MergeAll(MergeTop(st), chunks) ELSE st

PushHash(st, cv, chunks) == Append(MergeAll(st, chunks), cv)

\* One lane of a batch: a whole chunk from the key on.
WholeChunk(in, idx) == S!Value(ChunkFinal(ChunkUpdate(Fresh(idx), in)))

RECURSIVE Batches(_, _, _)
\* [st, idx, in]: hash whole chunks in batches of up to Lanes, then push them.
Batches(st, idx, in) ==
  LET whole == Len(in) \div ChunkLen
      k == Min(whole, Lanes)
      hashes == [i \in 1..k |-> WholeChunk(SubSeq(in, (i - 1) * ChunkLen + 1, i * ChunkLen), idx + i - 1)]
      RECURSIVE PushAll(_, _)
      PushAll(s, i) == IF i > k THEN s ELSE PushAll(PushHash(s, hashes[i], idx + i - 1), i + 1)
  IN  IF k = 0 THEN [st |-> st, idx |-> idx, in |-> in]
      ELSE Batches(PushAll(st, 1), idx + k, SubSeq(in, k * ChunkLen + 1, Len(in)))

\* What follows once the partial chunk is clear.
Bulk(st, idx, in) ==
  LET r == Batches(st, idx, in)
  IN  IF Len(r.in) > 0
      THEN [st |-> MergeAll(r.st, r.idx), ch |-> ChunkUpdate(Fresh(r.idx), r.in)]
      ELSE [st |-> r.st, ch |-> Fresh(r.idx)]

UpdateBy(in) ==
  LET maybeRoot == chunk.idx = 0 /\ Len(in) = ChunkLen
      take == Min(ChunkLen - CLen(chunk), Len(in))
      c1 == ChunkUpdate(chunk, SubSeq(in, 1, take))
      rest == SubSeq(in, take + 1, Len(in))
  IN  IF maybeRoot \/ CLen(chunk) > 0
      THEN IF Len(rest) > 0
           THEN Bulk(PushHash(stack, S!Value(ChunkFinal(c1)), c1.idx), c1.idx + 1, rest)
           ELSE [st |-> stack, ch |-> c1]
      ELSE Bulk(stack, chunk.idx, in)

RECURSIVE Fold(_, _)
Fold(st, node) ==
  IF Len(st) = 0 THEN node
  ELSE Fold(SubSeq(st, 1, Len(st) - 1), S!ParentNode(SKey, MF, st[Len(st)], S!Value(node)))

FinalNode ==
  IF Len(stack) = 0 THEN ChunkFinal(chunk)
  ELSE IF CLen(chunk) > 0 THEN Fold(stack, ChunkFinal(chunk))
  ELSE LET k == Len(stack)
       IN  Fold(SubSeq(stack, 1, k - 2), S!ParentNode(SKey, MF, stack[k - 1], stack[k]))

Init == stack = << >> /\ chunk = Fresh(0) /\ total = 0 /\ batch = 0

Update(n) ==
  /\ total + n <= MaxTotal
  /\ LET r == UpdateBy([i \in 1..n |-> total + i])
     IN  stack' = r.st /\ chunk' = r.ch
  /\ total' = total + n
  /\ batch' = Min(n \div ChunkLen, Lanes)

Next == \E n \in 0..MaxUpdate : Update(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Finalizing needs two subtrees if there is no partial chunk to add.
CanFinalize == Len(stack) > 0 /\ CLen(chunk) = 0 => Len(stack) >= 2

\* The hasher finalizes to the root of the message, however it was split.
Correct == CanFinalize => FinalNode = S!Root(SKey, MF, SMsg(total))

\* A partial chunk means that everything before it is merged.
MergedBehindPartial == CLen(chunk) > 0 => ~NeedsMerge(stack, chunk.idx)

\* Chunks are pushed on a merged stack. A message shorter than 2^MaxDepth
\* chunks never needs more than MaxDepth entries.
StackBound == /\ chunk.idx = 0 => stack = << >>
              /\ chunk.idx > 0 => Len(stack) <= PopCount(chunk.idx - 1) + 1
              /\ Len(stack) <= MaxDepth
Bounded == CLen(chunk) <= ChunkLen /\ Len(chunk.buf) <= BlockLen
Position == chunk.idx * ChunkLen + CLen(chunk) = total

-----------------------------------------------------------------------------
\* IncShape, explored at the real sizes, is this algorithm's control state.
RECURSIVE LevelOf(_)
LevelOf(hash) == IF hash[4] = << "none" >> THEN 1 + LevelOf(hash[2][2]) ELSE 0
LevelsOf(st) == [k \in 1..Len(st) |-> LevelOf(st[k])]

Shape == INSTANCE IncShape WITH
           levels <- LevelsOf(stack), idx <- chunk.idx, fill <- CLen(chunk),
           MaxChunks <- 0, Offsets <- {}, Ups <- 0, prev <- << >>, hist <- << >>

RefinesShape ==
  [][ LET a == Shape!After(LevelsOf(stack), chunk.idx, CLen(chunk), total' - total)
      IN  a = [levels |-> LevelsOf(stack'), idx |-> chunk'.idx, fill |-> CLen(chunk')] ]_vars
ShapeWellFormed == Shape!WellFormed
=============================================================================
