-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* What an incremental hasher costs: compressions, for time, and chaining  *)
(* values it keeps, for room. A message may come in any pieces, and its    *)
(* hash be asked for at any time. All calls together do work in proportion *)
(* to the length of the message; a single one does so for what it is       *)
(* given, and a little more for each level of the tree; what is kept is    *)
(* one value for each level.                                               *)
(*                                                                         *)
(* Way is how it is done: as in the code; or with the root worked out on   *)
(* every update, with the current chunk hashed again on every update, or   *)
(* with all chaining values kept until the end.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS ChunkBlocks, MaxBlocks, Pieces, MaxCalls, Way

VARIABLES blocks,     \* absorbed so far
          stack,      \* chunks of the subtrees kept, largest first
          here,       \* blocks of the current chunk
          work,       \* compressions by all updates
          calls,
          last        \* the last call: what it was given, and its compressions
vars == << blocks, stack, here, work, calls, last >>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Chunks(n) == (n + ChunkBlocks - 1) \div ChunkBlocks

\* A chunk is complete: subtrees of the same size are joined. The stack and
\* the compressions it takes.
RECURSIVE Push(_, _)
Push(st, size) ==
  IF Way # "keep" /\ st # << >> /\ st[Len(st)] = size
  THEN LET r == Push(SubSeq(st, 1, Len(st) - 1), 2 * size) IN [stack |-> r.stack, cost |-> r.cost + 1]
  ELSE [stack |-> Append(st, size), cost |-> 0]

\* A chunk is complete only when there is more.
RECURSIVE Absorb(_, _, _)
Absorb(st, h, k) ==
  IF k = 0 THEN [stack |-> st, here |-> h, cost |-> 0]
  ELSE IF h = ChunkBlocks
  THEN LET p == Push(st, 1)
           r == Absorb(p.stack, 1, k - 1) IN [r EXCEPT !.cost = @ + p.cost + 1]
  ELSE LET r == Absorb(st, h + 1, k - 1) IN [r EXCEPT !.cost = @ + 1]

RootCost(st) == 1 + Len(st)

Update(k) ==
  LET r == Absorb(stack, here, k)
      more == CASE Way = "eager" -> RootCost(r.stack)
                [] Way = "again" -> here
                [] OTHER -> 0
  IN /\ blocks + k <= MaxBlocks
     /\ stack' = r.stack /\ here' = r.here
     /\ blocks' = blocks + k
     /\ work' = work + r.cost + more
     /\ last' = [given |-> k, cost |-> r.cost + more]
Finalize == /\ last' = [given |-> 0, cost |-> RootCost(stack)]
            /\ UNCHANGED << blocks, stack, here, work >>

Init == blocks = 0 /\ stack = << >> /\ here = 0 /\ work = 0 /\ calls = 0 /\ last = [given |-> 0, cost |-> 0]
Next == /\ calls < MaxCalls
        /\ calls' = calls + 1
        /\ Finalize \/ \E k \in Pieces : Update(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
InProportion == work <= 2 * blocks
EachCall == last.cost <= 2 * last.given + 2 + Log2(Chunks(blocks))
Room == Len(stack) <= 1 + Log2(Chunks(blocks))

\* The same for times and bytes that were measured, to within generous factors:
\* in proportion (per KiB), a little for each doubling, and for what is split
\* into pieces no more than one compression for each, on top of what hashing
\* one chunk costs, which is where nothing is done in parallel.
Proportional(rate, base) == rate <= 2 * base + 64
Doublings(len, base) == Log2(len \div base)
Levels(steps, base, doublings) == steps <= base * (2 + doublings)
Split(rate, chunkrate, pieces, compression) == rate <= 2 * chunkrate + 64 + (pieces + 1) * compression
HeapRoom(heap, base) == heap <= 2 * base + 65536
StackRoom(stk, base, doublings) == stk <= base + 131072 + 4096 * doublings
=============================================================================
