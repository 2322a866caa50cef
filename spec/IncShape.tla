------------------------------ MODULE IncShape -----------------------------
(***************************************************************************)
(* The control state of the incremental hasher of Incremental, without the *)
(* data: how full the partial chunk and its partial block are, and which   *)
(* subtrees are on the stack, by level. It is small enough to be explored  *)
(* at the real sizes. RefinesShape in Incremental checks that it is the    *)
(* control state of the full algorithm.                                    *)
(*                                                                         *)
(* Used as a generator: every transition between control states that is    *)
(* reached by an update to an interesting position is visited, and the     *)
(* history of updates that leads through it is printed for the drivers.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS BlockLen, ChunkLen, MaxChunks,
          Offsets,         \* interesting positions relative to a chunk boundary
          Ups              \* longest history

VARIABLES levels, idx, fill, prev, hist
vars == << levels, idx, fill, prev, hist >>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE PopCount(_)
PopCount(n) == IF n = 0 THEN 0 ELSE (n % 2) + PopCount(n \div 2)

\* Merge the two subtrees on top, as long as there are more of them than the
\* number of chunks has bits.
RECURSIVE Merge(_, _)
Merge(lv, chunks) ==
  IF Len(lv) > PopCount(chunks)
  THEN LET k == Len(lv)
       IN  Merge(Append(SubSeq(lv, 1, k - 2), lv[k - 1] + 1), chunks)
  ELSE lv
Push(lv, chunks) == Append(Merge(lv, chunks), 0)
RECURSIVE PushMany(_, _, _)
PushMany(lv, i, k) == IF k = 0 THEN lv ELSE PushMany(Push(lv, i), i + 1, k - 1)

\* Whole chunks from chunk number i on, then the rest.
Bulk(lv, i, n) ==
  LET whole == n \div ChunkLen
      rest == n % ChunkLen
      lv1 == PushMany(lv, i, whole)
  IN  [levels |-> IF rest > 0 THEN Merge(lv1, i + whole) ELSE lv1, idx |-> i + whole, fill |-> rest]

After(lv, i, f, n) ==
  LET maybeRoot == i = 0 /\ n = ChunkLen
      take == Min(ChunkLen - f, n)
  IN  IF maybeRoot \/ f > 0
      THEN IF n > take
           THEN Bulk(Push(lv, i), i + 1, n - take)
           ELSE [levels |-> lv, idx |-> i, fill |-> f + take]
      ELSE Bulk(lv, i, n)

Control == << levels, idx, fill >>
Pos == idx * ChunkLen + fill

Targets == { c * ChunkLen + d : c \in 1..MaxChunks, d \in Offsets } \cup Offsets

Init == levels = << >> /\ idx = 0 /\ fill = 0 /\ prev = << >> /\ hist = << >>

Update(n) ==
  LET a == After(levels, idx, fill, n)
  IN  /\ levels' = a.levels /\ idx' = a.idx /\ fill' = a.fill
      /\ prev' = Control
      /\ hist' = Append(hist, n)

Next == Len(hist) < Ups /\ \E x \in Targets : x >= Pos + ChunkLen /\ Update(x - Pos - ChunkLen)

Spec == Init /\ [][Next]_vars

\* One history for every pair of control states that an update connects.
View == << prev, Control >>
Emit == Len(hist) > 1 => PrintT(ToJson([h |-> hist]))

\* The levels fall, except for the pair that waits to be merged on top, and
\* they cover the chunks before the partial one.
RECURSIVE Covered(_)
Covered(lv) == IF Len(lv) = 0 THEN 0 ELSE 2^(lv[1]) + Covered(Tail(lv))
WellFormed ==
  /\ Covered(levels) = idx
  /\ \A k \in 1..(Len(levels) - 1) : levels[k] >= levels[k + 1]
  /\ \A k \in 1..(Len(levels) - 2) : levels[k] > levels[k + 1]
  /\ fill > 0 /\ idx > 0 => Len(levels) = PopCount(idx)
  /\ fill <= ChunkLen
=============================================================================
