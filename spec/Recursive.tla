----------------------------- MODULE Recursive -----------------------------
(***************************************************************************)
(* One-shot hashing as src/lib.rs does it: the input is halved down to     *)
(* pieces of at most Degree chunks, which are hashed a batch at a time;    *)
(* the two halves of a split may run in any order or at the same time, and *)
(* each writes its results into its own part of an array of the caller's.  *)
(* Up to Degree results are handed up rather than one, so that parents can *)
(* be hashed in batches too; the root is condensed from what is left.      *)
(*                                                                         *)
(* The message is N chunks long; chunks are single symbols here. A call is *)
(* named by its path from the root call (1 = left, 2 = right).             *)
(***************************************************************************)
EXTENDS Symbolic, FiniteSets, TLC

CONSTANTS Degree,            \* chunks hashed at a time: a power of two
          MaxDegree,         \* the largest degree there is: array sizes
          MaxChunks

VARIABLES N, mem, ret
vars == << N, mem, ret >>

MF == 16
Max(a, b) == IF a > b THEN a ELSE b
TopArray == << 0 >>        \* the array of the caller of the root call
MaxDegreeOr2 == Max(MaxDegree, 2)

Msg == [n |-> N, last |-> ChunkLen, base |-> 0]
ChunkHash(i) == S!Value(S!ChunkNode(SKey, MF, Msg, i, ChunkLen))
ParentHash(a, b) == S!Value(S!ParentNode(SKey, MF, a, b))

\* left_len, in chunks: as the code computes it.
RECURSIVE NextPow2(_, _)
NextPow2(n, p) == IF p >= n THEN p ELSE NextPow2(n, 2 * p)
LeftLen(n) == NextPow2((n - 1) \div 2 + 1, 1)

\* The calls: the piece of input of the call at a path.
RECURSIVE Piece(_)
Piece(path) ==
  IF path = << >> THEN [lo |-> 0, n |-> N]
  ELSE LET p == Piece(SubSeq(path, 1, Len(path) - 1))
           l == LeftLen(p.n)
       IN  IF path[Len(path)] = 1 THEN [lo |-> p.lo, n |-> l]
           ELSE [lo |-> p.lo + l, n |-> p.n - l]
IsLeaf(path) == Piece(path).n <= Degree
RECURSIVE CallsFrom(_)
CallsFrom(path) ==
  IF IsLeaf(path) THEN {path}
  ELSE {path} \cup CallsFrom(Append(path, 1)) \cup CallsFrom(Append(path, 2))
Calls == CallsFrom(<< >>)

\* Where the right half's results go in the array of the call at a path.
DegreeAt(path) == IF LeftLen(Piece(path).n) = 1 THEN 1 ELSE Max(Degree, 2)

\* The array a call writes to, where in it, and how much room there is.
Room(path) ==
  IF path = << >> THEN [array |-> TopArray, at |-> 0, room |-> MaxDegreeOr2]
  ELSE LET up == SubSeq(path, 1, Len(path) - 1)
       IN  IF path[Len(path)] = 1
           THEN [array |-> up, at |-> 0, room |-> DegreeAt(up)]
           ELSE [array |-> up, at |-> DegreeAt(up), room |-> 2 * MaxDegreeOr2 - DegreeAt(up)]

\* hash_parents_parallel on a sequence of hashes.
Parents(hs) ==
  LET k == Len(hs) \div 2
      ps == [i \in 1..k |-> ParentHash(hs[2 * i - 1], hs[2 * i])]
  IN  IF Len(hs) % 2 = 1 THEN Append(ps, hs[Len(hs)]) ELSE ps

Outcome(path) ==            \* the results of a call, given its halves'
  LET p == Piece(path)
  IN  IF IsLeaf(path) THEN [i \in 1..p.n |-> ChunkHash(p.lo + i - 1)]
      ELSE LET nl == ret[Append(path, 1)]
               nr == ret[Append(path, 2)]
               children == SubSeq(mem[path], 1, nl + nr)
           IN  IF nl = 1 THEN SubSeq(mem[path], 1, 2) ELSE Parents(children)

Ready(path) == /\ path \notin DOMAIN ret
               /\ IsLeaf(path) \/ (Append(path, 1) \in DOMAIN ret /\ Append(path, 2) \in DOMAIN ret)

Run(path) ==
  /\ Ready(path)
  /\ LET out == Outcome(path)
         r == Room(path)
     IN  /\ Assert(Len(out) <= r.room, << "no room for the results of", path >>)
         /\ mem' = [mem EXCEPT ![r.array] =
                      [i \in DOMAIN @ |-> IF i > r.at /\ i <= r.at + Len(out) THEN out[i - r.at] ELSE @[i]]]
         /\ ret' = (path :> Len(out)) @@ ret
  /\ UNCHANGED N

Nothing == << >>
Init == /\ N \in 2..MaxChunks
        /\ mem = [a \in {TopArray} \cup {p \in Calls : ~IsLeaf(p)} |->
                    [i \in 1..(IF a = TopArray THEN MaxDegreeOr2 ELSE 2 * MaxDegreeOr2) |-> Nothing]]
        /\ ret = << >>
Next == \/ \E path \in Calls : Run(path)
        \/ << >> \in DOMAIN ret /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
RECURSIVE Condense(_)
Condense(hs) == IF Len(hs) > 2 THEN Condense(Parents(hs)) ELSE S!ParentNode(SKey, MF, hs[1], hs[2])

Finished == << >> \in DOMAIN ret

\* Whatever the schedule, the root is that of the tree.
Correct == Finished => /\ ret[<< >>] >= 2
                       /\ Condense(SubSeq(mem[TopArray], 1, ret[<< >>])) = S!Root(SKey, MF, Msg)

\* Every call returns what the assertions in the code say it does.
Returns == \A p \in DOMAIN ret :
  /\ ret[p] >= 1
  /\ p # << >> /\ p[Len(p)] = 1 => ret[p] = DegreeAt(SubSeq(p, 1, Len(p) - 1))
  /\ p # << >> /\ p[Len(p)] = 2 =>
       LET q == Append(SubSeq(p, 1, Len(p) - 1), 1) IN q \in DOMAIN ret => ret[p] <= ret[q]

\* Two calls that may run at the same time never write to the same place.
Written(p) == LET r == Room(p) IN {<< r.array, i >> : i \in (r.at + 1)..(r.at + ret[p])}
Disjoint == \A p, q \in DOMAIN ret : p # q => Written(p) \cap Written(q) = {}

SameSplit == \A p \in Calls : ~IsLeaf(p) => LeftLen(Piece(p).n) = S!LeftChunks(Piece(p).n)

\* Every schedule finishes.
Terminates == <>Finished
=============================================================================
