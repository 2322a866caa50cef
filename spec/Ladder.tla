------------------------------- MODULE Ladder ------------------------------
(***************************************************************************)
(* TreeHash!LadderRoot, which judges messages whose beginning is only      *)
(* known by subtree chaining values, agrees with TreeHash!Root, which      *)
(* defines the hash: for every message and every prefix of whole chunks,   *)
(* given by its maximal complete subtrees.                                 *)
(***************************************************************************)
EXTENDS Symbolic

CONSTANT MaxChunks

VARIABLES n, last, p         \* chunks, length of the last one, chunks in the prefix
vars == << n, last, p >>

MF == 0
Message == [n |-> n, last |-> last, base |-> 0]

\* The maximal complete subtrees of the first k chunks, largest first.
RECURSIVE StackFrom(_, _)
StackFrom(lo, k) ==
  IF k = 0 THEN << >>
  ELSE LET e == CHOOSE e \in 0..10 : 2^e <= k /\ 2^(e + 1) > k
           full == [Message EXCEPT !.last = ChunkLen]
       IN  << << e, S!Value(S!Subtree(SKey, MF, full, lo, 2^e)) >> >> \o StackFrom(lo + 2^e, k - 2^e)

Rest == IF p = n THEN [n |-> 1, last |-> 0, base |-> p]
        ELSE [n |-> n - p, last |-> last, base |-> p]

Init == /\ n \in 1..MaxChunks /\ last \in 0..ChunkLen /\ p \in 0..n
        /\ last = 0 => n = 1 /\ p = 0
        /\ p = n => last = ChunkLen
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* The prefix leaves something for the rest of the message, or is a complete
\* tree of more than one subtree. (A power of two of chunks and nothing else
\* cannot be finished from its one chaining value: that node is the root.)
Meaningful == p < n \/ Len(StackFrom(0, p)) >= 2
Agree == Meaningful => S!LadderRoot(SKey, MF, StackFrom(0, p), Rest) = S!Root(SKey, MF, Message)
=============================================================================
