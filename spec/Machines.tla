------------------------------ MODULE Machines -----------------------------
(***************************************************************************)
(* The tree hash on machines that differ in how a word lies in memory and  *)
(* in how far addresses reach. Keys, message blocks and results are bytes; *)
(* the compression works on words; the position of a chunk is a number     *)
(* that goes beyond addresses. Native are the places where a program moves *)
(* words as the machine has them, Narrow says that it counts bytes with    *)
(* numbers as wide as an address. A program that does neither gives the    *)
(* same digest everywhere; every such mistake shows on some machine (and   *)
(* two of them do not make up for each other).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxChunks, Native, Narrow

Orders == {"little", "big"}
Reaches == {12, 1000}      \* bytes a machine can address
WordBytes == 2
BlockWords == 2            \* a chunk is one block; a parent's block is two results
ChunkBytes == WordBytes * BlockWords

VARIABLES order, reach,    \* the machine
          msg,             \* what was absorbed
          pos,             \* how much that is, as the program has it
          stack            \* the results of the chunks
vars == << order, reach, msg, pos, stack >>

Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

\* Words are given by their bytes, least significant first.
Move(site, word) == IF site \in Native /\ order = "big" THEN Reverse(word) ELSE word
WordsOf(site, bytes) ==
  [i \in 1..Len(bytes) \div WordBytes |-> Move(site, SubSeq(bytes, (i - 1) * WordBytes + 1, i * WordBytes))]

\* The compression, with results apart for whatever it is given: one word.
Squeeze(key, block, counter, root) ==
  [j \in 1..WordBytes |-> << "t", << key, block, counter, root >>, j >>]
PlainWords(bytes) == [i \in 1..Len(bytes) \div WordBytes |-> SubSeq(bytes, (i - 1) * WordBytes + 1, i * WordBytes)]

Key == << << "k", 1 >>, << "k", 2 >> >>
Byte(n) == << "b", n % 3 >>

\* A result is as long as a word, so that two of them are a block.
RECURSIVE Tree(_, _, _)
LeftLen(n) == CHOOSE k \in 1..n - 1 : \E e \in 0..6 : k = 2 ^ e /\ 2 * k >= n
Tree(f(_, _), cvs, top) ==
  IF Len(cvs) = 1 THEN cvs[1]
  ELSE LET k == LeftLen(Len(cvs))
       IN  f(Tree(f, SubSeq(cvs, 1, k), FALSE) \o Tree(f, SubSeq(cvs, k + 1, Len(cvs)), FALSE), top)

\* What the digest is to be.
TrueChunk(i, root) == Squeeze(PlainWords(Key), PlainWords(SubSeq(msg, (i - 1) * ChunkBytes + 1, i * ChunkBytes)), (i - 1) * ChunkBytes, root)
TrueParent(block, top) == Squeeze(PlainWords(Key), PlainWords(block), 0, top)
Chunks == Len(msg) \div ChunkBytes
TrueDigest == Tree(TrueParent, [i \in 1..Chunks |-> TrueChunk(i, Chunks = 1)], TRUE)

\* What the program makes of it.
Chunk(bytes, at, root) == Move("out", Squeeze(WordsOf("key", Key), WordsOf("block", bytes), at, root))
Parent(block, top) == Move("out", Squeeze(WordsOf("key", Key), WordsOf("block", block), 0, top))
Digest == IF Chunks = 1 THEN Chunk(msg, 0, TRUE) ELSE Tree(Parent, stack, TRUE)

Init == /\ order \in Orders /\ reach \in Reaches
        /\ msg = << >> /\ pos = 0 /\ stack = << >>

\* One call, with as much as fits in memory.
Absorb(n) ==
  /\ n * ChunkBytes <= reach /\ Chunks + n <= MaxChunks
  /\ LET bytes == [i \in 1..n * ChunkBytes |-> Byte(Len(msg) + i)]
         Count(x) == IF Narrow THEN x % reach ELSE x
     IN  /\ msg' = msg \o bytes
         /\ pos' = Count(pos + n * ChunkBytes)
         /\ stack' = stack \o [i \in 1..n |-> Chunk(SubSeq(bytes, (i - 1) * ChunkBytes + 1, i * ChunkBytes),
                                                    Count(pos + (i - 1) * ChunkBytes), FALSE)]
  /\ UNCHANGED << order, reach >>

Next == \E n \in 1..MaxChunks : Absorb(n)
Spec == Init /\ [][Next]_vars

SameEverywhere == Chunks > 0 => Digest = TrueDigest
=============================================================================
