----------------------------- MODULE Separation ----------------------------
(***************************************************************************)
(* Domain separation of the tree hash, with an adversary: over an          *)
(* injective compression function, but with messages and keys that may     *)
(* contain chaining values of other computations, as an adversary can      *)
(* arrange it. A block is two symbols; a symbol is a byte or something as  *)
(* long as a chaining value, so that the block of a parent node is also a  *)
(* possible block of a message. The counter of parent nodes is that of the *)
(* first chunk, as it is in the real function.                             *)
(*                                                                         *)
(* No two different (mode, key, message) triples may lead to the same      *)
(* final compression, and none to one that is carried out inside of the    *)
(* tree for another.                                                       *)
(*                                                                         *)
(* Dropped is a set of flags that the compression function does not see.   *)
(* Without those that matter the property must fail, which shows that the  *)
(* adversary is strong enough to make use of it. (Some flags make each     *)
(* other redundant: a parent is already told apart by not being the end of *)
(* a chunk.)                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Intern

CONSTANTS ChunkLen, MaxLen, Dropped, Attack

BlockLen == 2
Byte(b) == << "byte", b >>
Has(flags, f) == (flags \div f) % 2 = 1
RECURSIVE Without(_, _)
Without(flags, D) == IF D = {} THEN flags
                     ELSE LET f == CHOOSE f \in D : TRUE
                          IN  Without(IF Has(flags, f) THEN flags - f ELSE flags, D \ {f})
Mask(flags) == Without(flags, Dropped)
SComp(cv, block, blen, ctr, flags) == Intern(<< cv, block, blen, ctr, Mask(flags) >>)
SCv(out) == out
SBlock(msg, i, j, len) ==
  [k \in 1..BlockLen |-> IF k <= len THEN msg.syms[i * ChunkLen + (j - 1) * BlockLen + k] ELSE Byte(0)]
SPair(a, b) == << a, b >>
Ctr(i) == << "counter", i >>

S == INSTANCE TreeHash WITH
       Comp <- SComp, CvOf <- SCv, MsgBlock <- SBlock, PairBlock <- SPair,
       ChunkCounter <- LAMBDA msg, i : Ctr(i * ChunkLen), OutCounter <- LAMBDA j : Ctr(j * BlockLen),
       NoCounter <- Ctr(0)

IV == << "iv", 0 >>
Key == << "key", 0 >>
MessageOf(syms) ==
  LET n == IF Len(syms) = 0 THEN 1 ELSE (Len(syms) + ChunkLen - 1) \div ChunkLen
  IN  [n |-> n, last |-> Len(syms) - (n - 1) * ChunkLen, syms |-> syms]

\* The compressions that are carried out inside of a tree: all of a chunk but
\* the last one, and the last one and the parents if they are not the root.
\* The chaining value that goes into block j + 1 is what block j came to.
NodeComp(node) == SComp(node.cv, node.block, node.blen, node.ctr, node.flags)
ChunkComps(key, mf, msg, i) ==
  LET nb == S!NumBlocks(S!ChunkLength(msg, i))
  IN  {S!ChunkNode(key, mf, msg, i, (j - 1) * BlockLen + 1).cv : j \in 2..nb}
RECURSIVE InnerComps(_, _, _, _, _, _)
InnerComps(key, mf, msg, lo, n, isRoot) ==
  LET own == IF isRoot THEN {} ELSE {NodeComp(S!Subtree(key, mf, msg, lo, n))}
  IN  own \cup (IF n = 1 THEN ChunkComps(key, mf, msg, lo)
                ELSE LET l == S!LeftChunks(n)
                     IN  InnerComps(key, mf, msg, lo, l, FALSE)
                           \cup InnerComps(key, mf, msg, lo + l, n - l, FALSE))
Inner(x) == LET m == MessageOf(x.syms) IN InnerComps(x.key, S!ModeFlag(x.mode), m, 0, m.n, TRUE)
RootComp(x, j) == S!RootBlock(S!Root(x.key, S!ModeFlag(x.mode), MessageOf(x.syms)), j)

SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}

\* What the adversary uses: the values of the two chunks of a message, or the
\* value after the first block of one, as a key, and the values of two chunks
\* under that key.
ChunkCv(mode, key, i, len) ==
  S!Value(S!ChunkNode(key, S!ModeFlag(mode), MessageOf([k \in 1..(2 * ChunkLen) |-> Byte(1)]), i, len))
MidCv == S!ChunkNode(Key, S!KEYED_HASH, MessageOf([k \in 1..ChunkLen |-> Byte(1)]), 0, ChunkLen).cv
Cvs == IF Attack = "chunks" THEN {ChunkCv("hash", IV, 0, ChunkLen), ChunkCv("hash", IV, 1, ChunkLen)}
       ELSE {ChunkCv("keyed", MidCv, 0, ChunkLen), ChunkCv("keyed", MidCv, 1, 1)}

Alphabet == {Byte(0), Byte(1)} \cup Cvs
Messages == SeqsUpTo(Alphabet, MaxLen)
Keys == {IV, Key} \cup (IF Attack = "keys" THEN {MidCv} ELSE {})
Triples == [mode : {"hash"}, key : {IV}, syms : Messages]
             \cup [mode : {"keyed", "derive"}, key : Keys, syms : Messages]

AllInner(T) == UNION {Inner(y) : y \in T}
Roots(T) == {RootComp(y, 0) : y \in T}

\* Computed once and then the same in every state.
VARIABLES triples, inner, roots,
          x                  \* the triple under consideration
View == x
Init == /\ triples = Triples /\ inner = AllInner(triples) /\ roots = Roots(triples)
        \* As many different final compressions as triples: no two share one.
        /\ Assert(Cardinality(roots) = Cardinality(triples), "two triples share a final compression")
        /\ x \in triples
Next == UNCHANGED << triples, inner, roots, x >>
Spec == Init /\ [][Next]_<< triples, inner, roots, x >>

\* No final compression, for any block of the output, is an inner one.
NotInner == \A j \in 0..2 : RootComp(x, j) \notin inner
\* The blocks of an output are different from each other and from the first
\* blocks of all others.
OwnStream == \A j \in 1..2 : RootComp(x, j) \notin roots
=============================================================================
