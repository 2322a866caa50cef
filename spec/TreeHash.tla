----------------------------- MODULE TreeHash ------------------------------
(***************************************************************************)
(* The tree hash, stated declaratively and for any compression function.   *)
(*                                                                         *)
(* A message is a number n >= 1 of chunks, all of them ChunkLen bytes long *)
(* except perhaps the last, which has `last` bytes (0 only if the message  *)
(* is empty). What the bytes are is the business of MsgBlock.              *)
(*                                                                         *)
(* A node is a compression that is ready to be carried out but has not     *)
(* been: chaining value, block, block length, counter, flags. Carried out  *)
(* as it stands it gives the chaining value that its parent consumes;      *)
(* carried out with ROOT and a counter of the caller's choosing it gives   *)
(* the output stream. Which of the two happens to a node is exactly the    *)
(* difference between an inner node and the root.                          *)
(*                                                                         *)
(* The module is instantiated with the real compression functions          *)
(* (Hash32) to judge implementations, and with an injective symbolic one   *)
(* to compare this definition with the algorithms that compute it          *)
(* incrementally, recursively and in parallel.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS
  BlockLen, ChunkLen,         \* bytes; BlockLen divides ChunkLen
  Comp(_, _, _, _, _),        \* cv, block, block length, counter, flags -> output
  CvOf(_),                    \* the chaining value in a (non-root) output
  MsgBlock(_, _, _, _),       \* message, chunk, block in chunk, length: padded block
  PairBlock(_, _),            \* two chaining values -> the block of their parent
  ChunkCounter(_, _),         \* message, chunk index -> its counter (its byte offset)
  OutCounter(_),              \* output block index -> its counter
  NoCounter                   \* the counter of an inner parent

CHUNK_START == 1
CHUNK_END   == 2
PARENT      == 4
ROOT        == 8
KEYED_HASH  == 16
DERIVE_KEY  == 32

ModeFlag(mode) == CASE mode = "hash"   -> 0
                    [] mode = "keyed"  -> KEYED_HASH
                    [] mode = "derive" -> DERIVE_KEY

Node(cv, block, blen, ctr, flags) ==
  [cv |-> cv, block |-> block, blen |-> blen, ctr |-> ctr, flags |-> flags]

\* The chaining value of a node that is not the root.
Value(node) == CvOf(Comp(node.cv, node.block, node.blen, node.ctr, node.flags))

\* The output stream of a node that is the root: the block at a counter, and
\* block j.
RootAt(node, ctr) == Comp(node.cv, node.block, node.blen, ctr, node.flags + ROOT)
RootBlock(node, j) == RootAt(node, OutCounter(j))

NumBlocks(len) == IF len = 0 THEN 1 ELSE (len + BlockLen - 1) \div BlockLen

\* A chunk is a chain of compressions from the key; the last one is the node.
ChunkNode(key, mf, msg, i, len) ==
  LET nb == NumBlocks(len)
      lastLen == len - (nb - 1) * BlockLen
      Start(j) == IF j = 1 THEN mf + CHUNK_START ELSE mf
      RECURSIVE Chain(_)
      Chain(j) == \* the chaining value that goes into block j
        IF j = 1 THEN key
        ELSE CvOf(Comp(Chain(j - 1), MsgBlock(msg, i, j - 1, BlockLen), BlockLen,
                       ChunkCounter(msg, i), Start(j - 1)))
  IN  Node(Chain(nb), MsgBlock(msg, i, nb, lastLen), lastLen, ChunkCounter(msg, i),
           Start(nb) + CHUNK_END)

ParentNode(key, mf, leftCv, rightCv) ==
  Node(key, PairBlock(leftCv, rightCv), BlockLen, NoCounter, mf + PARENT)

RECURSIVE LargestPow2Below(_, _)
LargestPow2Below(n, p) == IF 2 * p < n THEN LargestPow2Below(n, 2 * p) ELSE p

\* The left subtree of n > 1 chunks: the largest power of two that leaves
\* something for the right.
LeftChunks(n) == LargestPow2Below(n, 1)

ChunkLength(msg, i) == IF i = msg.n - 1 THEN msg.last ELSE ChunkLen

RECURSIVE Subtree(_, _, _, _, _)
Subtree(key, mf, msg, lo, n) ==
  IF n = 1 THEN ChunkNode(key, mf, msg, lo, ChunkLength(msg, lo))
  ELSE LET l == LeftChunks(n)
       IN  ParentNode(key, mf, Value(Subtree(key, mf, msg, lo, l)),
                               Value(Subtree(key, mf, msg, lo + l, n - l)))

\* The root of the whole message.
Root(key, mf, msg) == Subtree(key, mf, msg, 0, msg.n)

-----------------------------------------------------------------------------
(***************************************************************************)
(* The same root by adding one chunk after the other to the complete       *)
(* subtrees so far, one per bit of their number, largest first: entries    *)
(* << level, chaining value >>. Ladder.tla checks that the two agree,      *)
(* starting from nothing or from any prefix. It is what judges messages    *)
(* whose beginning is given only by the chaining values of its subtrees.   *)
(***************************************************************************)
RECURSIVE Carry(_, _, _, _, _)
Carry(key, mf, stack, level, cv) ==
  LET k == Len(stack)
  IN  IF k > 0 /\ stack[k][1] = level
      THEN Carry(key, mf, SubSeq(stack, 1, k - 1), level + 1,
                 Value(ParentNode(key, mf, stack[k][2], cv)))
      ELSE Append(stack, << level, cv >>)

RECURSIVE PushChunks(_, _, _, _, _)
PushChunks(key, mf, msg, stack, i) ==      \* all chunks from i on, but the last
  IF i >= msg.n - 1 THEN stack
  ELSE PushChunks(key, mf, msg,
                  Carry(key, mf, stack, 0, Value(ChunkNode(key, mf, msg, i, ChunkLen))),
                  i + 1)

RECURSIVE FoldNode(_, _, _, _)
FoldNode(key, mf, stack, node) ==
  IF Len(stack) = 0 THEN node
  ELSE FoldNode(key, mf, SubSeq(stack, 1, Len(stack) - 1),
                ParentNode(key, mf, stack[Len(stack)][2], Value(node)))

\* msg is what comes after the chunks already on the stack. If that is
\* nothing, the stack has at least two entries.
LadderRoot(key, mf, stack, msg) ==
  IF msg.n = 1 /\ msg.last = 0 /\ Len(stack) > 0
  THEN LET k == Len(stack)
       IN  FoldNode(key, mf, SubSeq(stack, 1, k - 2),
                    ParentNode(key, mf, stack[k - 1][2], stack[k][2]))
  ELSE LET st == PushChunks(key, mf, msg, stack, 0)
       IN  FoldNode(key, mf, st, ChunkNode(key, mf, msg, msg.n - 1, msg.last))
=============================================================================
