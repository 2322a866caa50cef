------------------------------- MODULE Hash32 ------------------------------
(***************************************************************************)
(* TreeHash with the numbers of this hash: 64-byte blocks, 2048-byte       *)
(* chunks, the 32-bit compression function, counters that are byte offsets.*)
(* Keys and chaining values are 32-byte tuples.                            *)
(***************************************************************************)
EXTENDS Compression, Content

BLOCK == 64
CHUNK == 2048

IVKey == Bytes2(IV32)       \* the "key" of the unkeyed mode

Half(out) == SubSeq(out, 1, 32)
Join(a, b) == a \o b
\* (A message may also be given by its bytes, as hexadecimal digits.)
BlockOf(msg, i, j, len) ==
  IF "hex" \in DOMAIN msg
  THEN LET from == i * CHUNK + (j - 1) * BLOCK
           bytes == Unhex(SubSeq(msg.hex, 2 * from + 1, 2 * (from + len)))
       IN  [k \in 1..BLOCK |-> IF k <= len THEN bytes[k] ELSE 0]
  ELSE ContentBytes(msg.segs, msg.skip + i, (j - 1) * BLOCK, len, BLOCK)

\* 2048 i for a u64 i (wrapping).
Shift11(w) == << (w[1] % 32) * 2048,
                 (w[1] \div 32) + (w[2] % 32) * 2048,
                 (w[2] \div 32) + (w[3] % 32) * 2048,
                 (w[3] \div 32) + (w[4] % 32) * 2048 >>

\* 2048 i and 64 j as u64s, for any naturals TLC has (below 2^31).
OffsetOf(i) == << (i % 32) * 2048, (i \div 32) % LIMB, i \div (32 * LIMB), 0 >>
OutOffset(j) == << (j % 1024) * 64, (j \div 1024) % LIMB, j \div (1024 * LIMB), 0 >>

\* A message may start at some other chunk-aligned offset than 0 (base), and
\* at some other chunk of its content than the first (skip).
ChunkOffset(msg, i) == Add4(msg.base, OffsetOf(i))

T == INSTANCE TreeHash WITH
       BlockLen <- BLOCK, ChunkLen <- CHUNK,
       Comp <- Compress32, CvOf <- Half, MsgBlock <- BlockOf, PairBlock <- Join,
       ChunkCounter <- ChunkOffset, OutCounter <- OutOffset, NoCounter <- W4(0)

\* The message with a content (see Content).
MsgAt(segs, base) == [n |-> ChunksOf(segs), last |-> LastLenOf(segs, CHUNK),
                      segs |-> segs, base |-> base, skip |-> 0]
Msg(segs) == MsgAt(segs, W4(0))

MsgHex(hex) == LET n == Len(hex) \div 2
                   c == IF n = 0 THEN 1 ELSE (n + CHUNK - 1) \div CHUNK
               IN  [n |-> c, last |-> n - (c - 1) * CHUNK, hex |-> hex, base |-> W4(0)]

KeyOf(mode, key) == IF mode = "hash" THEN IVKey ELSE key

RootOfMsg(mode, key, msg) == T!Root(KeyOf(mode, key), T!ModeFlag(mode), msg)
RootOfAny(mode, key, segs) == RootOfMsg(mode, key, Msg(segs))

\* A message given from chunk number `count` (a u64) on, the chunks before
\* being known by the chaining values of their maximal complete subtrees.
BitOf(w, e) == (w[(e \div 16) + 1] \div Pow2[e % 16]) % 2
RECURSIVE Levels(_, _)
Levels(w, e) == IF e < 0 THEN << >>
                ELSE IF BitOf(w, e) = 1 THEN << e >> \o Levels(w, e - 1)
                ELSE Levels(w, e - 1)
StackOf(count, cvs) == LET lv == Levels(count, 63)
                       IN  [k \in 1..Len(lv) |-> << lv[k], cvs[k] >>]
RootFrom(mode, key, count, cvs, segs) ==
  T!LadderRoot(KeyOf(mode, key), T!ModeFlag(mode), StackOf(count, cvs),
               MsgAt(segs, Shift11(count)))

\* Messages of gigabytes are zeros for the most part. The subtrees that are
\* nothing but zeros have the same value in all of them, so TLC keeps it.
PureZeroValue(key, mf, lo, level) ==
  T!Value(T!Subtree(key, mf,
                    [n |-> 2^level, last |-> CHUNK, segs |-> << << 0, 2^level, 0 >> >>,
                     base |-> OffsetOf(lo), skip |-> 0], 0, 2^level))
ZeroValue(key, mf, lo, level) == PureZeroValue(key, mf, lo, level)

RECURSIVE ZeroStack(_, _, _, _)
ZeroStack(key, mf, lo, levels) ==
  IF Len(levels) = 0 THEN << >>
  ELSE << << levels[1], ZeroValue(key, mf, lo, levels[1]) >> >>
         \o ZeroStack(key, mf, lo + 2^levels[1], Tail(levels))

RootOfLong(mode, key, segs) ==
  LET k == KeyOf(mode, key)
      mf == T!ModeFlag(mode)
      n == ChunksOf(segs)
      zeros == IF segs[1][2] < n - 1 THEN segs[1][2] ELSE n - 1
  IN  T!LadderRoot(k, mf, ZeroStack(k, mf, 0, Levels(W4(zeros), 30)),
                   [n |-> n - zeros, last |-> LastLenOf(segs, CHUNK), segs |-> segs,
                    base |-> OffsetOf(zeros), skip |-> zeros])

RootOf(mode, key, segs) ==
  IF Len(segs) > 0 /\ segs[1][1] = 0 /\ segs[1][2] >= 2000
  THEN RootOfLong(mode, key, segs) ELSE RootOfAny(mode, key, segs)

\* Output bytes [from, from + n) of a root, from and n naturals.
RECURSIVE Blocks(_, _, _)
Blocks(root, j, k) ==       \* output blocks j..k concatenated
  IF j = k THEN T!RootBlock(root, j)
  ELSE LET m == (j + k) \div 2 IN Blocks(root, j, m) \o Blocks(root, m + 1, k)

Stream(root, from, n) ==
  IF n = 0 THEN << >>
  ELSE LET j == from \div 64
           k == (from + n - 1) \div 64
           bytes == Blocks(root, j, k)
       IN  SubSeq(bytes, from - 64 * j + 1, from - 64 * j + n)
=============================================================================
