------------------------------ MODULE Symbolic -----------------------------
(***************************************************************************)
(* TreeHash over an injective, symbolic compression function: chaining     *)
(* values are the terms that describe how they came about, and the bytes   *)
(* of a message are its positions 1, 2, 3, ... So two computations agree   *)
(* exactly if they carry out the same compressions on the same bytes.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS BlockLen, ChunkLen

SComp(cv, block, blen, ctr, flags) == << cv, block, blen, ctr, flags >>
SCv(out) == out
SPad(bytes) == [i \in 1..BlockLen |-> IF i <= Len(bytes) THEN bytes[i] ELSE 0]
\* Byte i of a message; a message may begin at some later chunk.
SByte(msg, i, j, k) == (msg.base + i) * ChunkLen + (j - 1) * BlockLen + k
SBlock(msg, i, j, len) == SPad([k \in 1..len |-> SByte(msg, i, j, k)])
SPair(a, b) == << "pair", a, b >>
SChunkCtr(msg, i) == << "chunk", msg.base + i >>
SOutCtr(j) == << "out", j >>
SKey == << "key" >>

S == INSTANCE TreeHash WITH
       Comp <- SComp, CvOf <- SCv, MsgBlock <- SBlock, PairBlock <- SPair,
       ChunkCounter <- SChunkCtr, OutCounter <- SOutCtr, NoCounter <- << "none" >>

\* The message of n bytes.
SMsg(n) == LET c == IF n = 0 THEN 1 ELSE (n + ChunkLen - 1) \div ChunkLen
           IN  [n |-> c, last |-> n - (c - 1) * ChunkLen, base |-> 0]
=============================================================================
