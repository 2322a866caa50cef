------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* Message contents that can be written down in a few numbers, for traces  *)
(* whose messages are long. A content is a tuple of segments               *)
(*    << kind, c, b >>                                                     *)
(* in order: the segment runs from the end of the one before it up to, and *)
(* not including, byte b of chunk c. The bytes of a segment depend on its  *)
(* kind and on the absolute position, so that any loss, repetition or      *)
(* reordering of data changes the message. Every driver generates the same *)
(* bytes from the same formula.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

PatternByte(kind, a, b) ==
  IF kind = 0 THEN 0
  ELSE IF kind = 1 THEN 255
  ELSE LET sq == (b + a + kind) % 251
       IN  (b * 31 + (b \div 8) * 17 + a * 101 + (a \div 64) * 7
              + kind * 59 + sq * sq) % 256

Before(a, b, seg) == a < seg[2] \/ (a = seg[2] /\ b < seg[3])

ContentByte(segs, a, b) ==
  LET i == CHOOSE i \in 1..Len(segs) :
              /\ Before(a, b, segs[i])
              /\ \A j \in 1..(i - 1) : ~Before(a, b, segs[j])
  IN  PatternByte(segs[i][1], a % 65536, b)

PureContentBytes(segs, a, from, n, len) ==
  [i \in 1..len |-> IF i <= n THEN ContentByte(segs, a, from + i - 1) ELSE 0]

\* n bytes from byte `from` of chunk a on, padded with zeros to len bytes.
ContentBytes(segs, a, from, n, len) == PureContentBytes(segs, a, from, n, len)

EndOf(segs) == IF Len(segs) = 0 THEN << 0, 0 >>
               ELSE << segs[Len(segs)][2], segs[Len(segs)][3] >>

\* Append nc chunks and n bytes. More of the same kind is the same segment.
ExtendBy(segs, kind, nc, n, clen) ==
  LET e == EndOf(segs)
      t == e[2] + n
      k == Len(segs)
      end == << kind, e[1] + nc + (t \div clen), t % clen >>
  IN  IF n = 0 /\ nc = 0 THEN segs
      ELSE IF k > 0 /\ segs[k][1] = kind THEN [segs EXCEPT ![k] = end]
      ELSE Append(segs, end)

\* A content as a message in the sense of TreeHash: the number of chunks and
\* the length of the last one. The empty message is one empty chunk.
ChunksOf(segs) == LET e == EndOf(segs)
                  IN  IF e[2] > 0 \/ e[1] = 0 THEN e[1] + 1 ELSE e[1]
LastLenOf(segs, clen) == LET e == EndOf(segs)
                         IN  IF e[2] > 0 \/ e[1] = 0 THEN e[2] ELSE clen
=============================================================================
