------------------------------ MODULE BackEnd ------------------------------
(***************************************************************************)
(* What a back end provides: one compression, its extended output, and the *)
(* hashing of many inputs of equal length at a time, each on its own and   *)
(* with its own counter. For either word size; whatever is processed in    *)
(* parallel is not visible here.                                           *)
(***************************************************************************)
EXTENDS Compression, Content

CompOf(w, cv, block, blen, off, f) ==
  IF w = 32 THEN Compress32(cv, block, blen, off, f) ELSE Compress64(cv, block, blen, off, f)

\* The chaining value is 32 bytes for both word sizes.
CvOut(w, cv, block, blen, off, f) == SubSeq(CompOf(w, cv, block, blen, off, f), 1, 32)
XofOut(w, cv, block, blen, off, f) == CompOf(w, cv, block, blen, off, f)

BlockBytes(w) == IF w = 32 THEN 64 ELSE 128

\* One input of nb whole blocks: Block(j) is block j = 1..nb.
RECURSIVE ChainTo(_, _, _, _, _, _, _, _, _)
ChainTo(w, cv, Block(_), nb, j, off, f, fs, fe) ==
  IF j = 0 THEN cv
  ELSE CvOut(w, ChainTo(w, cv, Block, nb, j - 1, off, f, fs, fe),
             Block(j), BlockBytes(w), off,
             (f | (IF j = 1 THEN fs ELSE 0)) | (IF j = nb THEN fe ELSE 0))

InputBlock(w, kind, i, j) ==         \* block j of input i = 0, 1, ...
  LET bb == BlockBytes(w)
  IN  ContentBytes(<< << kind, i + 1, 0 >> >>, i, (j - 1) * bb, bb, bb)

OneOut(w, cv, kind, i, bytes, off, f, fs, fe) ==
  LET nb == bytes \div BlockBytes(w)
      Block(j) == InputBlock(w, kind, i, j)
  IN  ChainTo(w, cv, Block, nb, nb, off, f, fs, fe)

\* The results of all inputs, one after the other.
RECURSIVE ManyFrom(_, _, _, _, _, _, _, _, _, _, _)
ManyFrom(w, cv, kind, lo, hi, bytes, off, delta, f, fs, fe) ==  \* inputs lo..hi
  IF lo > hi THEN << >>
  ELSE IF lo = hi
  THEN OneOut(w, cv, kind, lo, bytes, Add4(off, Times4(lo, delta)), f, fs, fe)
  ELSE LET m == (lo + hi) \div 2
       IN  ManyFrom(w, cv, kind, lo, m, bytes, off, delta, f, fs, fe)
             \o ManyFrom(w, cv, kind, m + 1, hi, bytes, off, delta, f, fs, fe)
ManyOut(w, cv, kind, n, bytes, off, delta, f, fs, fe) ==
  ManyFrom(w, cv, kind, 0, n - 1, bytes, off, delta, f, fs, fe)

\* What lies behind the results stays as it was: the drivers fill the output
\* with this byte beforehand.
Untouched(n) == [i \in 1..n |-> 165]
=============================================================================
