---------------------------- MODULE Compression ----------------------------
(***************************************************************************)
(* The compression functions, written out in full.                         *)
(*                                                                         *)
(* CompressState32: the BLAKE2s round function, 7 rounds, on               *)
(*    cv[0..7], IV[0..3], offset low, offset high, block length, flags     *)
(* CompressState64: the BLAKE2b round function, 8 rounds, on               *)
(*    cv[0..3], IV[4..7], IV[0..3], offset, IV[5], block length, flags     *)
(*                                                                         *)
(* The round functions, schedules and IVs are checked against BLAKE2s and  *)
(* BLAKE2b themselves in SelfCheck.tla, so that nothing here is copied     *)
(* from the implementation that it judges.                                 *)
(***************************************************************************)
EXTENDS Limbs

IV32 == << << 58983, 27145 >>,
           << 44677, 47975 >>,
           << 62322, 15470 >>,
           << 62778, 42319 >>,
           << 21119, 20750 >>,
           << 26764, 39685 >>,
           << 55723, 8067 >>,
           << 52505, 23520 >> >>

IV64 == << << 51464, 62396, 58983, 27145 >>,
           << 42811, 33994, 44677, 47975 >>,
           << 63531, 65172, 62322, 15470 >>,
           << 14065, 24349, 62778, 42319 >>,
           << 33489, 44518, 21119, 20750 >>,
           << 27679, 11070, 26764, 39685 >>,
           << 48491, 64321, 55723, 8067 >>,
           << 8569, 4990, 52505, 23520 >> >>

\* The BLAKE2 message schedule (10 rows; the hash uses the first 7 or 8).
Sigma == << << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 >>,
            << 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 >>,
            << 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 >>,
            << 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 >>,
            << 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 >>,
            << 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 >>,
            << 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 >>,
            << 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 >>,
            << 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 >>,
            << 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 >> >>

\* ------------------------------------------------------------- 32 bit words
G32(v, a, b, c, d, x, y) ==
  LET a1 == Add2(Add2(v[a], v[b]), x)
      d1 == RotR2(Xor2(v[d], a1), 16)
      c1 == Add2(v[c], d1)
      b1 == RotR2(Xor2(v[b], c1), 12)
      a2 == Add2(Add2(a1, b1), y)
      d2 == RotR2(Xor2(d1, a2), 8)
      c2 == Add2(c1, d2)
      b2 == RotR2(Xor2(b1, c2), 7)
  IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

Round32(v0, m, s) ==
  LET M(i) == m[s[i] + 1]
      v1 == G32(v0, 1, 5,  9, 13, M(1),  M(2))
      v2 == G32(v1, 2, 6, 10, 14, M(3),  M(4))
      v3 == G32(v2, 3, 7, 11, 15, M(5),  M(6))
      v4 == G32(v3, 4, 8, 12, 16, M(7),  M(8))
      v5 == G32(v4, 1, 6, 11, 16, M(9),  M(10))
      v6 == G32(v5, 2, 7, 12, 13, M(11), M(12))
      v7 == G32(v6, 3, 8,  9, 14, M(13), M(14))
  IN  G32(v7, 4, 5, 10, 15, M(15), M(16))

RECURSIVE Rounds32(_, _, _, _)
Rounds32(v, m, r, n) ==
  IF r > n THEN v ELSE Rounds32(Round32(v, m, Sigma[r]), m, r + 1, n)

\* cv: 8 words; m: 16 words; off: a u64 (four limbs); blen, flags: naturals.
\* The result is the 16 words of full output; the first 8 are the chaining
\* value.
CompressWords32(cv, m, off, blen, flags) ==
  LET init == << cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], cv[8],
                 IV32[1], IV32[2], IV32[3], IV32[4],
                 << off[1], off[2] >>, << off[3], off[4] >>,
                 W2(blen), W2(flags) >>
      s == Rounds32(init, m, 1, 7)
  IN  [i \in 1..16 |-> IF i <= 8 THEN Xor2(s[i], s[i + 8])
                       ELSE Xor2(s[i], cv[i - 8])]

PureCompress32(cvBytes, block, blen, off, flags) ==
  Bytes2(CompressWords32(Words2(cvBytes), Words2(block), off, blen, flags))

\* 32-byte chaining value, 64-byte block -> 64 bytes of full output.
Compress32(cvBytes, block, blen, off, flags) ==
  PureCompress32(cvBytes, block, blen, off, flags)

\* ------------------------------------------------------------- 64 bit words
G64(v, a, b, c, d, x, y) ==
  LET a1 == Add4(Add4(v[a], v[b]), x)
      d1 == RotR4(Xor4(v[d], a1), 32)
      c1 == Add4(v[c], d1)
      b1 == RotR4(Xor4(v[b], c1), 24)
      a2 == Add4(Add4(a1, b1), y)
      d2 == RotR4(Xor4(d1, a2), 16)
      c2 == Add4(c1, d2)
      b2 == RotR4(Xor4(b1, c2), 63)
  IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

Round64(v0, m, s) ==
  LET M(i) == m[s[i] + 1]
      v1 == G64(v0, 1, 5,  9, 13, M(1),  M(2))
      v2 == G64(v1, 2, 6, 10, 14, M(3),  M(4))
      v3 == G64(v2, 3, 7, 11, 15, M(5),  M(6))
      v4 == G64(v3, 4, 8, 12, 16, M(7),  M(8))
      v5 == G64(v4, 1, 6, 11, 16, M(9),  M(10))
      v6 == G64(v5, 2, 7, 12, 13, M(11), M(12))
      v7 == G64(v6, 3, 8,  9, 14, M(13), M(14))
  IN  G64(v7, 4, 5, 10, 15, M(15), M(16))

RECURSIVE Rounds64(_, _, _, _)
Rounds64(v, m, r, n) ==
  IF r > n THEN v ELSE Rounds64(Round64(v, m, Sigma[((r - 1) % 10) + 1]), m, r + 1, n)

\* cv: 4 words; m: 16 words. 16 words of full output, the first 4 being the
\* chaining value.
CompressWords64(cv, m, off, blen, flags) ==
  LET init == << cv[1], cv[2], cv[3], cv[4], IV64[5], IV64[6], IV64[7], IV64[8],
                 IV64[1], IV64[2], IV64[3], IV64[4],
                 off, IV64[6], W4(blen), W4(flags) >>
      s == Rounds64(init, m, 1, 8)
  IN  [i \in 1..16 |-> IF i <= 4 THEN Xor4(s[i], s[i + 4])
                       ELSE IF i <= 8 THEN Xor4(s[i], cv[i - 4])
                       ELSE s[i]]

PureCompress64(cvBytes, block, blen, off, flags) ==
  Bytes4(CompressWords64(Words4(cvBytes), Words4(block), off, blen, flags))

\* 32-byte chaining value, 128-byte block -> 128 bytes of full output.
Compress64(cvBytes, block, blen, off, flags) ==
  PureCompress64(cvBytes, block, blen, off, flags)
=============================================================================
