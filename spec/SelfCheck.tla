----------------------------- MODULE SelfCheck -----------------------------
(***************************************************************************)
(* The arithmetic of this specification judged by something other than     *)
(* itself or the implementation:                                           *)
(*  - the 32- and 64-bit round functions, schedules and IVs, assembled     *)
(*    into BLAKE2s and BLAKE2b, give the digests of RFC 7693;              *)
(*  - the Java evaluations that TLC uses (java/bk/Ov.java) agree with the  *)
(*    TLA+ definitions they stand for.                                     *)
(***************************************************************************)
EXTENDS Hash32, TLC

\* ---------------------------------------------------------------- RFC 7693
Abc == << 97, 98, 99 >>
Pad(bytes, n) == [i \in 1..n |-> IF i <= Len(bytes) THEN bytes[i] ELSE 0]
Ones2 == << 65535, 65535 >>
Ones4 == << 65535, 65535, 65535, 65535 >>

\* One-block BLAKE2s with a 32-byte digest and no key.
Blake2s(bytes) ==
  LET h == [IV32 EXCEPT ![1] = Xor2(@, << 32, 257 >>)]
      v == << h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8],
              IV32[1], IV32[2], IV32[3], IV32[4],
              Xor2(IV32[5], W2(Len(bytes))), IV32[6], Xor2(IV32[7], Ones2), IV32[8] >>
      s == Rounds32(v, Words2(Pad(bytes, 64)), 1, 10)
  IN  Bytes2([i \in 1..8 |-> Xor2(Xor2(h[i], s[i]), s[i + 8])])

\* One-block BLAKE2b with a 64-byte digest and no key.
Blake2b(bytes) ==
  LET h == [IV64 EXCEPT ![1] = Xor4(@, << 64, 257, 0, 0 >>)]
      v == << h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8],
              IV64[1], IV64[2], IV64[3], IV64[4],
              Xor4(IV64[5], W4(Len(bytes))), IV64[6], Xor4(IV64[7], Ones4), IV64[8] >>
      s == Rounds64(v, Words4(Pad(bytes, 128)), 1, 12)
  IN  Bytes4([i \in 1..8 |-> Xor4(Xor4(h[i], s[i]), s[i + 8])])

ASSUME PureHex(Blake2s(Abc)) =
  "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"
ASSUME PureHex(Blake2b(Abc)) =
  "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"

\* ------------------------------------------------------- overrides agree
Rnd(seed, n) == [i \in 1..n |-> (seed * 7919 + i * i * 131 + i * 31 + (i * seed) \div 7) % 256]
RndU64(seed) == [i \in 1..4 |-> (seed * 40503 + i * 9973 * i + seed * seed) % LIMB]
Extremes == { << 0, 0, 0, 0 >>, << 65535, 65535, 65535, 65535 >>, << 65535, 65535, 0, 0 >>,
              << 0, 0, 1, 0 >>, << 0, 0, 0, 32768 >> }
Seeds == 1..20

ASSUME \A s \in Seeds : \A off \in {RndU64(s)} \cup (IF s < 3 THEN Extremes ELSE {}) :
  LET cv == Rnd(s, 32)  b == Rnd(s + 1000, 64)  bl == (s * 13) % 65  fl == (s * 37) % 256
  IN  Compress32(cv, b, bl, off, fl) = PureCompress32(cv, b, bl, off, fl)

ASSUME \A s \in Seeds : \A off \in {RndU64(s)} \cup (IF s < 3 THEN Extremes ELSE {}) :
  LET cv == Rnd(s, 32)  b == Rnd(s + 2000, 128)  bl == (s * 13) % 129  fl == (s * 37) % 256
  IN  Compress64(cv, b, bl, off, fl) = PureCompress64(cv, b, bl, off, fl)

ASSUME \A s \in Seeds : LET b == Rnd(s, s) IN Hex(b) = PureHex(b) /\ Unhex(PureHex(b)) = b
ASSUME LET all == [i \in 1..256 |-> i - 1] IN Hex(all) = PureHex(all) /\ Unhex(PureHex(all)) = all

Segs1 == << << 0, 0, 17 >>, << 1, 0, 80 >>, << 5, 1, 0 >>, << 6, 1, 2047 >>, << 77, 70000, 3 >> >>
ASSUME \A a \in {0, 1, 2, 63, 64, 65, 130, 65535, 65536, 69999, 70000} :
       \A f \in {0, 3, 15, 64, 1984} : \A n \in {0, 1, 3, 63, 64} :
          (a < 70000 \/ f + n <= 3) =>
             ContentBytes(Segs1, a, f, n, 64) = PureContentBytes(Segs1, a, f, n, 64)

ASSUME \A level \in 0..3 : \A lo \in {0, 1, 5, 2^20, 2^21 - 1, 2^21 + 3, 2^30} : \A mf \in {0, 16} :
  LET k == Rnd((lo % 1000) + mf, 32) IN ZeroValue(k, mf, lo, level) = PureZeroValue(k, mf, lo, level)

\* A long message, computed in either way.
ASSUME \A segs \in { << << 0, 9, 0 >> >>, << << 0, 8, 1 >> >>, << << 0, 7, 2047 >>, << 3, 9, 5 >> >>,
                     << << 0, 8, 0 >>, << 1, 9, 0 >>, << 4, 13, 100 >> >> } :
       RootOfLong("keyed", Rnd(7, 32), segs) = RootOfAny("keyed", Rnd(7, 32), segs)

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT("SelfCheck passed")
Spec == Init /\ [][Next]_done
=============================================================================
