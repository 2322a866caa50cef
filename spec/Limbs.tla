------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* Machine words for a model checker whose integers are 32-bit signed: a   *)
(* word is a little-endian tuple of 16-bit limbs, two limbs for u32 and    *)
(* four for u64.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise

LIMB == 65536

Pow2 == [i \in 0..16 |-> 2^i]

Add2(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div LIMB)
  IN  << s1 % LIMB, s2 % LIMB >>

Add4(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div LIMB)
      s3 == a[3] + b[3] + (s2 \div LIMB)
      s4 == a[4] + b[4] + (s3 \div LIMB)
  IN  << s1 % LIMB, s2 % LIMB, s3 % LIMB, s4 % LIMB >>

Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Xor4(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>

\* Rotate right by n bits: limb i of the result takes its low bits from limb
\* i+k and its high bits from limb i+k+1, where n = 16k + r.
RotLimb(a, L, i, k, r) ==
  LET lo == a[((i - 1 + k) % L) + 1]
      hi == a[((i + k) % L) + 1]
  IN  (lo \div Pow2[r]) + ((hi % Pow2[r]) * Pow2[16 - r])

RotR2(a, n) ==
  LET k == n \div 16  r == n % 16
  IN  << RotLimb(a, 2, 1, k, r), RotLimb(a, 2, 2, k, r) >>

RotR4(a, n) ==
  LET k == n \div 16  r == n % 16
  IN  << RotLimb(a, 4, 1, k, r), RotLimb(a, 4, 2, k, r),
         RotLimb(a, 4, 3, k, r), RotLimb(a, 4, 4, k, r) >>

\* Small naturals as words.
W2(n) == << n % LIMB, (n \div LIMB) % LIMB >>
W4(n) == << n % LIMB, (n \div LIMB) % LIMB, 0, 0 >>

RECURSIVE Times4(_, _)
Times4(n, a) ==         \* n copies of the u64 a, added up (wrapping)
  IF n = 0 THEN W4(0)
  ELSE LET h == Times4(n \div 2, a)
           d == Add4(h, h)
       IN  IF n % 2 = 1 THEN Add4(d, a) ELSE d

\* Bytes <-> words, little endian.
LoadLimb(bytes, i) == bytes[i] + 256 * bytes[i + 1]
Load2(bytes, i) == << LoadLimb(bytes, i), LoadLimb(bytes, i + 2) >>
Load4(bytes, i) == << LoadLimb(bytes, i), LoadLimb(bytes, i + 2),
                      LoadLimb(bytes, i + 4), LoadLimb(bytes, i + 6) >>
Words2(bytes) == [w \in 1..(Len(bytes) \div 4) |-> Load2(bytes, 4 * (w - 1) + 1)]
Words4(bytes) == [w \in 1..(Len(bytes) \div 8) |-> Load4(bytes, 8 * (w - 1) + 1)]

StoreByte(limb, hi) == IF hi THEN limb \div 256 ELSE limb % 256
Bytes2(words) ==
  [i \in 1..(4 * Len(words)) |->
     LET w == words[((i - 1) \div 4) + 1]  b == (i - 1) % 4
     IN  StoreByte(w[(b \div 2) + 1], b % 2 = 1)]
Bytes4(words) ==
  [i \in 1..(8 * Len(words)) |->
     LET w == words[((i - 1) \div 8) + 1]  b == (i - 1) % 8
     IN  StoreByte(w[(b \div 2) + 1], b % 2 = 1)]

HexDigits == << "0", "1", "2", "3", "4", "5", "6", "7",
                "8", "9", "a", "b", "c", "d", "e", "f" >>
RECURSIVE PureHex(_)
PureHex(bytes) ==
  IF Len(bytes) = 0 THEN ""
  ELSE HexDigits[(bytes[1] \div 16) + 1] \o HexDigits[(bytes[1] % 16) + 1]
         \o PureHex(Tail(bytes))

\* Lower-case hexadecimal, two digits a byte, most significant digit first.
\* (TLC evaluates Hex with java/bk/Ov.java; SelfCheck.tla compares the two.)
Hex(bytes) == PureHex(bytes)

\* The bytes of a lower-case hexadecimal string. TLA+ has no way to look into
\* a string, so this is a choice among byte strings of the right length; TLC
\* never evaluates it this way.
Unhex(str) == CHOOSE bytes \in Seq(0..255) : PureHex(bytes) = str
=============================================================================
