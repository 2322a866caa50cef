----------------------------- MODULE HashValue -----------------------------
(***************************************************************************)
(* Hash values as an abstract type: a value is the bytes it was made from, *)
(* and everything that can be observed of it is a function of them.        *)
(* Comparison runs over all bytes and collects their differences; that it  *)
(* decides equality is checked here for short values over a small          *)
(* alphabet, where other ways of collecting them would fail.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Limbs, Bitwise

CONSTANTS Length, Alphabet, Handles

VARIABLES vals              \* handle -> bytes, of the values made so far
vars == << vals >>

Values == [1..Length -> Alphabet]

RECURSIVE Differences(_, _, _)
Differences(a, b, i) == IF i = 0 THEN 0 ELSE (a[i] ^^ b[i]) | Differences(a, b, i - 1)
Same(a, b) == Differences(a, b, Len(a)) = 0

\* What can be observed.
AsBytes(v) == v
Shown(v) == Hex(v)
ShownDebug(v) == "Hash(0x" \o Hex(v) \o ")"

Make(h, bytes) == vals' = [vals EXCEPT ![h] = bytes]

Init == vals \in [Handles -> Values]
Next == \E h \in Handles : \E b \in Values : Make(h, b)
Spec == Init /\ [][Next]_vars

DecidesEquality == \A g, h \in Handles : Same(vals[g], vals[h]) <=> vals[g] = vals[h]
ShownApart == \A g, h \in Handles : Shown(vals[g]) = Shown(vals[h]) <=> vals[g] = vals[h]
=============================================================================
