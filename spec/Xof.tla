-------------------------------- MODULE Xof --------------------------------
(***************************************************************************)
(* Readers of one extensible output. A reader is a position that read()    *)
(* advances by one block's length; the compression takes the position as   *)
(* two words, low and high. Readers are cloned, read and turned into a     *)
(* hash in any order. Word and BlockBytes are small so that the low word   *)
(* runs over many times before the limit Word * Word of the position.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Word,             \* values of a counter word
          BlockBytes,       \* bytes of output a block has; divides Word
          Readers           \* handles

ASSUME Word % BlockBytes = 0

Limit == Word * Word

VARIABLES at,               \* reader -> [lo, hi] of those that exist
          from,             \* reader -> where its history begins
          got               \* reader -> the (lo, hi) of every block it has read
vars == << at, from, got >>

None == [lo |-> Word, hi |-> 0]
Exists(r) == at[r] # None
Value(p) == p.hi * Word + p.lo

Forward(p) ==               \* a carrying addition of two words
  LET s == p.lo + BlockBytes
  IN  [lo |-> s % Word, hi |-> p.hi + (s \div Word)]

Fresh(r) ==                 \* finalize_xof
  /\ ~Exists(r)
  /\ at' = [at EXCEPT ![r] = [lo |-> 0, hi |-> 0]]
  /\ from' = [from EXCEPT ![r] = 0]
  /\ got' = [got EXCEPT ![r] = << >>]

Read(r) ==
  /\ Exists(r) /\ Value(at[r]) + BlockBytes < Limit
  /\ got' = [got EXCEPT ![r] = Append(@, at[r])]
  /\ at' = [at EXCEPT ![r] = Forward(@)]
  /\ UNCHANGED from

Clone(r, s) ==
  /\ Exists(r) /\ ~Exists(s)
  /\ at' = [at EXCEPT ![s] = at[r]]
  /\ from' = [from EXCEPT ![s] = Value(at[r])]
  /\ got' = [got EXCEPT ![s] = << >>]

ToHash(r) ==                \* consumes the reader
  /\ Exists(r)
  /\ at' = [at EXCEPT ![r] = None]
  /\ from' = [from EXCEPT ![r] = 0]
  /\ got' = [got EXCEPT ![r] = << >>]

Init == /\ at = [r \in Readers |-> None]
        /\ from = [r \in Readers |-> 0]
        /\ got = [r \in Readers |-> << >>]
Next == \E r \in Readers : Fresh(r) \/ Read(r) \/ ToHash(r) \/ \E s \in Readers : Clone(r, s)
Spec == Init /\ [][Next]_vars

\* What a reader has read are consecutive blocks of the one stream.
Consecutive ==
  \A r \in Readers : \A i \in 1..Len(got[r]) :
    Value(got[r][i]) = from[r] + (i - 1) * BlockBytes

\* No block twice, none skipped, whoever else reads.
NoRepeat == \A r \in Readers : \A i, j \in 1..Len(got[r]) : i # j => got[r][i] # got[r][j]
Position == \A r \in Readers : Exists(r) => Value(at[r]) = from[r] + Len(got[r]) * BlockBytes
Words == \A r \in Readers : Exists(r) => at[r].lo < Word /\ at[r].hi < Word

\* Others' steps leave a reader where it is.
Independent == [][\A r \in Readers : at'[r] # at[r] =>
                   \A s \in Readers \ {r} : at'[s] = at[s] /\ got'[s] = got[s]]_vars
=============================================================================
