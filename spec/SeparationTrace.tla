--------------------------- MODULE SeparationTrace -------------------------
(***************************************************************************)
(* Recorded calls, of which no two different ones may have the same        *)
(* result, and no result may be a chaining value inside of the tree of     *)
(* another. Different here are the mode, the key and the message as they   *)
(* were passed.                                                            *)
(***************************************************************************)
EXTENDS Hash32, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, seen, inner
vars == << t, l, seen, inner >>

Ev == Traces[t].ev[l]
Show(why) == PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> why]))
Must(p, why) == IF p THEN TRUE ELSE Show(why) /\ FALSE

\* All chaining values in the tree of a call, but not the root's.
RECURSIVE Chain(_, _, _, _, _, _)
Chain(key, mf, m, i, j, nb) ==     \* the values that enter blocks 2..nb of a chunk
  IF nb = 1 THEN << >>
  ELSE IF j = 1 THEN << >>
  ELSE LET before == Chain(key, mf, m, i, j - 1, nb)
           cv == IF j = 2 THEN key ELSE before[j - 2]
       IN  Append(before, Half(Compress32(cv, BlockOf(m, i, j - 1, BLOCK), BLOCK, ChunkOffset(m, i),
                                          mf + (IF j = 2 THEN T!CHUNK_START ELSE 0))))
ChunkInner(key, mf, m, i) ==
  LET nb == T!NumBlocks(T!ChunkLength(m, i))
      chain == Chain(key, mf, m, i, nb, nb)
  IN  {chain[j] : j \in 1..Len(chain)}
RECURSIVE Inner(_, _, _, _, _)
Inner(key, mf, m, lo, n) ==
  IF n = 1 THEN ChunkInner(key, mf, m, lo)
  ELSE LET k == T!LeftChunks(n)
       IN  {T!Value(T!Subtree(key, mf, m, lo, k)), T!Value(T!Subtree(key, mf, m, lo + k, n - k))}
             \cup Inner(key, mf, m, lo, k) \cup Inner(key, mf, m, lo + k, n - k)
InnerOf(e) == LET m == MsgHex(e.data)
              IN  { Hex(cv) : cv \in Inner(KeyOf(e.mode, Unhex(e.key)), T!ModeFlag(e.mode), m, 0, m.n) }

\* 32 bytes each, of the 32 or 64 observed.
Halves(out) == IF Len(out) = 64 THEN {out} ELSE {SubSeq(out, 1, 64), SubSeq(out, 65, 128)}
Who(e) == << e.mode, e.key, e.data >>

Step ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Ev
         who == Who(e)
         mine == IF who \in seen.who THEN {} ELSE InnerOf(e)
     IN  /\ Must(~(\E k \in {"panic", "crash", "stray"} : k \in DOMAIN e), "no panic, no crash, no stray write")
         /\ Must(Len(e.out) = 2 * e.n /\ 32 * Cardinality(Halves(e.out)) = e.n, "an output that does not repeat itself")
         /\ IF who \in seen.who
            THEN Must(\E r \in seen.results : r = << who, e.out >>, "the result of the same call before")
            ELSE Must(Halves(e.out) \cap seen.halves = {}, "not the result of a different call")
         /\ Must(Halves(e.out) \cap (inner \cup mine) = {}, "not an inner chaining value")
         /\ Must(mine \cap seen.halves = {}, "no inner chaining value among the results so far")
         /\ seen' = [who |-> seen.who \cup {who}, halves |-> seen.halves \cup Halves(e.out),
                     results |-> seen.results \cup {<< who, e.out >>}]
         /\ inner' = inner \cup mine
  /\ l' = l + 1 /\ t' = t

View == << t, l >>            \* what a trace has come to follows from these
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Init == t \in 1..Len(Traces) /\ l = 1 /\ inner = {} /\ seen = [who |-> {}, halves |-> {}, results |-> {}]
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
