---------------------------- MODULE SeparationGen --------------------------
(***************************************************************************)
(* The adversary of Separation with the real hash function: for a          *)
(* (mode, key, message) triple, other triples made of chaining values from *)
(* inside of its tree, and near misses of all kinds. Every behaviour is a  *)
(* pool of calls, all of whose triples are different.                      *)
(***************************************************************************)
EXTENDS Hash32, FiniteSets, Json, IOUtils, TLC

Sizes == LET list == ndJsonDeserialize(IOEnv.SIZES) IN list[1].sizes
KeyA == "00112233445566778899aabbccddeeff102132435465768798a9bacbdcedfe0f"
IVHex == Hex(IVKey)
Zeros(n) == [i \in 1..n |-> 0]

VARIABLES size, mode, kind, done
vars == << size, mode, kind, done >>

KeyHex == IF mode = "hash" THEN "" ELSE KeyA
Key == KeyOf(mode, Unhex(KeyHex))
MF == T!ModeFlag(mode)
Segs == IF size = 0 THEN << >> ELSE << << kind, size \div CHUNK, size % CHUNK >> >>
M == Msg(Segs)
BytesOfChunk(i) == ContentBytes(Segs, i, 0, T!ChunkLength(M, i), T!ChunkLength(M, i))
RECURSIVE AllBytes(_)
AllBytes(i) == IF i = M.n - 1 THEN BytesOfChunk(i) ELSE BytesOfChunk(i) \o AllBytes(i + 1)
Data == Hex(AllBytes(0))
Sub(hex, from, to) == SubSeq(hex, 2 * from + 1, 2 * to)    \* bytes [from, to)

Call(m, k, data) == [op |-> "lit", mode |-> m, key |-> IF m = "hash" THEN "" ELSE k, data |-> data, n |-> 64]

\* The chaining values of the complete level of the tree.
ChunkCvs == [i \in 1..M.n |-> T!Value(T!ChunkNode(Key, MF, M, i - 1, T!ChunkLength(M, i - 1)))]
RECURSIVE Concat(_, _)
Concat(cvs, i) == IF i > Len(cvs) THEN "" ELSE Hex(cvs[i]) \o Concat(cvs, i + 1)
Left == T!LeftChunks(M.n)
RootChildren == Hex(T!Value(T!Subtree(Key, MF, M, 0, Left))) \o Hex(T!Value(T!Subtree(Key, MF, M, Left, M.n - Left)))
\* The chaining value that enters block j of the last chunk.
Mid(j) == Hex(T!ChunkNode(Key, MF, M, M.n - 1, (j - 1) * BLOCK + 1).cv)
LastBlocks == T!NumBlocks(M.last)

InOtherModes(k, data) == { Call(m, k, data) : m \in {"hash", "keyed", "derive"} }

Attacks ==
  (IF M.n > 1
   THEN InOtherModes(KeyA, RootChildren) \cup InOtherModes(IVHex, RootChildren)
        \cup InOtherModes(KeyA, Concat(ChunkCvs, 1))
        \cup { Call("keyed", Hex(ChunkCvs[i]), Data) : i \in {1, M.n} }
        \cup { Call("derive", Hex(ChunkCvs[1]), "") }
   ELSE {})
  \cup (IF LastBlocks > 1
        THEN { Call(m, Mid(j), Sub(Data, (M.n - 1) * CHUNK + (j - 1) * BLOCK, size))
                 : j \in {2, LastBlocks}, m \in {"keyed", "derive"} }
        ELSE {})

NearMisses ==
  { Call(m, k, Data) : m \in {"hash", "keyed", "derive"}, k \in {KeyA, IVHex, Hex(Zeros(32))} }
  \cup { Call(mode, KeyHex, d) : d \in
      { Data \o "00", Data \o "80", Data \o Hex(Zeros(64)), Data \o Data, Data \o KeyA, KeyA \o Data,
        IVHex \o Data }
      \cup (IF size > 0 THEN { Sub(Data, 0, size - 1), Sub(Data, 1, size), Sub(Data, 1, size) \o Sub(Data, 0, 1) } ELSE {})
      \cup (IF size > 64 THEN { Sub(Data, 64, size) \o Sub(Data, 0, 64), Sub(Data, 0, size - 64), Sub(Data, 64, size),
                               Sub(Data, 0, ((size - 1) \div 64) * 64) } ELSE {})
      \cup (IF size > CHUNK THEN { Sub(Data, CHUNK, size) \o Sub(Data, 0, CHUNK), Sub(Data, 0, CHUNK),
                                  Sub(Data, CHUNK, size), Sub(Data, 0, size - CHUNK) } ELSE {})
      \cup (IF size > 2 * CHUNK THEN { Sub(Data, CHUNK, 2 * CHUNK) \o Sub(Data, 0, CHUNK) \o Sub(Data, 2 * CHUNK, size) } ELSE {}) }

Init == /\ size \in {Sizes[i] : i \in 1..Len(Sizes)} /\ kind \in {0, 2, 3}
        /\ mode \in {"hash", "keyed", "derive"} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ PrintT(ToJson([calls |-> Attacks \cup NearMisses]))
        /\ UNCHANGED << size, mode, kind >>
Spec == Init /\ [][Next]_vars
=============================================================================
