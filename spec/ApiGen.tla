------------------------------- MODULE ApiGen ------------------------------
(***************************************************************************)
(* Random behaviours of Api, printed as histories of calls for the         *)
(* drivers. Contents are abstracted to their lengths; results are not      *)
(* observed here, the drivers fill them in and ApiTrace judges them.       *)
(*                                                                         *)
(* Run with -simulate; IOEnv gives the profile of the behaviours.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Handles == 1..3
MaxTotal == atoi(IOEnv.MAXTOTAL)
Depth == atoi(IOEnv.DEPTH)
Allow == IOEnv.ALLOW           \* "all", "ref" or "c"

Small == {0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 1000,
          1983, 1984, 1985, 2047, 2048, 2049, 2111, 2112, 4095, 4096, 4097}
Multiples == { c * 2048 + d - 65 : c \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40},
                                   d \in {0, 1, 2, 64, 65, 66, 128, 129} }
Keys == << "0000000000000000000000000000000000000000000000000000000000000000",
           "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
           "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f",
           "80000000000000000000000000000000000000000000000000000000000000fe" >>
Modes == {"hash", "keyed", "derive"}

VARIABLES hs, os, text, hist
vars == << hs, os, text, hist >>

Zero == 0
AddLen(m, kind, n) == m + n
RootRec(mode, key, prefix, m) == << mode, key, m >>
A == INSTANCE Api WITH
       Nothing <- Zero, AddTo <- AddLen, RootNode <- RootRec,
       HashOf <- LAMBDA r, n : n, BlocksOf <- LAMBDA r, p, n : n, BlockHashOf <- LAMBDA r, p : p,
       Advance <- LAMBDA p, n : p + n, Start <- 0, NoPrefix <- 0, Agree <- LAMBDA a, b : TRUE

Log(e) == hist' = Append(hist, e)
Pick(S) == RandomElement(S)
NewHandle == {h \in Handles : h \notin DOMAIN hs}

\* Up to the end of this chunk, or of the one after it, or a little around.
ToBoundary(len) == { x - (len % 2048) : x \in {y \in {1984, 2047, 2048, 2049, 4096, 4097, 6144, 8192, 16384, 32768} : y >= len % 2048} }

New == \E h \in Handles : \E mode \in {Pick(Modes)} : \E key \in {Keys[Pick(1..4)]} :
         LET k == IF mode = "hash" THEN "" ELSE key IN
         /\ h \notin DOMAIN hs \/ Pick(1..12) = 1
         /\ A!New(h, mode, k)
         /\ Log([op |-> "new", h |-> h, mode |-> mode, key |-> k])

Update == \E h \in DOMAIN hs : \E which \in {Pick(1..3)} :
          \E n \in {Pick(CASE which = 1 -> Small [] which = 2 -> Multiples [] OTHER -> ToBoundary(hs[h].msg))} :
          \E k \in {Pick({1, 2, 3, 4, 5, 0})} : \E how \in {Pick(1..6)} : \E al \in {Pick(0..40)} :
         /\ hs[h].msg + n <= MaxTotal
         /\ A!Update(h, k, n, n)
         /\ Log([op |-> "upd", h |-> h, k |-> k, n |-> n, al |-> IF al > 20 THEN 0 ELSE al,
                 how |-> IF Allow = "all" THEN <<"write", "write_all", "copy", "vectored", "update", "update">>[how] ELSE "update"])

Clone == /\ Allow # "ref"
         /\ \E h \in DOMAIN hs : \E h2 \in Handles :
              /\ h2 # h /\ (h2 \notin DOMAIN hs \/ Pick(1..6) = 1)
              /\ A!Clone(h, h2)
              /\ Log([op |-> "clone", h |-> h, h2 |-> h2])

Finalize == \E h \in DOMAIN hs : \E n \in {IF Allow = "ref" THEN Pick({0, 1, 31, 32, 33, 63, 64, 65, 128, 200}) ELSE 32} :
         /\ A!Finalize(h, n, "")
         /\ Log([op |-> "fin", h |-> h, n |-> n])

Xof == /\ Allow = "all"
       /\ \E h \in DOMAIN hs : \E o \in {Pick(Handles)} :
            /\ A!FinalizeXof(h, o)
            /\ Log([op |-> "xof", h |-> h, o |-> o])

Read == \E o \in DOMAIN os : \E n \in {Pick({1, 1, 2, 3, 8})} :
         /\ A!Read(o, n, "")
         /\ Log([op |-> "read", o |-> o, n |-> n])

ToHash == \E o \in DOMAIN os : A!ToHash(o, "") /\ Log([op |-> "tohash", o |-> o])

CloneOutput == \E o \in DOMAIN os : \E o2 \in {Pick(Handles)} :
         /\ o # o2
         /\ A!CloneOutput(o, o2)
         /\ Log([op |-> "cloneo", o |-> o, o2 |-> o2])

Closing == [i \in 1..Cardinality(DOMAIN hs) |->
              [op |-> "fin", n |-> 32,
               h |-> CHOOSE h \in DOMAIN hs : Cardinality({g \in DOMAIN hs : g < h}) = i - 1]]

\* The only way on from a full history, so that each behaviour is printed once.
Finish == /\ Len(hist) = Depth
          /\ hist' = Append(hist, [op |-> "end"])
          /\ PrintT(ToJson([ev |-> hist \o Closing]))
          /\ UNCHANGED << hs, os, text >>

Init == A!ApiInit /\ hist = << >>
Next == \/ /\ Len(hist) < Depth
           /\ \/ New \/ Clone \/ Finalize \/ Xof \/ Read \/ ToHash \/ CloneOutput
              \/ Update
              \/ (Pick(1..2) = 1 /\ Update)
        \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
