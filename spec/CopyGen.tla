------------------------------- MODULE CopyGen -----------------------------
(***************************************************************************)
(* Behaviours of readers and writers for CopyWide: what each of them does  *)
(* on its successive calls. All short ones, or random long ones            *)
(* (-simulate). Past its end a script is at the end of the data, or        *)
(* accepts everything.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

MaxReader == atoi(IOEnv.READER)
MaxWriter == atoi(IOEnv.WRITER)
Random == IOEnv.RANDOM = "yes"

\* Error 0 is an interruption; a reader that returns nothing is at its end, a
\* writer that accepts nothing has failed.
ReaderSteps == { << "data", 1 >>, << "data", 700 >>, << "data", 17000 >>, << "data", 0 >>,
                 << "err", 0 >>, << "err", 1 >>, << "err", 7 >> }
WriterSteps == { << "data", 1 >>, << "data", 500 >>, << "data", 100000 >>, << "data", 0 >>,
                 << "err", 0 >>, << "err", 2 >>, << "err", 9 >> }
MoreReader == { << "data", n >> : n \in {2, 63, 2048, 8191, 8192, 8193, 16383, 16384, 16385, 30000} } \cup
              { << "err", 0 >>, << "data", 1 >>, << "data", 17 >>, << "data", 100 >> }
MoreWriter == { << "data", n >> : n \in {2, 63, 2048, 8191, 8192, 8193, 16383, 16384} } \cup
              { << "err", 0 >>, << "data", 100000 >>, << "data", 17 >> }
Late == {6, 8, 9}              \* when failures and ends may come in random ones

VARIABLES reader, writer, phase
vars == << reader, writer, phase >>

Init == reader = << >> /\ writer = << >> /\ phase = "reader"
RStep == /\ phase = "reader" /\ Len(reader) < MaxReader
         /\ \E s \in IF ~Random THEN ReaderSteps
                     ELSE { RandomElement(IF Len(reader) \in Late /\ RandomElement(1..3) = 1 THEN ReaderSteps ELSE MoreReader) } :
              reader' = Append(reader, s)
         /\ UNCHANGED << writer, phase >>
WStep == /\ phase = "writer" /\ Len(writer) < MaxWriter
         /\ \E s \in IF ~Random THEN WriterSteps
                     ELSE { RandomElement(IF Len(writer) \in Late /\ RandomElement(1..4) = 1 THEN WriterSteps ELSE MoreWriter) } :
              writer' = Append(writer, s)
         /\ UNCHANGED << reader, phase >>
Switch == phase = "reader" /\ (Random => Len(reader) = MaxReader) /\ phase' = "writer" /\ UNCHANGED << reader, writer >>
Finish == /\ phase = "writer" /\ (Random => Len(writer) = MaxWriter) /\ phase' = "end"
          /\ PrintT(ToJson([reader |-> reader, writer |-> writer]))
          /\ UNCHANGED << reader, writer >>
Next == RStep \/ WStep \/ Switch \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
