------------------------------ MODULE CopyTrace ----------------------------
(***************************************************************************)
(* Recorded calls of a reader and a writer during one copy, and its result,*)
(* checked against CopySpec.                                               *)
(***************************************************************************)
EXTENDS Limbs, Content, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, got, put, over, rerr, werr, result
vars == << t, l, got, put, over, rerr, werr, result >>

CLEN == 2048
Kind == IF "units" \in DOMAIN Traces[t].ev[1] THEN 0 ELSE Traces[t].ev[1].k
RECURSIVE BytesFrom(_, _, _)
BytesFrom(kind, from, n) ==          \* of the reader's content, in hexadecimal
  IF n = 0 THEN ""
  ELSE LET b == from % CLEN
           k == IF n < CLEN - b THEN n ELSE CLEN - b
       IN  Hex(ContentBytes(<< << kind, 1000000, 0 >> >>, from \div CLEN, b, k, k)) \o BytesFrom(kind, from + k, n - k)

\* In a long copy of zeros (kind 0) amounts count units of 4096 bytes; one that is not a
\* whole number of them is odd.
Sp == INSTANCE CopySpec WITH
        NoError <- 0, WriteZero <- 1000,
        DataOk <- LAMBDA data, from, n : IF data[1] = 0 THEN data[2] = "zeros" ELSE data[2] = BytesFrom(data[1], from, n)

Log == Traces[t].ev[1].calls
Failing == \E k \in {"panic", "crash"} : k \in DOMAIN Traces[t].ev[1]
State == [read |-> got, written |-> put, reader_over |-> over, reader_error |-> rerr, writer_error |-> werr]
Show(expected) == PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l,
                                 call |-> IF Failing THEN Traces[t].ev[1] ELSE Log[l], expected |-> expected]))

Step ==
  /\ IF Failing THEN Show("no panic, no crash") /\ FALSE ELSE TRUE
  /\ l <= Len(Log)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Log[l]
         a == CASE "odd" \in DOMAIN e -> FALSE
                [] e.op = "both" -> Sp!ReadAndWritten(e.ret, e.times)
                [] e.op = "read" /\ "err" \in DOMAIN e -> IF e.err = 0 THEN Sp!Interrupted ELSE Sp!ReadFails(e.err)
                [] e.op = "read"                       -> Sp!ReadData(e.ret)
                [] e.op = "write" /\ "err" \in DOMAIN e -> IF e.err = 0 THEN Sp!Interrupted ELSE Sp!WriteFails(e.err)
                [] e.op = "write"                      -> Sp!WriteData(e.len, e.ret, << Kind, e.data >>)
                [] e.op = "done"                       -> Sp!Done(e.total)
                [] e.op = "failed"                     -> Sp!Failed(e.err)
     IN  a
\* Nothing else is allowed: a step that is not possible is reported.
Stuck == /\ ~Failing /\ l <= Len(Log) /\ ~ENABLED Step /\ Show(State) /\ FALSE
Finished == ~Failing /\ l > Len(Log) /\ result # "none" /\ UNCHANGED vars

Init == t \in 1..Len(Traces) /\ l = 1 /\ Sp!CopyInit
Next == Step \/ Finished \/ (Stuck /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
