------------------------------ MODULE CopyWide -----------------------------
(***************************************************************************)
(* The algorithm of copy_wide: read into a buffer, write all of it, read   *)
(* again; over a reader and a writer that do anything an implementation of *)
(* these interfaces may do. It refines CopySpec.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Buf,                  \* size of the buffer
          MaxBytes,             \* the reader has no more than this
          MaxIntr,              \* interruptions; without a bound copying need not end
          RErrs, WErrs

VARIABLES pc, pos,              \* "read", "write", "end"; bytes read
          buf,                  \* what is left to be written of the buffer
          intr, out,            \* interruptions left; everything the writer accepted
          got, put, over, rerr, werr, result
vars == << pc, pos, buf, intr, out, got, put, over, rerr, werr, result >>

\* Bytes are their positions.
Sp == INSTANCE CopySpec WITH
        NoError <- 0, WriteZero <- 1000,
        DataOk <- LAMBDA data, from, n : data = [i \in 1..n |-> from + i]

Init == /\ pc = "read" /\ pos = 0 /\ buf = << >> /\ intr = MaxIntr /\ out = << >>
        /\ Sp!CopyInit

Read ==
  /\ pc = "read"
  /\ \/ /\ intr > 0 /\ intr' = intr - 1
        /\ Sp!Interrupted /\ UNCHANGED << pc, pos, buf, out >>
     \/ \E e \in RErrs : Sp!ReadFails(e) /\ pc' = "fail" /\ UNCHANGED << pos, buf, intr, out >>
     \/ \E n \in 0..Buf :
          /\ pos + n <= MaxBytes
          /\ Sp!ReadData(n)
          /\ pos' = pos + n
          /\ buf' = [i \in 1..n |-> pos + i]
          /\ pc' = IF n = 0 THEN "finish" ELSE "write"
          /\ UNCHANGED << intr, out >>

Write ==
  /\ pc = "write"
  /\ \/ /\ intr > 0 /\ intr' = intr - 1
        /\ Sp!Interrupted /\ UNCHANGED << pc, pos, buf, out >>
     \/ \E e \in WErrs : Sp!WriteFails(e) /\ pc' = "fail" /\ UNCHANGED << pos, buf, intr, out >>
     \/ \E n \in 0..Len(buf) :
          /\ Sp!WriteData(Len(buf), n, SubSeq(buf, 1, n))
          /\ out' = out \o SubSeq(buf, 1, n)
          /\ buf' = SubSeq(buf, n + 1, Len(buf))
          /\ pc' = IF n = 0 THEN "fail" ELSE IF n = Len(buf) THEN "read" ELSE "write"
          /\ UNCHANGED << pos, intr >>

Finish == /\ pc = "finish" /\ Sp!Done(pos) /\ pc' = "end" /\ UNCHANGED << pos, buf, intr, out >>
Fail == /\ pc = "fail"
        /\ Sp!Failed(IF werr # 0 THEN werr ELSE rerr)
        /\ pc' = "end" /\ UNCHANGED << pos, buf, intr, out >>

Next == Read \/ Write \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Each byte once and in order.
InOrder == out = [i \in 1..Len(out) |-> i] /\ Len(out) = put
\* Everything up to the end or the reader's error has arrived, unless it was
\* the writer that failed.
Complete == result # "none" => (Len(out) = got \/ werr # 0)
Honest == /\ result = "done" => rerr = 0 /\ werr = 0 /\ Len(out) = pos
          /\ result = "failed" => rerr # 0 \/ werr # 0
\* The algorithm is never stuck: what it does next is always allowed.
NotStuck == pc # "end" => ENABLED Next
Ends == <>(result # "none")
=============================================================================
