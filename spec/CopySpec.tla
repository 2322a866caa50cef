------------------------------- MODULE CopySpec ----------------------------
(***************************************************************************)
(* What copying from a reader to a writer has to look like to the two of   *)
(* them, and to the caller. How much is asked for at a time, and whether   *)
(* reading goes ahead of writing, is open.                                 *)
(*                                                                         *)
(* Amounts count from the beginning. `got` bytes have come from the reader *)
(* before its end or first real error, `put` of them have been accepted by *)
(* the writer, in order. An operation that was interrupted did not happen. *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS NoError, WriteZero,    \* a writer that accepts nothing fails with WriteZero
          DataOk(_, _, _)        \* accepted data, from position, length: is it what was read?

VARIABLES got, put,
          over,                  \* the reader has come to its end or failed
          rerr, werr,            \* the first real error of each
          result                 \* "none", or what the caller was told
copyVars == << got, put, over, rerr, werr, result >>

CopyInit == got = 0 /\ put = 0 /\ over = FALSE /\ rerr = NoError /\ werr = NoError /\ result = "none"

ReadData(n) ==
  /\ result = "none"
  /\ IF over THEN UNCHANGED << got, over >>           \* what comes after the end is not copied
     ELSE got' = got + n /\ over' = (n = 0)
  /\ UNCHANGED << put, rerr, werr, result >>

\* Many times in a row: n bytes came and were all written at once.
ReadAndWritten(n, times) ==
  /\ result = "none" /\ ~over /\ n > 0 /\ put = got
  /\ got' = got + times * n /\ put' = got'
  /\ UNCHANGED << over, rerr, werr, result >>

ReadFails(e) ==
  /\ result = "none"
  /\ over' = TRUE
  /\ rerr' = IF over THEN rerr ELSE e
  /\ UNCHANGED << got, put, werr, result >>

Interrupted == result = "none" /\ UNCHANGED copyVars

\* The writer was offered `len` bytes and accepted the first n of them.
WriteData(len, n, data) ==
  /\ result = "none"
  /\ n <= len
  /\ put + n <= got
  /\ DataOk(data, put, n)
  /\ put' = put + n
  /\ werr' = IF n = 0 /\ len > 0 /\ werr = NoError THEN WriteZero ELSE werr
  /\ UNCHANGED << got, over, rerr, result >>

WriteFails(e) ==
  /\ result = "none"
  /\ werr' = IF werr = NoError THEN e ELSE werr
  /\ UNCHANGED << got, put, over, rerr, result >>

Done(total) ==
  /\ result = "none"
  /\ over /\ rerr = NoError /\ werr = NoError
  /\ put = got /\ total = got
  /\ result' = "done"
  /\ UNCHANGED << got, put, over, rerr, werr >>

Failed(e) ==
  /\ result = "none"
  /\ \/ e = werr /\ werr # NoError
     \/ e = rerr /\ rerr # NoError /\ put = got       \* all before the error was delivered
  /\ result' = "failed"
  /\ UNCHANGED << got, put, over, rerr, werr >>
=============================================================================
