--------------------------- MODULE DeliveryTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the command-line tool, each with a standard output     *)
(* that takes everything and with one that does not, checked against       *)
(* Delivery.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l
vars == << t, l >>

D == INSTANCE Delivery WITH Totals <- {0}, Capacity <- 1, Way <- "code", total <- 0, ends <- {}, room <- 0, printed <- 0,
                            buffer <- << >>, taken <- << >>, failed <- FALSE, status <- "running"

Trace == Traces[t].ev
Ev == Trace[l]
Show(expected) == PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> expected]))

\* A pipe takes what its reader does, and some more. Of one that does not block,
\* nobody reads in time.
Least(e) == CASE e.sink \in {"file", "pipe"} -> e.room [] OTHER -> 0
Most(e) == CASE e.sink = "file" -> e.room
             [] e.sink = "pipe" -> e.room + e.capacity
             [] e.sink = "nonblocking" -> e.capacity
             [] OTHER -> 0

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev IN
     IF "all" \notin DOMAIN e \/ "some" \notin DOMAIN e THEN Show("an end") /\ FALSE
     ELSE IF D!Allowed(e.all.text, e.all.success, Least(e), Most(e), e.some.text, e.some.success) THEN TRUE
     ELSE Show([all |-> Len(e.all.text), least |-> Least(e), most |-> Most(e)]) /\ FALSE

Done == l > Len(Trace) /\ UNCHANGED vars
Init == t \in 1..Len(Traces) /\ l = 1
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
