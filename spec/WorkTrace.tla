----------------------------- MODULE WorkTrace ------------------------------
(***************************************************************************)
(* Measured costs of real calls, checked against the bounds of Work. A     *)
(* trace is about one kind of call; it grows from event to event. The      *)
(* first event is the smallest case, which the others are compared with.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l
vars == << t, l >>

W == INSTANCE Work WITH ChunkBlocks <- 1, MaxBlocks <- 0, Pieces <- {}, MaxCalls <- 0, Way <- "code",
                        blocks <- 0, stack <- << >>, here <- 0, work <- 0, calls <- 0, last <- 0

Trace == Traces[t].ev
Ev == Trace[l]
Show(observed, expected) ==
  PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, observed |-> observed, expected |-> expected]))
Holds(p, observed, what, than) == IF p THEN TRUE ELSE Show(observed, what \o " " \o ToString(than)) /\ FALSE
HasFailed(e) == \E k \in {"panic", "crash"} : k \in DOMAIN e

KiB(e) == e.len \div 1024
Rate(e) == e.steps \div KiB(e)

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev
         b == Trace[1] IN
     /\ IF HasFailed(e) THEN Show(e, "no panic, no crash") /\ FALSE ELSE TRUE
     /\ CASE e.rule = "proportional" -> Holds(W!Proportional(Rate(e), Rate(b)), Rate(e), "instructions for each KiB in proportion to", Rate(b))
          [] e.rule = "levels" ->
               Holds(W!Levels(e.steps, b.steps, W!Doublings(e.len, b.len)), e.steps, "instructions, a little more for each level than", b.steps)
          [] e.rule = "split" ->
               \* After a single chunk.
               IF l = 1 THEN TRUE
               ELSE Holds(W!Split(Rate(e), Rate(b), 1024 \div e.n, b.steps \div (b.len \div 64)), Rate(e),
                          "instructions for each KiB, little more in pieces than", Rate(b))
          [] e.rule = "room" ->
               /\ Holds(W!HeapRoom(e.heap, b.heap), e.heap, "bytes on the heap, hardly more than", b.heap)
               /\ Holds(W!StackRoom(e.stack, b.stack, W!Doublings(e.len, b.len)), e.stack, "bytes on the stack, hardly more than", b.stack)

Done == l > Len(Trace) /\ UNCHANGED vars
Init == t \in 1..Len(Traces) /\ l = 1
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
