----------------------------- MODULE LeakTrace ------------------------------
(***************************************************************************)
(* Recorded courses of operations on secrets, checked against what Leak    *)
(* demands: a course (its numbers of instructions and accesses, and the    *)
(* sum over all of them in their order) is a matter of what is public      *)
(* only. Secrets are numbers here but for values compared; the results     *)
(* show that the operations did work on them.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l,
          course,     \* of what is public
          results     \* of what is public and the secret
vars == << t, l, course, results >>

Trace == Traces[t].ev
Ev == Trace[l]
Show(observed, expected) ==
  PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> expected]))
Agree(observed, expected) == IF observed = expected THEN TRUE ELSE Show(observed, expected) /\ FALSE
HasFailed(e) == \E k \in {"panic", "crash"} : k \in DOMAIN e

IsComparison(e) == e.op < 10
Asks(e) == IF e.op \in {1, 3} THEN e.key = e.other ELSE e.key # e.other
Public(e) == << e.op, e.n, e.len, IF IsComparison(e) THEN e.key = e.other ELSE TRUE >>
Course(e) == [steps |-> e.steps, accesses |-> e.accesses, walk |-> e.walk]

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev IN
     /\ IF HasFailed(e) THEN Show(e, "no panic, no crash") /\ FALSE ELSE TRUE
     /\ IF Public(e) \in DOMAIN course
        THEN Agree(Course(e), course[Public(e)]) /\ UNCHANGED course
        ELSE course' = (Public(e) :> Course(e)) @@ course
     /\ IF IsComparison(e)
        THEN Agree(e.is, Asks(e)) /\ UNCHANGED results
        ELSE LET known == IF Public(e) \in DOMAIN results THEN results[Public(e)] ELSE << >> IN
             /\ \A s \in DOMAIN known :
                  IF s = e.s THEN Agree(e.out, known[s])
                  ELSE IF e.out # known[s] THEN TRUE ELSE Show(e.out, "another result than that of secret " \o ToString(s)) /\ FALSE
             /\ results' = (Public(e) :> ((e.s :> e.out) @@ known)) @@ results

Done == l > Len(Trace) /\ UNCHANGED vars
Init == t \in 1..Len(Traces) /\ l = 1 /\ course = << >> /\ results = << >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
