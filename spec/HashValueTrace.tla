--------------------------- MODULE HashValueTrace --------------------------
(***************************************************************************)
(* Recorded uses of hash values, checked against HashValue.                *)
(***************************************************************************)
EXTENDS Limbs, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, vals
vars == << t, l, vals >>

V == INSTANCE HashValue WITH Length <- 32, Alphabet <- 0..255, Handles <- {}

Trace == Traces[t].ev
Ev == Trace[l]
Show(observed, expected) ==
  PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> expected]))
Agree(observed, expected) == IF observed = expected THEN TRUE ELSE Show(observed, expected) /\ FALSE
HasFailed(e) == \E k \in {"panic", "crash", "stray"} : k \in DOMAIN e

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev IN
     /\ IF HasFailed(e) THEN Show(e, "no panic, no crash") /\ FALSE ELSE TRUE
     /\ CASE e.op = "hval" -> vals' = (e.v :> Unhex(e.bytes)) @@ vals
          [] e.op = "hshow" ->
               /\ Agree(e.as_bytes, Hex(V!AsBytes(vals[e.v])))
               /\ Agree(e.into, Hex(V!AsBytes(vals[e.v])))
               /\ Agree(e.copied, Hex(V!AsBytes(vals[e.v])))
               /\ Agree(e.hex, V!Shown(vals[e.v]))
               /\ Agree(e.debug, V!ShownDebug(vals[e.v]))
               /\ IF \E i \in 1..(Len(e.pretty) - 63) : SubSeq(e.pretty, i, i + 63) = V!Shown(vals[e.v]) THEN TRUE
                  ELSE Show(e, V!Shown(vals[e.v])) /\ FALSE
               /\ UNCHANGED vals
          [] e.op = "heq" ->
               /\ Agree(e.eq, vals[e.v] = vals[e.w])
               /\ Agree(e.eqa, vals[e.v] = vals[e.w])
               /\ Agree(e.ne, vals[e.v] # vals[e.w])
               /\ Agree(e.nea, vals[e.v] # vals[e.w])
               /\ UNCHANGED vals

Done == l > Len(Trace) /\ UNCHANGED vars
Init == t \in 1..Len(Traces) /\ l = 1 /\ vals = << >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
