---------------------------- MODULE BackEndTrace ---------------------------
(***************************************************************************)
(* Recorded calls of back ends, checked against BackEnd. The calls of a    *)
(* trace are independent of each other.                                    *)
(***************************************************************************)
EXTENDS BackEnd, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l
vars == << t, l >>

Trace == Traces[t].ev
Ev == Trace[l]

Show(observed, expected) ==
  PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> expected]))
Agree(observed, expected) == IF observed = expected THEN TRUE ELSE Show(observed, expected) /\ FALSE

HasFailed(e) == \E k \in {"panic", "crash", "stray"} : k \in DOMAIN e

Compress(e) == Agree(e.out, Hex(CvOut(e.w, Unhex(e.cv), Unhex(e.block), e.blen, e.off, e.f)))
CompressXof(e) == Agree(e.out, Hex(XofOut(e.w, Unhex(e.cv), Unhex(e.block), e.blen, e.off, e.f)))
HashMany(e) ==
  /\ Agree(e.out, IF e.nin = 0 THEN ""
                  ELSE Hex(ManyOut(e.w, Unhex(e.cv), e.k, e.nin, e.bytes, e.off, e.delta, e.f, e.fs, e.fe)))
  /\ Agree(e.tail, IF e.spare = 0 THEN "" ELSE Hex(Untouched(e.spare)))

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev IN
     /\ IF HasFailed(e) THEN Show(e, "no panic, no crash, no stray write") /\ FALSE ELSE TRUE
     /\ CASE e.op = "compress" -> Compress(e)
          [] e.op = "cxof"     -> CompressXof(e)
          [] e.op = "many"     -> HashMany(e)

Done == l > Len(Trace) /\ UNCHANGED vars

Init == t \in 1..Len(Traces) /\ l = 1
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
