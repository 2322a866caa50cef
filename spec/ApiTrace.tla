------------------------------ MODULE ApiTrace -----------------------------
(***************************************************************************)
(* Recorded uses of an implementation, checked against Api with the real   *)
(* hash function. Every trace is an initial state; a trace that the        *)
(* specification cannot follow to its end is a deadlock.                   *)
(***************************************************************************)
EXTENDS Hash32, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, hs, os, text
vars == << t, l, hs, os, text >>

NoPfx == [n |-> << >>]

RootNodeC(mode, key, prefix, segs) ==
  IF prefix = NoPfx
  THEN IF Len(segs) = 1 /\ Len(segs[1]) = 2 THEN RootOfMsg(mode, key, MsgHex(segs[1][2]))
       ELSE RootOf(mode, key, segs)
  ELSE RootFrom(mode, key, prefix.n, prefix.cvs, segs)

\* Amounts of bytes can go beyond TLC's integers: pairs of chunks and bytes.
AddToC(segs, kind, amount) == ExtendBy(segs, kind, amount[1], amount[2], CHUNK)
HashOfC(root, n) == Hex(Stream(root, 0, n))

RECURSIVE BlocksAt(_, _, _)
BlocksAt(root, pos, n) ==
  IF n = 1 THEN T!RootAt(root, pos)
  ELSE LET h == n \div 2
       IN  BlocksAt(root, pos, h) \o BlocksAt(root, Add4(pos, OutOffset(h)), n - h)
BlocksOfC(root, pos, n) == IF n = 0 THEN "" ELSE Hex(BlocksAt(root, pos, n))
BlockHashOfC(root, pos) == Hex(Half(T!RootAt(root, pos)))
AdvanceC(pos, n) == Add4(pos, OutOffset(n))

Trace == Traces[t].ev
Ev == Trace[l]

RECURSIVE SegsOf(_, _, _)
SegsOf(list, i, acc) ==
  IF i > Len(list) THEN acc
  ELSE SegsOf(list, i + 1, AddToC(acc, list[i][1],
                                  << IF Len(list[i]) = 3 THEN list[i][3] ELSE 0, list[i][2] >>))
Content(e) == SegsOf(e.segs, 1, << >>)

\* Say what the specification allows instead of what was observed.
Show(observed, expected) ==
  PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> expected]))
AgreeC(observed, expected) == IF observed = expected THEN TRUE ELSE Show(observed, expected) /\ FALSE

A == INSTANCE Api WITH
       Nothing <- << >>, AddTo <- AddToC, RootNode <- RootNodeC, HashOf <- HashOfC,
       BlocksOf <- BlocksOfC, BlockHashOf <- BlockHashOfC, Advance <- AdvanceC,
       Start <- W4(0), NoPrefix <- NoPfx,
       Agree <- AgreeC

\* A panic, a crash, or a write outside the buffers that were passed.
HasFailed(e) == \E k \in {"panic", "crash", "stray"} : k \in DOMAIN e

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Ev IN
     /\ IF HasFailed(e) THEN Show(e, "no panic, no crash, no stray write") /\ FALSE ELSE TRUE
     /\ CASE e.op = "new"    -> A!New(e.h, e.mode, Unhex(e.key))
          [] e.op = "ff"     -> A!SkipTo(e.h, [n |-> e.n, cvs |-> [k \in 1..Len(e.cvs) |-> Unhex(e.cvs[k])]])
          [] e.op = "upd"    -> LET nc == IF "nc" \in DOMAIN e THEN e.nc ELSE 0
                               IN  A!Update(e.h, e.k, << nc, e.n >>, << nc, e.ret >>)
          [] e.op = "clone"  -> A!Clone(e.h, e.h2)
          [] e.op = "fin"    -> A!Finalize(e.h, e.n, e.out)
          [] e.op = "xof"    -> A!FinalizeXof(e.h, e.o)
          [] e.op = "one"    -> A!OneShot(e.mode, Unhex(e.key), Content(e), e.n, e.out)
          [] e.op = "lit"    -> A!OneShot(e.mode, Unhex(e.key), << << "hex", e.data >> >>, e.n, e.out)
          [] e.op = "onexof" -> A!OneShotXof(e.mode, Unhex(e.key), Content(e), e.o)
          [] e.op = "read"   -> A!Read(e.o, e.n, e.out)
          [] e.op = "seek"   -> A!Seek(e.o, e.pos)
          [] e.op = "tohash" -> A!ToHash(e.o, e.out)
          [] e.op = "cloneo" -> A!CloneOutput(e.o, e.o2)
          [] e.op = "debug"  -> A!Debug(e.type, e.out)

Done == l > Len(Trace) /\ UNCHANGED vars

Init == t \in 1..Len(Traces) /\ l = 1 /\ A!ApiInit
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
