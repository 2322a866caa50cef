-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The hashing API as a state machine over handles. A hasher stands for    *)
(* the message it has been given so far and nothing else; an extensible    *)
(* output stands for a root node and a position. How an implementation     *)
(* represents either is not visible here, and neither is how a message     *)
(* was cut into updates.                                                   *)
(*                                                                         *)
(* The observable results are parameters of the actions: an action is      *)
(* enabled only for the result that the specification gives.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS
  Nothing,                  \* the empty content
  AddTo(_, _, _),           \* content, kind, number of bytes -> longer content
  RootNode(_, _, _, _),     \* mode, key, prefix, content -> root node
  HashOf(_, _),             \* root node, number of bytes -> the hash, as observed
  BlocksOf(_, _, _),        \* root node, position, blocks -> output, as observed
  BlockHashOf(_, _),        \* root node, position -> 32 bytes there, as observed
  Advance(_, _),            \* position, blocks -> position
  Start,                    \* the first position
  NoPrefix,
  Agree(_, _)               \* the observed result is the specified one

VARIABLES hs, os,           \* hashers and outputs by handle
          text              \* Debug text by type of value, once seen
apiVars == << hs, os, text >>

ApiInit == hs = << >> /\ os = << >> /\ text = << >>

Put(f, h, v) == (h :> v) @@ f

RootOfH(h) == RootNode(hs[h].mode, hs[h].key, hs[h].prefix, hs[h].msg)

New(h, mode, key) ==
  /\ hs' = Put(hs, h, [mode |-> mode, key |-> key, msg |-> Nothing, prefix |-> NoPrefix])
  /\ UNCHANGED << os, text >>

\* Move a fresh hasher behind a prefix known only by its subtrees.
SkipTo(h, prefix) ==
  /\ hs[h].msg = Nothing /\ hs[h].prefix = NoPrefix
  /\ hs' = [hs EXCEPT ![h].prefix = prefix]
  /\ UNCHANGED << os, text >>

\* An update, or a write, which always accepts everything.
Update(h, kind, n, accepted) ==
  /\ Agree(accepted, n)
  /\ hs' = [hs EXCEPT ![h].msg = AddTo(@, kind, n)]
  /\ UNCHANGED << os, text >>

Clone(h, h2) == hs' = Put(hs, h2, hs[h]) /\ UNCHANGED << os, text >>

Finalize(h, n, out) == Agree(out, HashOf(RootOfH(h), n)) /\ UNCHANGED apiVars

FinalizeXof(h, o) ==
  os' = Put(os, o, [root |-> RootOfH(h), pos |-> Start]) /\ UNCHANGED << hs, text >>

OneShot(mode, key, msg, n, out) ==
  Agree(out, HashOf(RootNode(mode, key, NoPrefix, msg), n)) /\ UNCHANGED apiVars

OneShotXof(mode, key, msg, o) ==
  /\ os' = Put(os, o, [root |-> RootNode(mode, key, NoPrefix, msg), pos |-> Start])
  /\ UNCHANGED << hs, text >>

Read(o, n, out) ==          \* n consecutive reads
  /\ Agree(out, BlocksOf(os[o].root, os[o].pos, n))
  /\ os' = [os EXCEPT ![o].pos = Advance(@, n)]
  /\ UNCHANGED << hs, text >>

Seek(o, pos) == os' = [os EXCEPT ![o].pos = pos] /\ UNCHANGED << hs, text >>

ToHash(o, out) == Agree(out, BlockHashOf(os[o].root, os[o].pos)) /\ UNCHANGED apiVars

CloneOutput(o, o2) == os' = Put(os, o2, os[o]) /\ UNCHANGED << hs, text >>

\* Debug text says nothing about the value: it is the same for all values of
\* a type.
Debug(type, out) ==
  /\ type \in DOMAIN text => Agree(out, text[type])
  /\ text' = Put(text, type, out)
  /\ UNCHANGED << hs, os >>
=============================================================================
