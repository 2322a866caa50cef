-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What can be learnt from watching a computation on secrets. A            *)
(* computation is watched step by step: which instruction it executes, and *)
(* which place in memory that one touches. Two runs go side by side on     *)
(* secrets of which everything public is the same: the operation, the      *)
(* lengths, and, of a comparison, its outcome. Nothing that is watched may *)
(* tell them apart, at any time. (What an instruction computes, and what   *)
(* is in memory, cannot be watched.)                                       *)
(*                                                                         *)
(* Comparisons of two values, over all positions or only up to the first   *)
(* difference, and chains of compressions of keyed messages, plain or with *)
(* a shortcut or a table.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Length, Alphabet, Program

VARIABLES secret,     \* of both runs: key or first value, message or second value
          run         \* of both: place in the program, position, state, what was watched
vars == << secret, run >>

Values == [1..Length -> Alphabet]
Secrets == [a : Values, b : Values]
Comparison == Program \in {"fold", "early", "halves"}

Outcome(s) == IF Comparison THEN s.a = s.b ELSE "a value nobody knows"

\* One step of a run r on the secret s: what is watched, and where it leads.
At(r, seen, more) == [r EXCEPT !.watched = Append(@, seen), !.i = more.i, !.state = more.state, !.pc = more.pc]
Goes(i, state, pc) == [i |-> i, state |-> state, pc |-> pc]
Differ(s, i) == IF s.a[i] = s.b[i] THEN 0 ELSE 1

\* Several differences are one.
Either(x, y) == IF x = 1 \/ y = 1 THEN 1 ELSE 0
Mix(x, y) == (x * 3 + y + 1) % 7

Step(r, s) ==
  CASE r.pc = "end" -> r
    [] r.pc # "end" /\ r.i > Length -> At(r, << "stop" >>, Goes(r.i, r.state, "end"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "fold" ->
         At(r, << "compare", r.i >>, Goes(r.i + 1, Either(r.state, Differ(s, r.i)), "go"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "early" ->
         At(r, << "compare", r.i >>, Goes(IF Differ(s, r.i) = 1 THEN Length + 1 ELSE r.i + 1, Differ(s, r.i), "go"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "halves" ->
         \* All of the first half, and then the second, if need be.
         At(r, << "compare", r.i >>,
            Goes(IF r.i = Length \div 2 /\ Either(r.state, Differ(s, r.i)) = 1 THEN Length + 1 ELSE r.i + 1,
                 Either(r.state, Differ(s, r.i)), "go"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "chain" ->
         At(r, << "load", r.i >>, Goes(r.i, r.state, "mix"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "skip" ->
         \* Nothing to do for a block of zeros.
         At(r, << "load", r.i >>, IF s.b[r.i] = 0 THEN Goes(r.i + 1, r.state, "go") ELSE Goes(r.i, r.state, "mix"))
    [] r.pc = "go" /\ r.i <= Length /\ Program = "table" ->
         At(r, << "load", r.i >>, Goes(r.i, r.state, "look"))
    [] r.pc = "look" /\ r.i <= Length ->
         At(r, << "table", s.b[r.i] >>, Goes(r.i, r.state, "mix"))
    [] r.pc = "mix" /\ r.i <= Length ->
         At(r, << "mix", r.i >>, Goes(r.i + 1, Mix(Mix(r.state, s.a[r.i]), s.b[r.i]), "go"))

Start == [pc |-> "go", i |-> 1, state |-> 0, watched |-> << >>]

Init == /\ secret \in {<< x, y >> : x \in Secrets, y \in Secrets}
        /\ Outcome(secret[1]) = Outcome(secret[2])
        /\ run = << Start, Start >>
Next == /\ \E j \in {1, 2} : run[j].pc # "end"
        /\ run' = << Step(run[1], secret[1]), Step(run[2], secret[2]) >>
        /\ UNCHANGED secret
Ended == (\A j \in {1, 2} : run[j].pc = "end") /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Ended]_vars /\ WF_vars(Next)

NothingLearnt == run[1].watched = run[2].watched
Decides == Comparison => \A j \in {1, 2} : run[j].pc = "end" => (run[j].state = 0 <=> secret[j].a = secret[j].b)
Ends == <>(\A j \in {1, 2} : run[j].pc = "end")
=============================================================================
