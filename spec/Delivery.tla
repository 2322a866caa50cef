------------------------------ MODULE Delivery ------------------------------
(***************************************************************************)
(* A program prints Total bytes, some of which end lines, through a buffer *)
(* to a standard output that takes some bytes at a time, and from some     *)
(* point on no more. Whatever that point is, the program ends              *)
(* successfully if and only if all bytes were taken; what was taken is the *)
(* beginning of what was to be printed.                                    *)
(*                                                                         *)
(* Way is how the program does it: it looks at the outcome of every write  *)
(* ("code"); it does not ("ignore"); it does not for what is left in the   *)
(* buffer at the end ("drop"); it leaves that where it is ("leave"); or it *)
(* goes on with the next byte after a short write ("short").               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Totals, Capacity, Way

VARIABLES total, ends,      \* how many bytes, and which of them end lines
          room,             \* how many are taken
          printed,          \* how many went into the buffer
          buffer, taken,    \* the bytes there, and at their destination
          failed,           \* an error was noticed
          status            \* "running", "success" or "failure"
vars == << total, ends, room, printed, buffer, taken, failed, status >>

Init == /\ total \in Totals /\ ends \in SUBSET (1..total) /\ room \in 0..total
        /\ printed = 0 /\ buffer = << >> /\ taken = << >> /\ failed = FALSE /\ status = "running"

\* The buffer has to be emptied: it is full, or a line or everything is complete.
AtEnd == printed = total
Due == buffer # << >> /\ (Len(buffer) = Capacity \/ buffer[Len(buffer)] \in ends \/ (AtEnd /\ Way # "leave"))

Print == /\ status = "running" /\ ~failed /\ ~Due /\ ~AtEnd
         /\ printed' = printed + 1 /\ buffer' = Append(buffer, printed + 1)
         /\ UNCHANGED << total, ends, room, taken, failed, status >>

Write == /\ status = "running" /\ ~failed /\ Due
         /\ \/ \E k \in 1..Len(buffer) :
                 /\ Len(taken) + k <= room
                 /\ taken' = taken \o SubSeq(buffer, 1, k)
                 /\ buffer' = IF Way = "short" THEN << >> ELSE SubSeq(buffer, k + 1, Len(buffer))
                 /\ UNCHANGED failed
            \/ /\ Len(taken) = room
               /\ LET unnoticed == Way = "ignore" \/ (Way = "drop" /\ AtEnd)
                  IN  failed' = ~unnoticed /\ buffer' = IF unnoticed THEN << >> ELSE buffer
               /\ UNCHANGED taken
         /\ UNCHANGED << total, ends, room, printed, status >>

End == /\ status = "running"
       /\ failed \/ (AtEnd /\ ~Due)
       /\ status' = IF failed THEN "failure" ELSE "success"
       /\ UNCHANGED << total, ends, room, printed, buffer, taken, failed >>

Next == Print \/ Write \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
SuccessMeansTaken == status = "success" => taken = [i \in 1..total |-> i]
FailureMeansFull == status = "failure" => room < total
Beginning == taken = [i \in 1..Len(taken) |-> i]
Ends == <>(status # "running")

\* What this comes to for a whole run, of which is known what it should print,
\* whether it should succeed then, at least and at most how much is taken, what
\* was taken, and whether it did succeed.
IsBeginning(s, full) == Len(s) <= Len(full) /\ s = SubSeq(full, 1, Len(s))
Allowed(full, should, least, most, text, success) ==
  /\ IsBeginning(text, full)
  /\ success => should /\ Len(full) <= most
  /\ Len(full) <= least => text = full /\ (success <=> should)
=============================================================================
