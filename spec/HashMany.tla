------------------------------ MODULE HashMany -----------------------------
(***************************************************************************)
(* Hashing many inputs of equal length several at a time: as long as there *)
(* are enough inputs left, a batch as wide as the widest vectors takes     *)
(* them, then narrower ones, then one at a time. All that a batch does is  *)
(* here as one step, together with the memory that it touches:             *)
(*                                                                         *)
(*  - it reads whole vectors of every block of its inputs, the key, and    *)
(*    the multiples of the counter step for its lanes (and the next one);  *)
(*  - every lane has its own counter, of two words;                        *)
(*  - results are collected word by word across lanes, and are written as  *)
(*    whole vectors after they have been transposed.                       *)
(*                                                                         *)
(* What has to come out is BackEnd: result i is that of input i with the   *)
(* counter off + i delta, and nothing else is read or written.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Degrees,         \* numbers of lanes, widest first, the last is 1
  MaxInputs, MaxBlocks,
  BlockWords, OutWords,
  Word,            \* a counter is two words of this many values
  Offsets, Deltas,
  Carry,           \* does the addition carry into the second word?
  Greedy           \* is the last batch allowed to be larger than what is left?

\* The lane counts of the back ends there are, for the configuration files.
L1 == << 1 >>
L21 == << 2, 1 >>
L41 == << 4, 1 >>
L421 == << 4, 2, 1 >>
L841 == << 8, 4, 1 >>
L16841 == << 16, 8, 4, 1 >>

VARIABLES n, blocks, off, delta,     \* the call
          next, level,               \* inputs done; position in Degrees
          counter,                   \* the counter of the next input
          reads,                     \* words read of inputs: << input, word >>
          steps,                     \* multiples of delta that were read
          out                        \* words written, in the order of addresses: << lane's input, word, counter >>
vars == << n, blocks, off, delta, next, level, counter, reads, steps, out >>

\* 64-bit counters, as two words.
Sum(c, k) == (c + (k * delta)) % (Word * Word)
Lane(c, k) == IF Carry THEN << Sum(c, k) % Word, Sum(c, k) \div Word >>
              ELSE << (c + (k * delta)) % Word, c \div Word >>
Value(p) == p[1] + Word * p[2]

Init == /\ n \in 0..MaxInputs /\ blocks \in 1..MaxBlocks
        /\ off \in Offsets /\ delta \in Deltas
        /\ off + n * delta < Word * Word
        /\ next = 0 /\ level = 1 /\ counter = off /\ reads = {} /\ steps = {} /\ out = << >>

\* A vector holds a word of every lane. D lanes hold D by D words of a block
\* after a transposition of D vectors with D words of one input each.
VecWords(d) == IF d = 1 THEN OutWords ELSE IF d > BlockWords THEN BlockWords ELSE d
LoadsOf(d, i) ==
  {<< i, b * BlockWords + v * VecWords(d) + w >> :
     b \in 0..(blocks - 1), v \in 0..(BlockWords \div VecWords(d) - 1), w \in 0..(VecWords(d) - 1)}

\* The OutWords vectors of results (one word of all lanes each) are transposed
\* in squares of d by d; what is stored is d words of one lane at a time.
\* Vector v of the transposed squares: lane v % d, words (v / d) d + 0..d-1.
Stored(d) ==
  [a \in 0..(d * OutWords - 1) |->
     LET lane == a \div OutWords
         word == a % OutWords
         square == word \div VecWords(d)        \* which vector of that lane
     IN  << next + lane, (square * VecWords(d)) + (word % VecWords(d)), Lane(counter, lane) >>]

Batch(d) ==
  /\ IF Greedy THEN n - next > 0 ELSE n - next >= d
  /\ next' = next + d
  /\ counter' = Sum(counter, d)
  /\ reads' = reads \cup UNION {LoadsOf(d, i) : i \in next..(next + d - 1)}
  /\ steps' = steps \cup (0..d)
  /\ out' = out \o [k \in 1..(d * OutWords) |-> Stored(d)[k - 1]]
  /\ UNCHANGED << n, blocks, off, delta, level >>
Narrower ==
  /\ n - next < Degrees[level] /\ level < Len(Degrees)
  /\ level' = level + 1
  /\ UNCHANGED << n, blocks, off, delta, next, counter, reads, steps, out >>

Next == Batch(Degrees[level]) \/ Narrower
Over == level = Len(Degrees) /\ next >= n
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Given == (0..(n - 1)) \X (0..(blocks * BlockWords - 1))

\* No read outside the inputs and the multiples of delta that are passed, no
\* write behind the last result.
InBounds == /\ reads \subseteq Given
            /\ steps \subseteq 0..Degrees[1]
            /\ Len(out) <= n * OutWords
\* In the end every byte has been read and every result written, once, at its
\* place, with its counter.
Complete == Over => reads = Given /\ Len(out) = n * OutWords
Right == \A a \in 1..Len(out) :
           LET i == (a - 1) \div OutWords
           IN  /\ out[a][1] = i /\ out[a][2] = (a - 1) % OutWords
               /\ Value(out[a][3]) = off + i * delta
Ends == <>Over
=============================================================================
