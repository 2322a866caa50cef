----------------------------- MODULE Processors -----------------------------
(***************************************************************************)
(* Choosing a back end on a processor. A processor has some of the         *)
(* extensions of the instruction set; each comes with those before it (a   *)
(* processor with AVX2 has SSE4.1, by its maker's word). Every hasher, and *)
(* every call of a one-shot function, asks which back end to use and keeps *)
(* to it; a back end does its work in groups as large as its lanes, and    *)
(* leaves what is left over, single compressions and output to narrower    *)
(* ones. No instruction may be executed that the processor does not have,  *)
(* whatever is asked for.                                                  *)
(*                                                                         *)
(* Tests gives the extension that is asked about before a back end is      *)
(* chosen, Uses those that its parts are made of.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Tests,      \* back end -> extension
          Uses,       \* part -> extension
          MaxInputs

Extensions == << "base", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512" >>
Rank(e) == CHOOSE i \in DOMAIN Extensions : Extensions[i] = e
Has(cpu, e) == Rank(e) <= cpu

BackEnds == << "avx2", "sse41", "portable" >>      \* in this order
Lanes == [avx2 |-> 8, sse41 |-> 4, portable |-> 1]

VARIABLES cpu,        \* how many of the extensions there are
          hashers,    \* their back ends
          executed    \* extensions of the instructions executed
vars == << cpu, hashers, executed >>

Chosen == BackEnds[CHOOSE i \in DOMAIN BackEnds :
                      /\ Has(cpu, Tests[BackEnds[i]])
                      /\ \A j \in 1..i - 1 : ~Has(cpu, Tests[BackEnds[j]])]

\* The parts that go into hashing n inputs together: groups of eight, then
\* groups of four, then one by one.
RECURSIVE Parts(_, _)
Parts(b, n) ==
  IF n = 0 THEN {}
  ELSE IF b = "portable" THEN {"one"}
  ELSE IF n >= Lanes[b] THEN {"many-" \o b} \cup Parts(b, n - Lanes[b])
  ELSE IF b = "avx2" THEN Parts("sse41", n)
  ELSE {"one-sse41"}
\* One compression, of a block or for output.
Single(b) == IF b = "portable" THEN {"one"} ELSE {"one-sse41"}

Run(parts) == executed' = executed \cup {Uses[p] : p \in parts}

Init == /\ cpu \in DOMAIN Extensions
        /\ hashers = << >> /\ executed = {}

New == /\ Len(hashers) < 2
       /\ hashers' = Append(hashers, Chosen)
       /\ UNCHANGED << cpu, executed >>
OneShot(n) == /\ Run(Parts(Chosen, n) \cup Single(Chosen))
              /\ UNCHANGED << cpu, hashers >>
Update(h, n) == /\ Run(Parts(hashers[h], n))
                /\ UNCHANGED << cpu, hashers >>
Block(h) == /\ Run(Single(hashers[h]))
            /\ UNCHANGED << cpu, hashers >>

Next == \/ New
        \/ \E n \in 0..MaxInputs : OneShot(n)
        \/ \E h \in DOMAIN hashers : Block(h) \/ \E n \in 0..MaxInputs : Update(h, n)
Spec == Init /\ [][Next]_vars

OnlyWhatIsThere == \A e \in executed : Has(cpu, e)
\* And the back end is the widest that there can be.
Widest == \A h \in DOMAIN hashers : \A i \in DOMAIN BackEnds :
            (\A p \in {"many-" \o BackEnds[i]} \cap DOMAIN Uses : Has(cpu, Uses[p])) =>
               \/ BackEnds[i] = "portable"
               \/ Lanes[hashers[h]] >= Lanes[BackEnds[i]]

\* As the code has it, and variants of it that are wrong.
CodeTests == [avx2 |-> "avx2", sse41 |-> "sse4.1", portable |-> "base"]
CodeUses == [p \in {"many-avx2", "many-sse41", "one-sse41", "one"} |->
               CASE p = "many-avx2" -> "avx2" [] p = "one" -> "base" [] OTHER -> "sse4.1"]
TestsAvx == [CodeTests EXCEPT !["avx2"] = "avx"]
TestsSsse3 == [CodeTests EXCEPT !["sse41"] = "ssse3"]
UsesSse42 == [CodeUses EXCEPT !["one-sse41"] = "sse4.2"]
UsesWide == [CodeUses EXCEPT !["many-avx2"] = "avx512"]
UsesHere == [CodeUses EXCEPT !["one"] = "ssse3"]
=============================================================================
