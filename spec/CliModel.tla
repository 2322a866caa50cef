------------------------------ MODULE CliModel -----------------------------
(***************************************************************************)
(* Cli with abstract contents and digests, for every invocation of a       *)
(* bounded size, and what a user concludes from the output alone. Every    *)
(* invocation is also printed as a test case if Emit is TRUE.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInputs, MaxOpts, Emit

Names == {"a", "b", "gone", "-"}
Contents == [a |-> "A", b |-> "", gone |-> "broken"]
StdinContents == {"S", "", "broken"}
Input(n) == [name |-> n, shown |-> n, content |-> IF n = "-" THEN "" ELSE Contents[n]]
OptValues == { << "key", "good" >>, << "key", "bad" >>, << "derive-key", "good" >>, << "derive-key", "bad" >>,
               << "length", "5" >>, << "length", "x" >>, << "other", "" >>,
               << "help", "" >>, << "version", "" >> }

VARIABLES opts, inputs, stdin, next, failed, status,
          given, output              \* the standard input at first; the lines printed
vars == << opts, inputs, stdin, next, failed, status, given, output >>

C == INSTANCE Cli WITH
       KeyOk <- LAMBDA k : k = "good", LengthOk <- LAMBDA n : n = "5",
       DigestOf <- LAMBDA mode, key, content, len : << "digest", mode, key, content, len >>,
       DefaultLength <- "32",
       DigestLine <- LAMBDA line, digest, name : line = << "digest line", digest, name >>,
       ErrorLine <- LAMBDA line, name : line = << "error line", name >>,
       NoDigest <- LAMBDA line : line = << "usage" >>,
       Broken <- "broken"

SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}

Init == \E o \in SeqsUpTo(OptValues, MaxOpts) : \E i \in SeqsUpTo(Names, MaxInputs) : \E s \in StdinContents :
          /\ Len(o) <= 1 \/ Len(i) <= 2
          /\ C!Start(o, [k \in 1..Len(i) |-> Input(i[k])], [content |-> s, empty |-> ""])
          /\ given = s /\ output = << >>
          /\ Emit => PrintT(ToJson([opts |-> o, inputs |-> i, stdin |-> s]))

\* Every line that could be printed here, right or wrong.
Digests == {<< "digest", m, k, c, n >> : m \in {"hash", "keyed", "derive"}, k \in {"", "good", "bad"},
                                         c \in {"A", "", "S", "broken"}, n \in {"5", "32"}}
NamesHere == {""} \cup IF next <= Len(inputs) THEN {inputs[next].name} ELSE {}
Lines == {<< "digest line", d, n >> : d \in Digests, n \in NamesHere}
           \cup {<< "error line", n >> : n \in NamesHere} \cup {<< "usage" >>}
PrintLine == \E line \in Lines :
           /\ C!Line(line) \/ C!StdinLine(line) \/ (C!OtherLine(line) /\ output = << >>)
           /\ output' = Append(output, line)
Stop == (C!End(TRUE) \/ C!End(FALSE)) /\ UNCHANGED output
Next == (PrintLine \/ Stop) /\ UNCHANGED given
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == status # "running"
IsDigest(line) == line[1] = "digest line"

\* One line for each input, in order and with its name.
OneLineEach == Over /\ C!Acceptable /\ Len(inputs) > 0 =>
                 /\ Len(output) = Len(inputs)
                 /\ \A i \in 1..Len(inputs) :
                      LET broken == IF inputs[i].name = "-" THEN given = "broken" ELSE inputs[i].content = "broken"
                      IN  IF broken THEN output[i] = << "error line", inputs[i].name >>
                          ELSE output[i][1] = "digest line" /\ (Len(inputs) > 1 => output[i][3] = inputs[i].name)
\* The line of a file is the same whatever the other inputs are.
OnItsOwn == \A i \in 1..Len(output) :
              IsDigest(output[i]) /\ Len(inputs) > 0 /\ inputs[i].name # "-" =>
                output[i][2][4] = inputs[i].content
\* Standard input is hashed once, and then there is nothing left.
StdinOnce == \A i \in 1..Len(output) :
              IsDigest(output[i]) /\ Len(inputs) > 0 /\ inputs[i].name = "-" =>
                output[i][2][4] = IF \E j \in 1..(i - 1) : inputs[j].name = "-" THEN "" ELSE given
\* No digest unless the key is one, and then a digest with this key.
KeyedOrNothing ==
  \A i \in 1..Len(output) : IsDigest(output[i]) =>
     /\ \A k \in 1..Len(opts) : opts[k] # << "key", "bad" >> /\ opts[k] # << "derive-key", "bad" >> /\ opts[k][1] \notin {"other", "help", "version"}
     /\ output[i][2][2] = IF \E k \in 1..Len(opts) : opts[k][1] = "key" THEN "keyed"
                          ELSE IF \E k \in 1..Len(opts) : opts[k][1] = "derive-key" THEN "derive" ELSE "hash"
Ends == <>Over
\* (To print the invocations and leave it at that.)
Cases == Init /\ [][UNCHANGED vars]_vars
=============================================================================
