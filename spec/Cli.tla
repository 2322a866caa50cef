-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line tool as a state machine. An invocation is a list of    *)
(* options, a list of inputs and a standard input:                         *)
(*                                                                         *)
(*  - options are << name, value >>; there may be a length, and a key of   *)
(*    one kind, each once; or help or the version is asked for, and        *)
(*    nothing else. Anything else is not understood.                       *)
(*  - an input is "-", which is standard input, or a name; it has a        *)
(*    content or it cannot be read. Standard input has its content only    *)
(*    the first time.                                                      *)
(*                                                                         *)
(* The tool rejects the invocation, and then prints no digest and fails;   *)
(* or it prints one line for every input in order, the digest or an error, *)
(* and fails at the end if there was an error. Without inputs, it is as if *)
(* "-" were given, but the error is not a line on standard output. Asked   *)
(* for help or its version it prints that, no digest, and succeeds.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
  KeyOk(_), LengthOk(_),       \* are these strings what the options take?
  DigestOf(_, _, _, _),        \* mode, key, content, length -> text
  DefaultLength,
  DigestLine(_, _, _),         \* is a line this digest, with this name or ("") with none?
  ErrorLine(_, _),             \* is a line an error that has this name in it?
  NoDigest(_),                 \* does a line contain nothing like a digest?
  Broken                       \* the content of what cannot be read

VARIABLES
  opts, inputs, stdin,         \* the invocation; stdin is what is left of it
  next,                        \* the input that comes next
  failed,                      \* has an input failed?
  status                       \* "running", "rejected" or "ended"
cliVars == << opts, inputs, stdin, next, failed, status >>

Values(name) == {i \in 1..Len(opts) : opts[i][1] = name}
TheValue(name) == opts[CHOOSE i \in Values(name) : TRUE][2]
Given(name) == Values(name) # {}

Understood ==
  /\ \A i \in 1..Len(opts) : opts[i][1] \in {"length", "key", "derive-key"}
  /\ \A name \in {"length", "key", "derive-key"} : Cardinality(Values(name)) <= 1
  /\ ~(Given("key") /\ Given("derive-key"))
  /\ Given("length") => LengthOk(TheValue("length"))
Asked == inputs = << >> /\ Len(opts) = 1 /\ opts[1][1] \in {"help", "version"}
Acceptable ==
  /\ Understood
  /\ Given("key") => KeyOk(TheValue("key"))
  /\ Given("derive-key") => KeyOk(TheValue("derive-key"))

Mode == IF Given("key") THEN "keyed" ELSE IF Given("derive-key") THEN "derive" ELSE "hash"
Key == CASE Mode = "keyed" -> TheValue("key") [] Mode = "derive" -> TheValue("derive-key") [] OTHER -> ""
Length == IF Given("length") THEN TheValue("length") ELSE DefaultLength

Start(o, i, s) == /\ opts = o /\ inputs = i /\ stdin = s
                  /\ next = 1 /\ failed = FALSE /\ status = "running"

IsStdin(input) == input.name = "-"
ContentOf(input) == IF IsStdin(input) THEN stdin.content ELSE input.content
\* An interrupted or empty standard input stays so; a read one is empty.
Used == IF stdin.content = Broken THEN stdin ELSE [stdin EXCEPT !.content = stdin.empty]

\* Next line, given several inputs or one.
Line(text) ==
  /\ status = "running" /\ Acceptable
  /\ next <= Len(inputs)
  /\ LET input == inputs[next]
         c == ContentOf(input)
     IN  /\ IF c = Broken THEN ErrorLine(text, input.shown)
            ELSE DigestLine(text, DigestOf(Mode, Key, c, Length), IF Len(inputs) > 1 THEN input.shown ELSE "")
         /\ failed' = (failed \/ c = Broken)
         /\ stdin' = IF IsStdin(input) THEN Used ELSE stdin
  /\ next' = next + 1
  /\ UNCHANGED << opts, inputs, status >>

\* The line for standard input, if nothing else was given.
StdinLine(text) ==
  /\ status = "running" /\ Acceptable
  /\ inputs = << >> /\ next = 1 /\ stdin.content # Broken
  /\ DigestLine(text, DigestOf(Mode, Key, stdin.content, Length), "")
  /\ next' = 2
  /\ UNCHANGED << opts, inputs, stdin, failed, status >>

\* What is printed, if anything, about an invocation that is not acceptable,
\* or about standard input that cannot be read.
OtherLine(text) ==
  /\ status = "running"
  /\ ~Acceptable \/ (inputs = << >> /\ stdin.content = Broken)
  /\ NoDigest(text)
  /\ next' = IF Asked THEN 2 ELSE next
  /\ UNCHANGED << opts, inputs, stdin, failed, status >>

End(success) ==
  /\ status = "running"
  /\ IF Asked THEN next = 2 /\ success
     ELSE IF ~Acceptable THEN ~success
     ELSE IF inputs = << >> THEN IF stdin.content = Broken THEN ~success ELSE next = 2 /\ success
     ELSE next = Len(inputs) + 1 /\ (success <=> ~failed)
  /\ status' = IF Acceptable \/ Asked THEN "ended" ELSE "rejected"
  /\ UNCHANGED << opts, inputs, stdin, next, failed >>
=============================================================================
