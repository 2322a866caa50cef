------------------------------ MODULE CliTrace -----------------------------
(***************************************************************************)
(* Recorded invocations of the command-line tool, checked against Cli with *)
(* the real hash function: what was on the command line, every line that   *)
(* came out, and the exit status.                                          *)
(***************************************************************************)
EXTENDS Hash32, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, opts, inputs, stdin, next, failed, status
vars == << t, l, opts, inputs, stdin, next, failed, status >>

HexSigns == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Decimals == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
CharAt(s, i) == SubSeq(s, i, i)
DigitValue(d) == CHOOSE v \in 0..9 : ToString(v) = d

IsHex(s) == \A i \in 1..Len(s) : CharAt(s, i) \in HexSigns
KeyOkC(k) == Len(k) = 64 /\ IsHex(k)

\* Numbers as four limbs (see Limbs); those from 2^64 on are too large.
RECURSIVE Decimal(_, _, _)
TimesTenPlus(w, d) ==
  LET a == w[1] * 10 + d
      b == w[2] * 10 + (a \div LIMB)
      c == w[3] * 10 + (b \div LIMB)
      e == w[4] * 10 + (c \div LIMB)
  IN  << a % LIMB, b % LIMB, c % LIMB, e >>
Decimal(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET w == TimesTenPlus(acc, DigitValue(CharAt(s, i)))
       IN  IF w[4] >= LIMB THEN << >> ELSE Decimal(s, i + 1, w)
IsDecimal(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : CharAt(s, i) \in Decimals
LengthOkC(s) == IsDecimal(s) /\ Decimal(s, 1, W4(0)) # << >>
BytesAsked(s) == Decimal(s, 1, W4(0))
AtMost(a, b) == a = b \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in (i + 1)..4 : a[j] = b[j]
Small(w) == w[3] = 0 /\ w[4] = 0 /\ w[2] < 32768
Int(w) == w[1] + LIMB * w[2]

RECURSIVE SegsOf(_, _, _)
SegsOf(list, i, acc) ==
  IF i > Len(list) THEN acc
  ELSE SegsOf(list, i + 1, ExtendBy(acc, list[i][1], IF Len(list[i]) = 3 THEN list[i][3] ELSE 0, list[i][2], CHUNK))

BrokenC == << << "broken" >> >>
ContentC(c) == CASE "broken" \in DOMAIN c -> BrokenC
                 [] "hex" \in DOMAIN c    -> << << "hex", c.hex >> >>
                 [] OTHER                 -> SegsOf(c.segs, 1, << >>)
RootC(mode, key, content) ==
  IF Len(content) = 1 /\ Len(content[1]) = 2 THEN RootOfMsg(mode, Unhex(key), MsgHex(content[1][2]))
  ELSE RootOf(mode, Unhex(key), content)

\* A digest is the root and the number of bytes asked for.
DigestC(mode, key, content, length) == << RootC(mode, key, content), BytesAsked(length) >>

RECURSIVE BlocksAt(_, _, _)
BlocksAt(root, pos, n) ==
  IF n = 1 THEN T!RootAt(root, pos)
  ELSE LET h == n \div 2
       IN  BlocksAt(root, pos, h) \o BlocksAt(root, Add4(pos, OutOffset(h)), n - h)
\* n bytes from a position that is a multiple of 64.
BytesAt(root, pos, n) == IF n = 0 THEN << >>
                         ELSE SubSeq(BlocksAt(root, pos, (n + 63) \div 64), 1, n)

Blank == {" ", "\t", "*"}
\* Digest, white space, name; or the digest alone.
Named(rest, name) ==
  IF name = "" THEN rest = ""
  ELSE LET k == Len(rest) - Len(name)
       IN  /\ k >= 1 /\ SubSeq(rest, k + 1, Len(rest)) = name
           /\ \A i \in 1..k : CharAt(rest, i) \in Blank

\* A line is recorded whole, or (long ones) as what it begins with, where the
\* rest would go on, and what follows from a later position on. One that was
\* not waited for has only a beginning.
DigestLineC(e, d, name) ==
  CASE "unfinished" \in DOMAIN e -> FALSE
    [] "cut" \in DOMAIN e ->
         /\ AtMost(W4(Len(e.text) \div 2), d[2])
         /\ e.text = Hex(Stream(d[1], 0, Len(e.text) \div 2))
    [] "at" \in DOMAIN e ->
         LET k == Len(e.tail) - Len(name) - (IF name = "" THEN 0 ELSE 2)
         IN  /\ e.text = Hex(Stream(d[1], 0, Len(e.text) \div 2))
             /\ k >= 0 /\ Add4(e.at, W4(k \div 2)) = d[2]
             /\ SubSeq(e.tail, 1, k) = Hex(BytesAt(d[1], e.at, k \div 2))
             /\ Named(SubSeq(e.tail, k + 1, Len(e.tail)), name)
    [] OTHER ->
         /\ Small(d[2]) /\ Int(d[2]) < 10000000
         /\ LET n == 2 * Int(d[2])
            IN  /\ Len(e.text) >= n
                /\ SubSeq(e.text, 1, n) = Hex(Stream(d[1], 0, Int(d[2])))
                /\ Named(SubSeq(e.text, n + 1, Len(e.text)), name)

Contains(s, part) == \E i \in 0..(Len(s) - Len(part)) : SubSeq(s, i + 1, i + Len(part)) = part
\* Hexadecimal digits on their own, so many that it can be no accident; or
\* nothing but hexadecimal digits.
Space(s, i) == i < 1 \/ i > Len(s) \/ CharAt(s, i) \in Blank
Long == 16
NoDigestC(e) == /\ e.text = "" \/ ~IsHex(e.text)
                /\ \A i \in 1..Len(e.text) :
                     ~ /\ Space(e.text, i - 1)
                       /\ i + Long - 1 <= Len(e.text) /\ IsHex(SubSeq(e.text, i, i + Long - 1))
                       /\ \A j \in (i + Long)..Len(e.text) :
                            CharAt(e.text, j) \in HexSigns \/ \E k \in (i + Long)..j : Space(e.text, k)
ErrorLineC(e, name) == /\ DOMAIN e \cap {"cut", "at", "unfinished"} = {}
                       /\ Contains(e.text, name) /\ e.text # name /\ ~IsHex(e.text)

C == INSTANCE Cli WITH
       KeyOk <- KeyOkC, LengthOk <- LengthOkC, DigestOf <- DigestC, DefaultLength <- "32",
       DigestLine <- DigestLineC, ErrorLine <- ErrorLineC, NoDigest <- NoDigestC, Broken <- BrokenC

Trace == Traces[t].ev
Ev == Trace[l]

\* What the specification has to say about a step that it does not allow.
NextContent == IF inputs = << >> THEN stdin.content
               ELSE IF next <= Len(inputs) THEN C!ContentOf(inputs[next]) ELSE BrokenC
Expected ==
  IF l = 1 THEN "an invocation"
  ELSE [acceptable |-> C!Acceptable, next |-> next, inputs |-> Len(inputs), failed |-> failed,
        wanted |-> IF C!Acceptable /\ NextContent # BrokenC
                   THEN Hex(Stream(RootC(C!Mode, C!Key, NextContent), 0, 64))
                   ELSE "no digest"]
Show == PrintT(ToJson([mismatch |-> Traces[t].id, event |-> l, call |-> Ev, expected |-> Expected]))

StartStep ==
  LET ins == [i \in 1..Len(Ev.inputs) |-> [name |-> Ev.inputs[i].name, shown |-> Ev.inputs[i].shown,
                                           content |-> ContentC(Ev.inputs[i].content)]]
  IN  /\ opts' = Ev.opts /\ inputs' = ins /\ stdin' = [content |-> ContentC(Ev.stdin), empty |-> << >>]
      /\ next' = 1 /\ failed' = FALSE /\ status' = "running"
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ t' = t
  /\ CASE Ev.op = "start" -> StartStep
       [] Ev.op = "line"  -> C!Line(Ev) \/ C!StdinLine(Ev) \/ C!OtherLine(Ev)
       [] Ev.op = "end"   -> C!End(Ev.success)
       [] OTHER           -> FALSE              \* hung
Stuck == l <= Len(Trace) /\ ~ENABLED Step /\ Show /\ FALSE
Done == l > Len(Trace) /\ UNCHANGED vars

Init == t \in 1..Len(Traces) /\ l = 1 /\ C!Start(<< >>, << >>, [content |-> BrokenC, empty |-> << >>])
Next == Step \/ Done \/ (Stuck /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
