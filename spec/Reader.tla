------------------------------- MODULE Reader -------------------------------
(* Reading the sections of a GRIB2 file (src/reader.rs).                        *)
(*                                                                              *)
(* Twice: as the function Items from the file's octets to the items a section   *)
(* stream delivers, and as a state machine that reads through a source that     *)
(* returns any number of octets per call, may be interrupted and may fail.      *)
(* MCReader checks that the machine delivers Items under every schedule, and    *)
(* that Items inverts the encoding of messages; TraceReader holds the real      *)
(* reader against Items.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Magic,      \* octets a message starts with
  IS,         \* size of the indicator section
  VerPos,     \* position of the edition octet in it
  Version,    \* the edition read here
  LenPos,     \* position of the total length in it,
  LenN,       \*   and its number of octets
  HLen,       \* number of octets of a section's length field; its number follows
  EndMark,    \* the end section
  Window,     \* octets examined at a time while looking for a message
  MinSize(_), \* least size of section n, header included; 0 if there is no such section
  BodyOk(_, _, _), \* further demands of section n, at offset o of the octets
  Cap         \* numbers from Cap on are not told apart

HS == HLen + 1
ES == Len(EndMark)

At(f, p) == f[p + 1]                                  \* octet at offset p

RECURSIVE UCap(_, _, _)
\* the number in octets o..o+n-1, at most Cap
UCap(f, o, n) ==
  IF n = 0 THEN 0
  ELSE LET h == UCap(f, o, n - 1)
           b == At(f, o + n - 1)
       IN IF h > (Cap - b) \div 256 THEN Cap ELSE h * 256 + b

Matches(f, p, s) ==
  /\ p + Len(s) <= Len(f)
  /\ \A i \in 1..Len(s) : f[p + i] = s[i]

IsMagic(f, p) == p + IS <= Len(f) /\ Matches(f, p, Magic)

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

\* offset of the first message at or after p; -1 if there is none
NextMagic(f, p) ==
  LET S == {q \in p..(Len(f) - IS) : f[q + 1] = Magic[1] /\ IsMagic(f, q)}
  IN IF S = {} THEN -1 ELSE SetMin(S)

Sect(n, o, z, b) == [k |-> "sect", num |-> n, off |-> o, size |-> z, b |-> b]
End == [k |-> "end"]
Err == [k |-> "err"]

\* the number in octets o..o+n-1, of up to eight octets, as its last three octets and the others
Limbs(f, o, n) == IF n > 3 THEN <<UCap(f, o, n - 3), UCap(f, o + n - 3, 3)>> ELSE <<0, UCap(f, o, n)>>

\* the section at offset p is longer than what is left of the message at offset q
Exceeds(f, q, p) ==
  LET s == Limbs(f, p, HLen)
      t == Limbs(f, q + LenPos, LenN)
      c == s[2] + p - q
      hi == s[1] + c \div 16777216
  IN hi > t[1] \/ (hi = t[1] /\ c % 16777216 > t[2])

(* What is delivered from offset p on, with rest octets left of the message at  *)
(* offset m.                                                                    *)
(* wrap tells whether a total length that no file can have is refused at once.  *)
RECURSIVE From(_, _, _, _, _)
From(f, m, p, rest, wrap) ==
  IF rest = 0 THEN
    LET q == NextMagic(f, p) IN
    IF q < 0 THEN <<End>>
    ELSE LET total == UCap(f, q + LenPos, LenN) IN
      IF At(f, q + VerPos) # Version \/ total < IS \/ (wrap /\ total = Cap) THEN <<Err>>
      ELSE <<Sect(0, q, IS, 0)>> \o From(f, q, q + IS, total - IS, wrap)
  ELSE IF p >= Len(f) THEN <<End>>
  ELSE IF rest = ES THEN
    IF Matches(f, p, EndMark) THEN <<Sect(8, p, ES, -1)>> \o From(f, m, p + ES, 0, wrap)
    ELSE <<Err>>
  ELSE IF p + HS > Len(f) THEN <<Err>>
  ELSE LET size == UCap(f, p, HLen)
           num  == At(f, p + HLen)
       IN IF MinSize(num) = 0 \/ size < MinSize(num) \/ Exceeds(f, m, p) THEN <<Err>>
          ELSE IF num = 7 THEN <<Sect(7, p, size, 7)>> \o From(f, m, p + size, rest - size, wrap)
          ELSE IF p + size > Len(f) \/ ~BodyOk(f, num, p) THEN <<Err>>
          ELSE <<Sect(num, p, size, num)>> \o From(f, m, p + size, rest - size, wrap)

\* the items of a stream that starts at offset p; a total length of Cap or more is
\* found out at once or when the file ends, whichever the reader prefers
Items(f, p) == From(f, p, p, 0, FALSE)
ItemsW(f, p) == From(f, p, p, 0, TRUE)

------------------------------------------------------------------------------
(* The state machine.                                                           *)
VARIABLES
  file,     \* the octets
  pos,      \* cursor of the source
  rest,     \* octets left of the current message
  want,     \* number of octets the read in progress asks for
  buf,      \* octets it has obtained
  pc,       \* what it is for: "idle", "search", "end8", "head", "body", "done"
  head,     \* header of the section whose body is being read
  out,      \* items delivered
  faulted   \* whether the source has failed

mvars == <<file, pos, rest, want, buf, pc, head, out, faulted>>

MInit(F) ==
  /\ file \in F
  /\ pos = 0 /\ rest = 0 /\ want = 0 /\ buf = <<>> /\ pc = "idle"
  /\ head = <<0, 0>> /\ out = <<>> /\ faulted = FALSE

Start(w, q) == want' = w /\ buf' = <<>> /\ pc' = q /\ UNCHANGED <<file, pos, rest, head, out, faulted>>

\* the client asks for the next item
Ask ==
  /\ pc = "idle"
  /\ IF rest = 0 THEN Start(Window, "search")
     ELSE IF rest = ES THEN Start(ES, "end8")
     ELSE Start(HS, "head")

\* the source returns k octets
ReadSome(k) ==
  /\ pc \in {"search", "end8", "head", "body"} /\ Len(buf) < want /\ pos < Len(file)
  /\ k \in 1..(want - Len(buf)) /\ pos + k <= Len(file)
  /\ buf' = buf \o SubSeq(file, pos + 1, pos + k)
  /\ pos' = pos + k
  /\ UNCHANGED <<file, rest, want, pc, head, out, faulted>>

\* reading or seeking fails
Fault ==
  /\ pc \in {"search", "end8", "head", "body"}
  /\ out' = Append(out, Err) /\ pc' = "done" /\ faulted' = TRUE
  /\ UNCHANGED <<file, pos, rest, want, buf, head>>

Complete == Len(buf) = want \/ pos >= Len(file)

Deliver(x) == out' = Append(out, x) /\ pc' = IF x.k = "sect" THEN "idle" ELSE "done"

Keep == UNCHANGED <<file, faulted>>

Found == {i \in 0..(Len(buf) - IS) : Matches(buf, i, Magic)}

SearchDone ==
  /\ pc = "search" /\ Complete
  /\ IF Len(buf) < IS THEN Deliver(End) /\ UNCHANGED <<pos, rest, want, buf, head>>
     ELSE IF Found = {} THEN
       \* step back so that a message start across the boundary is seen
       /\ pos' = pos - IS + 1 /\ buf' = <<>> /\ want' = Window
       /\ UNCHANGED <<pc, out, rest, head>>
     ELSE LET i == SetMin(Found)
              total == UCap(buf, i + LenPos, LenN)
          IN /\ pos' = pos - Len(buf) + i + IS
             /\ IF At(buf, i + VerPos) # Version \/ total < IS
                THEN Deliver(Err) /\ UNCHANGED rest
                ELSE Deliver(Sect(0, pos' - IS, IS, 0)) /\ rest' = total - IS
             /\ UNCHANGED <<want, buf, head>>
  /\ Keep

End8Done ==
  /\ pc = "end8" /\ Complete
  /\ IF Len(buf) = 0 THEN Deliver(End) /\ UNCHANGED rest
     ELSE IF buf # EndMark THEN Deliver(Err) /\ UNCHANGED rest
     ELSE Deliver(Sect(8, pos - ES, ES, -1)) /\ rest' = 0
  /\ UNCHANGED <<pos, want, buf, head>> /\ Keep

HeadDone ==
  /\ pc = "head" /\ Complete
  /\ IF Len(buf) = 0 THEN Deliver(End) /\ UNCHANGED <<pos, rest, want, buf, head>>
     ELSE IF Len(buf) < HS THEN Deliver(Err) /\ UNCHANGED <<pos, rest, want, buf, head>>
     ELSE LET size == UCap(buf, 0, HLen)
              num == At(buf, HLen)
          IN IF MinSize(num) = 0 \/ size < MinSize(num) \/ size > rest
             THEN Deliver(Err) /\ UNCHANGED <<pos, rest, want, buf, head>>
             ELSE IF num = 7
             THEN /\ Deliver(Sect(7, pos - HS, size, 7))
                  /\ pos' = pos - HS + size /\ rest' = rest - size
                  /\ UNCHANGED <<want, buf, head>>
             ELSE /\ head' = <<size, num>> /\ want' = size - HS /\ buf' = <<>> /\ pc' = "body"
                  /\ UNCHANGED <<pos, rest, out>>
  /\ Keep

BodyDone ==
  /\ pc = "body" /\ Complete
  /\ IF Len(buf) < want \/ ~BodyOk(file, head[2], pos - head[1]) THEN Deliver(Err) /\ UNCHANGED rest
     ELSE /\ Deliver(Sect(head[2], pos - head[1], head[1], head[2]))
          /\ rest' = rest - head[1]
  /\ UNCHANGED <<pos, want, buf, head>> /\ Keep

\* (an interrupted read is tried again: it changes nothing)
MNext(K) ==
  \/ Ask
  \/ \E k \in K : ReadSome(k)
  \/ Fault
  \/ SearchDone \/ End8Done \/ HeadDone \/ BodyDone

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

\* Whatever the schedule: the items of the file, or a beginning of them and an error
Faithful ==
  LET want_ == Items(file, 0) IN
  /\ pc # "done" => Prefix(out, want_)
  /\ pc = "done" /\ ~faulted => out = want_
  /\ pc = "done" /\ faulted => /\ out[Len(out)] = Err
                               /\ Prefix(SubSeq(out, 1, Len(out) - 1), want_)

\* the cursor of the source is where the current message says it is
Position == pc = "idle" /\ out # <<>> => pos = out[Len(out)].off + out[Len(out)].size
Bounds == rest >= 0 /\ pos >= 0 /\ Len(buf) <= want
=============================================================================
