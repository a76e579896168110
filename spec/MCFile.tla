------------------------------- MODULE MCFile -------------------------------
(* Every small file: up to two messages out of Shapes, with each of Gaps before, *)
(* between and after them, whose section bodies look like starts and ends of     *)
(* messages.  Reading inverts encoding; each file is emitted with what must be   *)
(* delivered.                                                                    *)
EXTENDS Grib2File, TLC, Json

CONSTANTS MaxMsgs, Rich

G == <<71, 82, 73, 66>>
Pad(n) == [i \in 1..n |-> G[((i - 1) % 4) + 1]]
Sevens4(n) == [i \in 1..n |-> 55]

S(n, b) == [num |-> n, body |-> b]
S1 == S(1, Pad(16))
S2(k) == S(2, Pad(k))
S3 == S(3, Pad(9))
S4 == S(4, Sevens4(4))
S5 == S(5, Pad(6))
S6 == S(6, <<255>>)
S6b == S(6, <<0, 170>>)
S7(k) == S(7, Pad(k))
Fld(k) == <<S4, S5, IF k % 2 = 0 THEN S6 ELSE S6b, S7(k)>>

Shapes ==
  {<<S1, S3>> \o Fld(0),
   <<S1, S2(0), S3>> \o Fld(5),
   <<S1, S2(3), S3>> \o Fld(1) \o Fld(2) \o <<S2(1), S3>> \o Fld(3),
   <<S1, S3>> \o Fld(4) \o <<S3>> \o Fld(0)}
  \cup (IF Rich THEN {<<>>, <<S1>>, <<S4, S7(20), S1>>, <<S7(0)>>, <<S1, S3>> \o Fld(20) \o <<S(1, Pad(17))>>} ELSE {})

Gaps == {<<>>, <<71>>, <<71, 82, 73>>, <<71, 71, 82, 71, 82, 73, 88>>, [i \in 1..40 |-> (i * 7) % 256]}
        \cup (IF Rich THEN {<<55, 55, 55, 55>>, [i \in 1..17 |-> 0], <<82, 73, 66, 0, 0, 0, 2>>, Sevens4(3)} ELSE {})

VARIABLES gaps, msgs
vars == <<gaps, msgs>>

File == [gaps |-> gaps, msgs |-> msgs]
Emit(f) == PrintT("@@" \o ToJson([data |-> EncFile(f), items |-> Tiling(f),
                                   subs |-> SubsOf(Tiling(f))]))

Init == /\ msgs = <<>> /\ gaps \in {<<x>> : x \in Gaps} /\ Emit([gaps |-> gaps, msgs |-> <<>>])
Next == /\ Len(msgs) < MaxMsgs
        /\ \E m \in Shapes, x \in Gaps :
             /\ msgs' = Append(msgs, [disc |-> Len(msgs), sects |-> m])
             /\ gaps' = Append(gaps, x)
        /\ Emit([gaps |-> gaps', msgs |-> msgs'])
Spec == Init /\ [][Next]_vars

\* nothing but gaps and sections, all in their places
RoundTrip == Items(EncFile(File), 0) = Tiling(File)
\* sections of a message start at its start, are contiguous and end at its end
Contiguous ==
  LET t == Tiling(File) IN
  \A i \in 1..(Len(t) - 2) : t[i].num # 8 => t[i + 1].off = t[i].off + t[i].size
\* reading from any offset up to a message's start finds the rest of the messages
FromMiddle ==
  LET f == EncFile(File)
      t == Tiling(File)
  IN \A i \in 1..(Len(t) - 1) : t[i].num = 0 =>
       LET p == IF i = 1 THEN 0 ELSE t[i - 1].off + t[i - 1].size
       IN \A q \in {p, t[i].off, (p + t[i].off) \div 2} : Items(f, q) = SubSeq(t, i, Len(t))
=============================================================================
