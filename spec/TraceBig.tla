------------------------------- MODULE TraceBig --------------------------------
(* Reading files of any size, beyond 2^32 octets, held against the tiling of the *)
(* file by its messages.  The specification reads the file itself; offsets and   *)
(* sizes are numbers of any size.  A machine that walks over the sections, one   *)
(* per step:  pos  where the next section starts                                 *)
(*            end  the end of the message it is in ("" between messages)         *)
(* A case is a well-formed file: path, from where it is read, whether opening    *)
(* it succeeded, the sections seen (<<number, offset, size>>, the numbers as     *)
(* strings) in items, what an open file lists in listed (all but the indicators  *)
(* of messages are in the same order), and the submessages' <<message, number, total>>.*)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, end, k, msgs, subs, tot
vars == <<l, pos, end, k, msgs, subs, tot>>

Item(c) == IF k < Len(c.items) THEN c.items[k + 1] ELSE <<"end">>
U(c, off, n) == QU(FBytes(c.path, off, n), 0, n)
\* the section that starts at pos
Here(c) ==
  IF end = "" THEN LET p == FFind(c.path, pos) IN IF p = "-1" THEN <<"end">> ELSE <<"0", p, "16">>
  ELSE IF QAdd(pos, "4") = end THEN <<"8", pos, "4">>
  ELSE <<U(c, QAdd(pos, "4"), 1), pos, U(c, pos, 4)>>

\* what the submessages are: one per data section
IsSub(x) == x[1] = "7"
Fresh(x) == l' = x /\ pos' = (IF x <= Len(Cases) THEN Cases[x].start ELSE "0") /\ end' = "" /\ k' = 0 /\ msgs' = 0 /\ subs' = <<>> /\ tot' = ""
Init == l = 1 /\ pos = (IF Len(Cases) > 0 THEN Cases[1].start ELSE "0") /\ end = "" /\ k = 0 /\ msgs = 0 /\ subs = <<>> /\ tot = ""
Total(c, p) == U(c, QAdd(p, "8"), 8)
Subs(x, c) == IF IsSub(x) THEN Append(subs, <<msgs - 1, Len(SelectSeq(subs, LAMBDA s : s[1] = msgs - 1)), tot>>) ELSE subs
Bad(w) == PrintT("@@" \o ToJson([bad |-> l, want |-> w, at |-> k])) /\ Fresh(l + 1)
Walk ==
  LET c == Cases[l] x == Here(c) IN
  IF Item(c) # x THEN Bad(x)
  ELSE IF x[1] = "end"
       THEN IF c.listed = c.items /\ Len(c.subs) = Len(subs) /\ \A i \in 1..Len(subs) : c.subs[i] = subs[i]
            THEN Fresh(l + 1) ELSE Bad(<<"listed", ToString(Len(subs))>>)
  ELSE /\ l' = l /\ k' = k + 1
       /\ IF x[1] = "0" THEN end' = QAdd(x[2], Total(c, x[2])) /\ pos' = QAdd(x[2], "16") /\ msgs' = msgs + 1 /\ subs' = subs /\ tot' = Total(c, x[2])
          ELSE IF x[1] = "8" THEN end' = "" /\ pos' = end /\ UNCHANGED <<msgs, subs, tot>>
          ELSE pos' = QAdd(pos, x[3]) /\ end' = end /\ msgs' = msgs /\ subs' = Subs(x, c) /\ tot' = tot
Next == \/ l <= Len(Cases) /\ Walk
        \/ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases)])) /\ l' = l + 1 /\ UNCHANGED <<pos, end, k, msgs, subs, tot>>
Spec == Init /\ [][Next]_vars
===============================================================================
