----------------------------- MODULE TraceAccess -----------------------------
(* Recorded histories of the real library on one open file.  ref[what][k] is    *)
(* what the library says of submessage k when it is alone in a file; "none" of  *)
(* a submessage that is no longer there.  out[i] = <<text of the result,        *)
(* it is an error, faults injected meanwhile>>.                                 *)
EXTENDS Access, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

\* the client numbers things from 1
Op(o) == <<o[1], o[2] + 1, o[3]>>
Want(c, cl, o) == LET t == Target(cl, o) IN
  IF t[2] = None THEN "none" ELSE IF t[1] = "keep" THEN "kept" ELSE c.ref[t[1]][t[2]]

\* machine state: client, first operation that went wrong
Step(c, a, i) ==
  LET o == Op(c.ops[i])
      w == Want(c, a.cl, o)
      x == c.out[i]
  IN IF a.bad # 0 THEN a
     ELSE IF ~(x[1] = w \/ (x[3] > 0 /\ Reads(o) /\ x[2])) THEN [a EXCEPT !.bad = i, !.want = w]
     ELSE [a EXCEPT !.cl = After(a.cl, o, ~x[2])]

RECURSIVE Go(_, _, _)
Go(c, a, i) == IF i > Len(c.ops) THEN a ELSE Go(c, Step(c, a, i), i + 1)
Run(c) == IF Len(c.out) # Len(c.ops) THEN [bad |-> 1, want |-> "no answer"]
          ELSE Go(c, [cl |-> Client0, bad |-> 0, want |-> ""], 1)

VARIABLE l
Init == l = 1
Next ==
  \/ /\ l <= Len(Cases)
     /\ LET r == Run(Cases[l]) IN
        IF r.bad = 0 THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> r.want, at |-> r.bad]))
     /\ l' = l + 1
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases)])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
