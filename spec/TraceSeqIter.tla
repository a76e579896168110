---------------------------- MODULE TraceSeqIter ----------------------------
(* Recorded histories of operations on iterators over values, index pairs,      *)
(* coordinates, sections: seq is what next alone delivers; ops and the results  *)
(* out, elements shown as in seq.  exact: the announced number is exact (it is  *)
(* a lower and an upper bound otherwise; an upper bound of -1 is none).          *)
EXTENDS SubRuns, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Shown(seq, o, r) == IF o[1] \in OfElements THEN [i \in 1..Len(r) |-> seq[r[i]]] ELSE r
Want(c) == LET r == RunOps(Len(c.seq), Init0, c.ops, 1) IN [i \in 1..Len(r) |-> Shown(c.seq, c.ops[i], r[i])]
Match(c, i, w) ==
  IF c.ops[i][1] = "hint" /\ ~c.exact THEN c.out[i][1] <= w[1] /\ (c.out[i][2] = -1 \/ w[1] <= c.out[i][2])
  ELSE c.out[i] = w
Ok(c) == LET w == Want(c) IN Len(c.out) = Len(c.ops) /\ \A i \in 1..Len(w) : Match(c, i, w[i])
VARIABLE l
Init == l = 1
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases)])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
