---------------------------- MODULE TraceSubIter ----------------------------
(* Recorded runs of the real iterator: n, ops, and the results out.             *)
EXTENDS SubRuns, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ok(c) == c.out = RunOps(c.n, Init0, c.ops, 1)
VARIABLE l
Init == l = 1
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> RunOps(Cases[l].n, Init0, Cases[l].ops, 1)]))
     /\ l' = l + 1
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases)])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
