----------------------------- MODULE TraceCodegen -----------------------------
(* What was generated from parameter tables, held against Codegen: t = "enum"    *)
(* has the table's lines, the enumeration's variants and every probed code that  *)
(* converted; t = "error" says whether a table was rejected.                     *)
EXTENDS Codegen, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
EnumOk(c) ==
  LET var == {<<c.variants[i][1], <<c.variants[i][2], c.variants[i][3]>>>> : i \in 1..Len(c.variants)}
      map == {<<<<c.map[i][1], c.map[i][2]>>, c.map[i][3]>> : i \in 1..Len(c.map)}
  IN /\ TableOk(c.lines) /\ Clear(c.lines)
     /\ Len(c.variants) = Cardinality(Variants(c.lines)) /\ var = Variants(c.lines)
     /\ map = Conversion(c.lines)
Ok(c) == CASE c.t = "enum" -> EnumOk(c) [] c.t = "error" -> c.rejected = ~TableOk(c.lines)
Want(c) == IF TableOk(c.lines) THEN [variants |-> Variants(c.lines), conversion |-> Conversion(c.lines)] ELSE [rejected |-> TRUE]

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"enum", "error"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Cases[l].t] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
===============================================================================
