----------------------------- MODULE TraceTables ------------------------------
(* What the generator of code tables did with files, held against Tables.        *)
(*  t = "cct":  common code tables; t = "flag": GRIB2 code tables.  Both have the *)
(*  files loaded (in order), what loading them said, the list of tables in the   *)
(*  whole text - <<name, title, texts>> - and single tables asked for by id.     *)
EXTENDS Tables, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Joined(_)
Joined(id) == IF id = <<>> THEN "" ELSE "_" \o ToString(id[1]) \o Joined(Tail(id))
Name(id) == "CODE_TABLE" \o Joined(id)
Said(want, got) == want = got \/ (want = "any" /\ got \in {"ok", "err"})

FlagList(db) == LET s == Sorted(DOMAIN db) IN [i \in 1..Len(s) |-> <<Name(s[i]), db[s[i]].title, Array(db[s[i]].rows)>>]
FlagOk(c) ==
  LET db == LoadAll(Empty, c.files) IN
  /\ Len(c.loads) = Len(c.files) /\ \A i \in 1..Len(c.files) : Said(LoadIs(c.files[i]), c.loads[i])
  /\ c.list = FlagList(db)
  /\ \A i \in 1..Len(c.ids) :
       c.exports[i] = IF c.ids[i] \in DOMAIN db THEN <<<<Name(c.ids[i]), db[c.ids[i]].title, Array(db[c.ids[i]].rows)>>>> ELSE <<>>

CctName(id) == "COMMON_CODE_TABLE_" \o (IF id < 10 THEN "0" ELSE "") \o ToString(id)
CctOk(c) ==
  LET db == CctAll(Empty, c.files)
      one(id) == IF id \in DOMAIN db THEN <<<<CctName(id), Array(db[id])>>>> ELSE <<>>
  IN /\ Len(c.loads) = Len(c.files) /\ \A i \in 1..Len(c.files) : Said(CctLoadIs(c.files[i]), c.loads[i])
     /\ c.list = one(0) \o one(11)
     /\ c.exports = <<one(0), one(11), <<>>>>

Ok(c) == CASE c.t = "flag" -> FlagOk(c) [] c.t = "cct" -> CctOk(c)
Want(c) == CASE c.t = "flag" -> [loads |-> [i \in 1..Len(c.files) |-> LoadIs(c.files[i])], list |-> FlagList(LoadAll(Empty, c.files))]
             [] c.t = "cct" -> LET db == CctAll(Empty, c.files) IN [loads |-> [i \in 1..Len(c.files) |-> CctLoadIs(c.files[i])], list |-> [id \in DOMAIN db |-> Array(db[id])]]

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"flag", "cct"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Cases[l].t] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
===============================================================================
