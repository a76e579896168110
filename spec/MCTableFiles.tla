----------------------------- MODULE MCTableFiles -----------------------------
(* Loading files row by row: the tables of the file being read are staged and    *)
(* become part of the database when its last row has been read, unless a row     *)
(* made it an error.  Held against the closed form; every history is emitted     *)
(* with the list of tables it leads to.                                          *)
EXTENDS Tables, TLC, Json
CONSTANTS MaxFiles, MaxRows
VARIABLES hist, cur, staged, db, state, loads
vars == <<hist, cur, staged, db, state, loads>>

Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
FName(s, n) == Grib2 \o <<95>> \o CodeFlag \o <<95>> \o s \o <<95>> \o n
Names == {FName(<<52>>, <<50>>), FName(<<52>>, <<49, 48>>), Grib2 \o <<95>> \o CodeFlag \o <<95, 52>>, FName(<<52>>, <<120>>)}
DiscS(n) == Prod1 \o <<32>> \o Disc1 \o <<32>> \o Num(n)
CatS(n) == <<44, 32>> \o Param1 \o <<32>> \o Cat1 \o <<32>> \o Num(n)
Subs == {<<>>, DiscS(2), DiscS(10), DiscS(2) \o CatS(1), DiscS(2) \o <<32, 45, 32, 120>> \o CatS(10) \o <<58, 32, 120>>, Prod1 \o <<32>> \o Num(2)}
Texts == <<"a", "b", "c", "d", "e", "f">>
Titles == <<"T1", "T2", "T3", "T4", "T5", "T6">>
NoTables == [id \in {} |-> <<>>]

RECURSIVE Total(_)
Total(h) == IF h = <<>> THEN 0 ELSE Len(Head(h).rows) + Total(Tail(h))
Count == Total(hist) + Len(cur.rows)
Init == hist = <<>> /\ cur = [name |-> <<>>, good |-> TRUE, rows |-> <<>>] /\ staged = NoTables /\ db = NoTables /\ state = "idle" /\ loads = <<>>
Open(n, good) ==
  /\ state = "idle" /\ Len(hist) < MaxFiles
  /\ cur' = [name |-> n, good |-> good, rows |-> <<>>] /\ staged' = NoTables
  /\ state' = IF FileName(n)[1] # "ok" THEN "skipping" ELSE IF good THEN "reading" ELSE "failed"
  /\ UNCHANGED <<hist, db, loads>>
Read(sub) ==
  LET id == IF Subtitle(sub)[1] = "ok" THEN Subtitle(sub)[2] ELSE <<>>
      code == IF id \in DOMAIN staged THEN Num(Len(staged[id].rows)) ELSE <<48>>
      r == <<code, Texts[Count + 1], Titles[Count + 1], sub>>
  IN /\ state \in {"reading", "skipping", "failed"} /\ Count < MaxRows /\ cur.good
     /\ cur' = [cur EXCEPT !.rows = Append(@, r)]
     /\ CASE state # "reading" -> UNCHANGED <<staged, state>>
          [] Subtitle(sub)[1] = "err" -> state' = "failed" /\ UNCHANGED staged
          [] id \in DOMAIN staged -> staged' = [staged EXCEPT ![id].rows = Append(@, <<r[1], r[2]>>)] /\ UNCHANGED state
          [] OTHER -> staged' = [x \in DOMAIN staged \cup {id} |-> IF x = id THEN [title |-> r[3], rows |-> <<<<r[1], r[2]>>>>] ELSE staged[x]] /\ UNCHANGED state
     /\ UNCHANGED <<hist, db, loads>>
Close ==
  LET n == FileName(cur.name) IN
  /\ state # "idle"
  /\ db' = IF state # "reading" THEN db
           ELSE LET new == {<<n[2], n[3]>> \o x : x \in DOMAIN staged}
                IN [id \in DOMAIN db \cup new |-> IF id \in new THEN staged[SubSeq(id, 3, Len(id))] ELSE db[id]]
  /\ hist' = Append(hist, cur)
  /\ loads' = Append(loads, IF state = "failed" THEN "err" ELSE IF n[1] = "bad" THEN "any" ELSE "ok")
  /\ state' = "idle" /\ cur' = [name |-> <<>>, good |-> TRUE, rows |-> <<>>] /\ staged' = NoTables
Next == (\E n \in Names, g \in BOOLEAN : Open(n, g)) \/ (\E s \in Subs : Read(s)) \/ Close
Spec == Init /\ [][Next]_vars

Same == state = "idle" => db = LoadAll(Empty, hist) /\ loads = [i \in 1..Len(hist) |-> LoadIs(hist[i])]
\* loading touches no table of another file
Others == [][\A id \in DOMAIN db : id \in DOMAIN db' /\ (db'[id] # db[id] => FileName(cur.name) = <<"ok", id[1], id[2]>> /\ state = "reading")]_vars
RECURSIVE RowsIn(_)
RowsIn(ids) == IF ids = {} THEN 0 ELSE LET x == CHOOSE y \in ids : TRUE IN Len(db[x].rows) + RowsIn(ids \ {x})
RECURSIVE RowsOf(_)
RowsOf(n) == IF n = 0 THEN 0 ELSE RowsOf(n - 1) + (IF FileName(hist[n].name)[1] = "ok" /\ loads[n] = "ok" THEN Len(hist[n].rows) ELSE 0)
\* every row of the readable files is in exactly one table, if no table was replaced
Partition == (state = "idle" /\ \A i, j \in 1..Len(hist) : i # j => hist[i].name # hist[j].name) =>
  RowsIn(DOMAIN db) = RowsOf(Len(hist))
Ordered == LET s == Sorted(DOMAIN db) IN Len(s) = Cardinality(DOMAIN db) /\ \A i \in 1..Len(s)-1 : Before(s[i], s[i + 1]) /\ ~Before(s[i + 1], s[i])
Listing == LET s == Sorted(DOMAIN db) IN [i \in 1..Len(s) |-> <<s[i], db[s[i]].title, Array(db[s[i]].rows)>>]
Emit == (state = "idle" /\ hist # <<>>) => PrintT("@@" \o ToJson([files |-> hist, loads |-> loads, list |-> Listing]))
===============================================================================
