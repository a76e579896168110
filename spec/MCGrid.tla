-------------------------------- MODULE MCGrid --------------------------------
(* The walk over a grid as the scanning mode's flags describe it - along the     *)
(* minor direction, then to the next row, turning round if rows alternate - for  *)
(* every small grid and every mode; checks that it is what Grid's closed form    *)
(* says, visits every point once and announces the right number; emits all walks.*)
EXTENDS Grid, TLC, Json

CONSTANTS MaxI, MaxJ
Modes == {16 * x : x \in 0..15}

VARIABLES m, ni, nj, pos, dir, walk, over
vars == <<m, ni, nj, pos, dir, walk, over>>
\* pos = <<position in the row, row>>
MinorLen == IF ConsJ(m) THEN nj ELSE ni
MajorLen == IF ConsJ(m) THEN ni ELSE nj

Init ==
  /\ m \in Modes /\ ni \in 0..MaxI /\ nj \in 0..MaxJ
  /\ pos = <<0, 0>> /\ dir = 1 /\ walk = <<>>
  /\ over = (ni = 0 \/ nj = 0)

\* at the end of a row in the direction of travel
AtEnd == IF dir = 1 THEN pos[1] = MinorLen - 1 ELSE pos[1] = 0
Next ==
  /\ ~over
  /\ walk' = Append(walk, IF ConsJ(m) THEN <<pos[2], pos[1]>> ELSE <<pos[1], pos[2]>>)
  /\ IF ~AtEnd THEN pos' = <<pos[1] + dir, pos[2]>> /\ UNCHANGED <<dir, over>>
     ELSE IF pos[2] = MajorLen - 1 THEN over' = TRUE /\ UNCHANGED <<pos, dir>>
     ELSE /\ dir' = IF Alt(m) THEN -dir ELSE dir
          /\ pos' = <<IF Alt(m) THEN pos[1] ELSE 0, pos[2] + 1>>   \* turns on the spot, or goes back
          /\ UNCHANGED over
  /\ UNCHANGED <<m, ni, nj>>
Spec == Init /\ [][Next]_vars

ClosedForm == \A k \in 1..Len(walk) : walk[k] = Point(m, ni, nj, k - 1)
Once == \A a, b \in 1..Len(walk) : a # b => walk[a] # walk[b]
Inside == \A k \in 1..Len(walk) : walk[k][1] \in 0..ni-1 /\ walk[k][2] \in 0..nj-1
All == over => Len(walk) = ni * nj
\* neighbours in the walk are neighbours in the grid unless the walk goes back
Adjacent == \A k \in 1..Len(walk)-1 : LET a == walk[k] b == walk[k + 1] d == <<b[1] - a[1], b[2] - a[2]>> IN
  d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} \/ (~Alt(m) /\ (b[1] = 0 \/ b[2] = 0))
\* the recurrence and the sine of Rat.class against their definitions, at small numbers
RECURSIVE Leg(_, _)
Leg(n, x) == IF n = 0 THEN "1" ELSE IF n = 1 THEN x
             ELSE QDiv(QSub(QMul(QMul(QInt(2 * n - 1), x), Leg(n - 1, x)), QMul(QInt(n - 1), Leg(n - 2, x))), QInt(n))
SignOf(q) == IF q = "0" THEN 0 ELSE IF QLt(q, "0") THEN -1 ELSE 1
RECURSIVE Fact(_), SinSum(_, _)
Fact(n) == IF n = 0 THEN "1" ELSE QMul(QInt(n), Fact(n - 1))
SinSum(x, k) == IF k = 0 THEN x
  ELSE LET t == QDiv(QPow(x, 2 * k + 1), Fact(2 * k + 1)) IN QAdd(SinSum(x, k - 1), IF k % 2 = 1 THEN QNeg(t) ELSE t)
\* what ScanProof assumes of %
ASSUME \A k \in 0..200, b \in 1..30 : k % b = k - b * (k \div b)
ASSUME \A n \in 0..7, a \in -9..9 : LET x == QDiv(QInt(a), "9") IN QLegendreSign(n, x, 40) = SignOf(Leg(n, x))
ASSUME \A a \in -12..12 : LET x == QDiv(QInt(a), "8") IN
         QLt(QAbs(QSub(QSin(x, 20), SinSum(x, 12))), QPow("10", -18))

Emit == over => PrintT("@@" \o ToJson([m |-> m, ni |-> ni, nj |-> nj, walk |-> walk]))
=============================================================================
