------------------------------- MODULE ScanProof -------------------------------
(* For grids of any size and every mode: the scanning order of Scan visits points *)
(* of the grid only (Inside), none twice (Distinct) and all of them (Every); the   *)
(* next point is a neighbour in alternating scans (Boustrophedon).                 *)
(* Checked by tlapm (thorough tier of C15).                                        *)
EXTENDS Scan, TLAPS

\* what % means (the back ends know it for constants only)
ASSUME Remainder == \A k \in Nat : \A b \in Nat : b > 0 => k % b = k - b * (k \div b)

LEMMA Mono == ASSUME NEW a \in Nat, NEW b \in Nat, NEW q \in Nat, q >= a PROVE b * q >= b * a
  OBVIOUS
LEMMA Divide == ASSUME NEW b \in Nat, b > 0, NEW k \in Nat
                PROVE  k \div b \in Nat /\ k % b \in 0..(b - 1) /\ k = b * (k \div b) + (k % b)
<1>1. k \div b \in Nat /\ k % b \in 0..(b - 1) OBVIOUS
<1>2. k % b = k - b * (k \div b) BY Remainder
<1>3. b * (k \div b) \in Int BY <1>1
<1> QED BY <1>1, <1>2, <1>3
LEMMA DivRange == ASSUME NEW a \in Nat, NEW b \in Nat, b > 0, NEW k \in Nat, k < b * a
                  PROVE  k \div b \in 0..(a - 1)
<1>0. k \div b \in Nat /\ k % b \in 0..(b - 1) /\ k = b * (k \div b) + (k % b) BY Divide
<1>1. k \div b \in Nat /\ b * (k \div b) <= k
  <2>1. b * (k \div b) \in Int BY <1>0
  <2> QED BY <1>0, <2>1
<1>2. SUFFICES ASSUME k \div b >= a PROVE FALSE BY <1>1
<1>3. b * (k \div b) >= b * a BY <1>1, <1>2, Mono
<1>4. b * (k \div b) \in Int /\ b * a \in Int BY <1>1
<1> QED BY <1>1, <1>3, <1>4
LEMMA Less == ASSUME NEW b \in Nat, b > 0, NEW p \in Nat, NEW q \in Nat, NEW r \in 0..(b-1), NEW s \in 0..(b-1), b * p + r = b * q + s, p < q
              PROVE FALSE
<1>1. p + 1 <= q OBVIOUS
<1>2. b * (p + 1) <= b * q BY <1>1
<1>3. b * (p + 1) = b * p + b OBVIOUS
<1>4. b * p \in Int /\ b * q \in Int OBVIOUS
<1> DEFINE x == b * p 
           y == b * q
<1>5. x \in Int /\ y \in Int /\ x + b <= y /\ x + r = y + s BY <1>2, <1>3, <1>4
<1> HIDE DEF x, y
<1> QED BY <1>5
LEMMA Unique == ASSUME NEW b \in Nat, b > 0, NEW p \in Nat, NEW q \in Nat, NEW r \in 0..(b-1), NEW s \in 0..(b-1), b * p + r = b * q + s
                PROVE p = q /\ r = s
<1>1. p = q BY Less
<1>2. b * p \in Int BY <1>1
<1> QED BY <1>1, <1>2
LEMMA Once == ASSUME NEW m \in Nat, NEW b \in Nat, b > 0, NEW p \in Nat, NEW q \in Nat, NEW r \in 0..(b-1), NEW s \in 0..(b-1),
                     Visit(m, b, p, r) = Visit(m, b, q, s)
              PROVE p = q /\ r = s
  BY DEF Visit

THEOREM Inside == ASSUME NEW m \in Nat, NEW ni \in Nat, NEW nj \in Nat, NEW k \in Nat, k < ni * nj
                  PROVE  Point(m, ni, nj, k) \in (0..(ni - 1)) \X (0..(nj - 1))
<1>1. ni > 0 /\ nj > 0 OBVIOUS
<1>2. CASE ConsJ(m)
  <2>1. k < nj * ni OBVIOUS
  <2>2. k \div nj \in 0..(ni - 1) /\ k % nj \in 0..(nj - 1) BY <2>1, <1>1, DivRange, Divide
  <2> QED BY <2>2, <1>2, <1>1 DEF Point, Visit
<1>3. CASE ~ConsJ(m)
  <2>2. k \div ni \in 0..(nj - 1) /\ k % ni \in 0..(ni - 1) BY <1>1, DivRange, Divide
  <2> QED BY <2>2, <1>3, <1>1 DEF Point, Visit
<1> QED BY <1>2, <1>3

THEOREM Distinct == ASSUME NEW m \in Nat, NEW ni \in Nat, NEW nj \in Nat, NEW k \in Nat, NEW l \in Nat, k < ni * nj, l < ni * nj,
                           Point(m, ni, nj, k) = Point(m, ni, nj, l)
                    PROVE  k = l
<1> DEFINE b == IF ConsJ(m) THEN nj ELSE ni
<1>1. b \in Nat /\ b > 0 OBVIOUS
<1>2. /\ k \div b \in Nat /\ k % b \in 0..(b - 1) /\ k = b * (k \div b) + (k % b)
      /\ l \div b \in Nat /\ l % b \in 0..(b - 1) /\ l = b * (l \div b) + (l % b) BY <1>1, Divide
<1>3. Visit(m, b, k \div b, k % b) = Visit(m, b, l \div b, l % b) BY DEF Point
<1> HIDE DEF b
<1>4. k \div b = l \div b /\ k % b = l % b BY <1>1, <1>2, <1>3, Once
<1> QED BY <1>2, <1>4

THEOREM Every == ASSUME NEW m \in Nat, NEW ni \in Nat, NEW nj \in Nat, NEW i \in 0..(ni - 1), NEW j \in 0..(nj - 1)
                 PROVE  \E k \in Nat : k < ni * nj /\ Point(m, ni, nj, k) = <<i, j>>
<1> DEFINE b == IF ConsJ(m) THEN nj ELSE ni
           a == IF ConsJ(m) THEN ni ELSE nj
           q == IF ConsJ(m) THEN i ELSE j
           c == IF ConsJ(m) THEN j ELSE i
           r == IF Alt(m) /\ q % 2 = 1 THEN b - 1 - c ELSE c
           k == b * q + r
<1>1. b \in Nat /\ b > 0 /\ a \in Nat /\ a > 0 /\ q \in 0..(a - 1) /\ c \in 0..(b - 1) /\ r \in 0..(b - 1) OBVIOUS
<1>2. b * a = ni * nj OBVIOUS
<1>6. Visit(m, b, q, r) = <<i, j>> BY <1>1 DEF Visit
<1>7. Point(m, ni, nj, k) = Visit(m, b, k \div b, k % b) BY DEF Point
<1> HIDE DEF a, b, q, c, r
<1>3. b * q \in Nat BY <1>1
<1>4. k \in Nat BY <1>1, <1>3
<1>5. k \div b = q /\ k % b = r
  <2>1. k \div b \in Nat /\ k % b \in 0..(b - 1) /\ k = b * (k \div b) + (k % b) BY <1>1, <1>4, Divide
  <2>2. b * (k \div b) + (k % b) = b * q + r BY <2>1
  <2> DEFINE x == k \div b
             y == k % b
  <2>3. x \in Nat /\ y \in 0..(b - 1) /\ b * x + y = b * q + r BY <2>1, <2>2
  <2> HIDE DEF x, y
  <2>4. b \in Nat /\ b > 0 /\ q \in Nat /\ r \in 0..(b - 1) BY <1>1
  <2>5. x = q /\ y = r BY <2>3, <2>4, Unique
  <2> QED BY <2>5 DEF x, y
<1>8. k < b * a
  <2>1. b * (a - 1) = b * a - b BY <1>1
  <2>2. b * q <= b * (a - 1) BY <1>1, Mono
  <2>3. b * a \in Int BY <1>1
  <2> QED BY <1>1, <1>3, <2>1, <2>2, <2>3
<1> HIDE DEF k
<1> QED BY <1>2, <1>4, <1>5, <1>6, <1>7, <1>8

\* alternating scans only step to neighbours
Near(x, y) == x - y \in {-1, 0, 1}
THEOREM Boustrophedon == ASSUME NEW m \in Nat, Alt(m), NEW b \in Nat, b > 0, NEW q \in Nat, NEW r \in 0..(b - 1)
                         PROVE  LET n == IF r = b - 1 THEN Visit(m, b, q + 1, 0) ELSE Visit(m, b, q, r + 1)
                                    v == Visit(m, b, q, r)
                                IN Near(n[1], v[1]) /\ Near(n[2], v[2]) /\ (n[1] = v[1] \/ n[2] = v[2])
<1>1. (q % 2 = 1) <=> ~((q + 1) % 2 = 1) OBVIOUS
<1> QED BY <1>1 DEF Visit, Near
===============================================================================
