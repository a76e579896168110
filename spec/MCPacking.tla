------------------------------ MODULE MCPacking ------------------------------
(* Packing and unpacking as one machine.  A packer is given points one by one,  *)
(* splits them into groups as it likes, chooses a packing and its parameters    *)
(* and writes the octets; the decoder then draws item after item from those     *)
(* octets alone.  Invariant: the drawn items are the points, in order, and the  *)
(* number announced is the number still to come.  Every packed field is printed *)
(* for replay on the real decoder.                                              *)
EXTENDS Encoding, TLC, Json

CONSTANTS Values, Shift, MaxPts, Packings, Orders, Octs, Mgmts, NBits, MaxVs

VARIABLES phase, groups, f, dec, out

vars == <<phase, groups, f, dec, out>>

None == [k |-> "none"]
Pts == Concat(groups)

Init == phase = "pack" /\ groups = <<>> /\ f = None /\ dec = None /\ out = <<>>

\* the next point, into the current group or a new one
AddPoint ==
  /\ phase = "pack" /\ Len(Pts) < MaxPts
  /\ \E x \in {v - Shift : v \in Values} \cup {Hole} :
       \/ (groups = <<>> \/ "complex" \in Packings) /\ groups' = Append(groups, <<x>>)
       \/ groups # <<>> /\ groups' = [groups EXCEPT ![Len(groups)] = Append(@, x)]
  /\ UNCHANGED <<phase, f, dec, out>>

OneGroup == Len(groups) <= 1
HasMissing == \E i \in 1..Len(Pts) : Pts[i] = Hole
Natural == \A i \in 1..Len(Pts) : Pts[i] = Hole \/ Pts[i] >= 0
MaxPt == IF Vals(Pts) = <<>> THEN 0 ELSE MaxOf(Vals(Pts))

Packed ==
  UNION {
    IF "simple" \in Packings /\ OneGroup /\ Natural
    THEN {EncSimple(Pts, n, b, p) : n \in {n \in NBits : MaxPt < 2^n}, b \in (IF HasMissing THEN {TRUE} ELSE BOOLEAN), p \in {0, 1}} ELSE {},
    IF "complex" \in Packings /\ (0 \in Orders => Natural)
    THEN {EncComplex(groups, [order |-> o, oct |-> k, mgmt |-> m, wide |-> w]) :
            o \in {o \in Orders : o > 0 \/ Natural}, k \in Octs, m \in {m \in Mgmts : m > 0 \/ ~HasMissing}, w \in BOOLEAN} ELSE {},
    IF "runlength" \in Packings /\ OneGroup /\ Natural /\ \A i \in 1..Len(Pts) : Pts[i] # 0
    THEN {EncRun(Pts, n, v, sp) : n \in {n \in NBits : n > 0 /\ MaxPt < 2^n}, v \in {v \in MaxVs : v >= MaxPt}, sp \in BOOLEAN} ELSE {} }

Good(g) == g.s5[6] # 200 \/ g.s5[9] < 2^g.s5[7]

Pack ==
  /\ phase = "pack"
  /\ \E g \in Packed : Good(g) /\ f' = g
  /\ phase' = "draw"
  /\ dec' = Field(f')
  /\ PrintT("@@" \o ToJson([pts |-> [i \in 1..Len(Pts) |-> IF Pts[i] = Hole THEN <<>> ELSE <<Pts[i]>>],
                            npts |-> f'.npts, ind |-> f'.ind, bm |-> f'.bm, s5 |-> f'.s5, s7 |-> f'.s7]))
  /\ UNCHANGED <<groups, out>>

\* the decoder's next item
DrawItem ==
  /\ phase = "draw" /\ dec.k = "ok" /\ Len(out) < Len(dec.items)
  /\ out' = Append(out, LET x == dec.items[Len(out) + 1] IN IF x = Missing THEN Missing ELSE Value(dec.p, x))
  /\ UNCHANGED <<phase, groups, f, dec>>

Next == AddPoint \/ Pack \/ DrawItem
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Decodable == phase = "draw" => dec.k = "ok" /\ dec.complete
RoundTrip == phase = "draw" =>
  \A i \in 1..Len(out) : out[i] = (IF Pts[i] = Hole THEN Missing ELSE QInt(Pts[i]))
Announced == phase = "draw" /\ dec.k = "ok" => f.npts - Len(out) = Len(dec.items) - Len(out) /\ f.npts = Len(Pts)
=============================================================================
