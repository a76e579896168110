-------------------------------- MODULE MCBuild -------------------------------
(* Builds of the library with and without its projection feature: a client asks  *)
(* a grid of one of them for its shape, its order of points or its coordinates.  *)
(* Grids are those of the templates Tmpls with the octets that decide over the   *)
(* answers taken from small sets.  Checks that the builds disagree on nothing    *)
(* but the coordinates of projected grids, which the build without the feature   *)
(* refuses; emits every grid with the answers due.                               *)
EXTENDS Grid, TLC, Json

CONSTANTS Tmpls, ModesOf, Shapes, Centres, Sides, Extra
U4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Zeros(n) == [k \in 1..n |-> 0]
\* a number of degrees as sign and magnitude of micro-degrees
Ang(x) == LET u == U4((IF x < 0 THEN -x ELSE x) * 1000000) IN IF x < 0 THEN [u EXCEPT ![1] = @ + 128] ELSE u
Earth(s) == <<s, 0>> \o U4(6371000) \o <<0>> \o U4(6378000) \o <<0>> \o U4(6357000)
Front(t, n) == <<0>> \o U4(n) \o <<0, 0, t \div 256, t % 256>>
\* the regular and Gaussian templates; the latitudes run as the mode says
Plain(t, m, s, c, ni, nj, n) ==
  Front(t, n) \o Earth(s) \o U4(ni) \o U4(nj) \o U4(0) \o U4(0) \o Ang(IF PosJ(m) THEN -20 ELSE 20) \o Ang(10) \o <<48>>
  \o Ang(IF PosJ(m) THEN 30 ELSE -30) \o Ang(IF PosI(m) THEN 40 ELSE 5) \o U4(c) \o U4(2) \o <<m>>
Plane(t, m, s, c, ni, nj, n) ==
  Front(t, n) \o Earth(s) \o U4(ni) \o U4(nj) \o Ang(60) \o Ang(10) \o <<48>> \o Ang(60) \o Ang(-5) \o U4(3000000) \o U4(2000000) \o <<c, m>>
  \o (IF t = 30 THEN Ang(60) \o Ang(30) \o Ang(-90) \o Ang(0) ELSE <<>>)
Payload(t, m, s, c, ni, nj, n) == IF t \in {20, 30} THEN Plane(t, m, s, c, ni, nj, n) ELSE Plain(t, m, s, c, ni, nj, n)
Grids == {Payload(t, m, s, c, ni, nj, ni * nj + x) : t \in Tmpls, m \in ModesOf, s \in Shapes, c \in Centres, ni \in Sides, nj \in Sides, x \in Extra}
\* octets missing at the end
Cut(p, k) == SubSeq(p, 1, Len(p) - k)

VARIABLES p, feature, asked
vars == <<p, feature, asked>>
Init == p \in Grids /\ feature = TRUE /\ asked = <<>>
Shorten == asked = <<>> /\ \E k \in {1, 9} : p' = Cut(p, k) /\ asked' = <<"cut">> /\ UNCHANGED feature
Switch == feature /\ feature' = FALSE /\ UNCHANGED <<p, asked>>
Next == Shorten \/ Switch
Spec == Init /\ [][Next]_vars

Answers(f) == [shape |-> Template(p), order |-> Order(p), coords |-> CoordsIn(p, TRUE, f)]
OnlyThere == \A q \in {"shape", "order", "coords"} :
  Answers(TRUE)[q] # Answers(FALSE)[q] => q = "coords" /\ Order(p) = "ok" /\ Projected(p) /\ Answers(FALSE)[q] = "not"
Refused == ~feature /\ Order(p) = "ok" => (Projected(p) <=> Answers(FALSE).coords = "not")
Never == Answers(TRUE).coords # "not"
\* coordinates are had only of grids whose order is
Ordered == Answers(feature).coords = "ok" => Answers(feature).order = "ok"
Emit == feature => PrintT("@@" \o ToJson([p |-> p, with |-> Answers(TRUE), without |-> Answers(FALSE)]))
=============================================================================
