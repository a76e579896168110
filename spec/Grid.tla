--------------------------------- MODULE Grid ---------------------------------
(* The grid definition section of GRIB2: scanning order, coordinates and the     *)
(* projections asked for.  A section is given by the octets of its payload (from *)
(* octet 6 of the section on).  Numbers that may exceed 31 bits are Rat strings. *)
EXTENDS Rat, Scan, Sequences, FiniteSets

\* --- the definition ------------------------------------------------------------
Oct(p, o) == p[o + 1]
Tmpl(p) == Oct(p, 7) * 256 + Oct(p, 8)
NPts(p) == QU(p, 1, 4)

Known == {0, 20, 30, 40}
Projected(p) == Tmpl(p) \in {20, 30}
Name(p) == CASE Tmpl(p) = 0 -> "regular_ll" [] Tmpl(p) = 20 -> "polar_stereographic"
             [] Tmpl(p) = 30 -> "lambert" [] Tmpl(p) = 40 -> "regular_gg" [] OTHER -> "-"
Fixed(p) == CASE Tmpl(p) \in {0, 40} -> 67 [] Tmpl(p) = 20 -> 60 [] OTHER -> 76
\* octets the fields used here take
Needed(p) == IF Tmpl(p) = 30 THEN 68 ELSE Fixed(p)

\* whether the template's values can be had: "ok", "err" or "any" (not judged)
Template(p) ==
  CASE Tmpl(p) \notin Known -> "err"
    [] Len(p) < Needed(p) -> "err"
    [] Len(p) < Fixed(p) -> "any"
    [] Len(p) = Fixed(p) -> IF Oct(p, 5) = 0 THEN "ok" ELSE "any"
    [] Tmpl(p) \in {0, 40} -> "err"    \* a list of numbers of points per row
    [] OTHER -> "any"

Body(p) == IF Projected(p) THEN 9 ELSE 25   \* where the offsets below start
F(p, o, n) == QU(p, Body(p) + o, n)
G(p, o) == QS(p, Body(p) + o, 4)            \* micro-degrees
Ni(p) == IF Projected(p) THEN F(p, 16, 4) ELSE F(p, 0, 4)
Nj(p) == IF Projected(p) THEN F(p, 20, 4) ELSE F(p, 4, 4)
Mode(p) == IF Projected(p) THEN Oct(p, 59) ELSE Oct(p, 66)

\* the index iterator: "err", "any", or "ok" (then it has NPts(p) points)
Order(p) ==
  LET t == Template(p) IN
  IF t # "ok" THEN t ELSE IF ModeOk(Mode(p)) /\ QMul(Ni(p), Nj(p)) = NPts(p) THEN "ok" ELSE "err"

\* --- regular and Gaussian grids -------------------------------------------------
Lat1(p) == IF Projected(p) THEN G(p, 24) ELSE G(p, 16)
Lon1(p) == IF Projected(p) THEN G(p, 28) ELSE G(p, 20)
Lat2(p) == G(p, 25)
Lon2(p) == G(p, 29)
Mega == "1000000"
Turn == "360000000"

\* a step from a to b on n points
Step(a, b, n) == IF QLe(n, "1") THEN "0" ELSE QDiv(QSub(b, a), QSub(n, "1"))
Tol(a, b) == QAdd(QMul(QMax(QAbs(a), QAbs(b)), "1/1048576"), "1/16")

\* whether the way from the first to the last grid point along i (j) has the
\* direction the scanning mode says
Along(a, b, pos) == a = b \/ (QLt(a, b) <=> pos)

\* the longitudes to go between, and whether the way crosses the meridian
LonWay(p) ==
  LET a == Lon1(p) b == Lon2(p) IN
  IF Along(a, b, PosI(Mode(p))) THEN [s |-> a, e |-> b, cross |-> FALSE]
  ELSE IF QLt(b, a) THEN [s |-> a, e |-> QAdd(b, Turn), cross |-> TRUE]
  ELSE [s |-> QAdd(a, Turn), e |-> b, cross |-> TRUE]
LonJudged(p) ==
  LET w == LonWay(p) IN
  /\ QLe(QAbs(Lon1(p)), Turn) /\ QLe(QAbs(Lon2(p)), Turn)
  /\ w.cross => Along(w.s, w.e, PosI(Mode(p)))

\* an observed longitude (degrees) of column i
LonOk(p, w, st, i, o) ==
  LET x == QAdd(w.s, QMul(st, QInt(i))) t == Tol(w.s, w.e)
      om == QMul(o, Mega)
      near(y) == QLe(QAbs(QSub(om, y)), t)
  IN IF ~w.cross THEN near(x)
     ELSE /\ QLt(om, Turn)
          /\ \/ QLt(x, QAdd(Turn, t)) /\ near(x)
             \/ QLe(QSub(Turn, t), x) /\ near(QSub(x, Turn))
             \/ QLe(Ni(p), "1") /\ near(Lon1(p))
LatOk(p, st, j, o) ==
  QLe(QAbs(QSub(QMul(o, Mega), QAdd(Lat1(p), QMul(st, QInt(j))))), Tol(Lat1(p), Lat2(p)))

\* --- Gaussian latitudes -----------------------------------------------------------
Pi == "314159265358979323846264338327950288419/100000000000000000000000000000000000000"
\* a latitude (radians) is within d of a root of the Legendre polynomial of degree n
NearRoot(n, x, d) ==
  LET sign(y) == QLegendreSign(n, QSin(y, 40), 40) IN sign(QSub(x, d)) * sign(QAdd(x, d)) = -1
\* n latitudes, from north to south, are the n roots: their neighbourhoods hold one
\* root (or an odd number) each and do not meet
AllRoots(n, xs, d) ==
  /\ Len(xs) = n
  /\ \A k \in 1..n : xs[k] # "nan" /\ NearRoot(n, xs[k], d)
  /\ \A k \in 1..n-1 : QLt(QAdd(xs[k + 1], d), QSub(xs[k], d))
  /\ \A k \in 1..n : QLe(QAbs(QAdd(xs[k], xs[n + 1 - k])), d)

\* --- projected grids -----------------------------------------------------------------
Shape(p) == Oct(p, 9)
\* the earth's axes in metres, of the 16 octets from offset o on (code table 3.2);
\* <<>> if the code is unknown, <<"any">> if not judged (factors with the top bit set)
Radii(p, o) ==
  LET sc == Oct(p, o)
      V(x) == QDiv(QU(p, x + 1, 4), QPow("10", Oct(p, x)))
      Sphere(r) == <<r, r>>
      Own(k) == IF Oct(p, o + 6) >= 128 \/ Oct(p, o + 11) >= 128 THEN <<"any">>
                ELSE <<QMul(V(o + 6), k), QMul(V(o + 11), k)>>
  IN CASE sc = 0 -> Sphere("6367470")
       [] sc = 1 -> IF Oct(p, o + 1) >= 128 THEN <<"any">> ELSE Sphere(V(o + 1))
       [] sc = 2 -> <<"6378160", "6356775">>
       [] sc = 3 -> Own("1000")
       [] sc = 4 -> <<"6378137", QDec("6356752.314")>>
       [] sc = 5 -> <<"6378137", QDec("6356752.3142")>>
       [] sc = 6 -> Sphere("6371229")
       [] sc = 7 -> Own("1")
       [] sc = 8 -> Sphere("6371200")
       [] OTHER -> <<>>
Centre(p) == Oct(p, 58)   \* projection centre flag
Degrees(x) == QDiv(x, Mega)
\* what a projection definition must say, as <<key, value>> pairs
Demands(p) ==
  LET r == Radii(p, 9)
      axes == IF Len(r) = 2 THEN <<<<"a", r[1]>>, <<"b", r[2]>>>> ELSE <<>>
  IN axes \o <<<<"lon_0", Degrees(G(p, 37))>>>> \o
     (IF Tmpl(p) = 30
      THEN <<<<"lat_0", Degrees(G(p, 33))>>, <<"lat_1", Degrees(G(p, 51))>>, <<"lat_2", Degrees(G(p, 55))>>>>
      ELSE <<<<"lat_ts", Degrees(G(p, 33))>>>> \o
           (IF Centre(p) >= 128 /\ Centre(p) < 192 THEN <<<<"lat_0", "-90">>>>
            ELSE IF Centre(p) < 64 THEN <<<<"lat_0", "90">>>> ELSE <<>>))
ProjName(p) == IF Tmpl(p) = 30 THEN "lcc" ELSE "stere"

\* defs: the pairs of strings of a definition, in order
Says(def, k) == {i \in 1..Len(def) : def[i][1] = k}
Close(a, b) == QLe(QAbs(QSub(a, b)), QMul(QMax(QAbs(a), QAbs(b)), "1/1099511627776"))
Value2(def, k) == QDec(def[CHOOSE i \in Says(def, k) : TRUE][2])
Value(def, k) ==
  IF Says(def, k) # {} THEN QDec(def[CHOOSE i \in Says(def, k) : TRUE][2])
  ELSE IF k \in {"a", "b"} /\ Says(def, "R") # {} THEN Value2(def, "R")
  ELSE IF k = "lat_2" /\ Says(def, "lat_1") # {} THEN Value2(def, "lat_1")
  ELSE IF k \in {"lat_0", "lon_0"} THEN "0"
  ELSE "nan"
DefOk(p, def) ==
  /\ \A i, j \in 1..Len(def) : i # j => def[i][1] # def[j][1]
  /\ \E i \in 1..Len(def) : def[i] = <<"proj", ProjName(p)>>
  /\ LET d == Demands(p) IN \A i \in 1..Len(d) :
       LET v == Value(def, d[i][1]) IN v # "nan" /\ Close(v, d[i][2])
  /\ \A i \in 1..Len(def) : def[i][1] \in {"proj", "a", "b", "R", "lat_0", "lon_0", "lat_1", "lat_2", "lat_ts", "no_defs", "type", "units", "x_0", "y_0"}
  /\ \A i \in 1..Len(def) : CASE def[i][1] = "units" -> def[i][2] = "m"
                               [] def[i][1] \in {"x_0", "y_0"} -> QDec(def[i][2]) = "0"
                               [] def[i][1] \in {"lat_1", "lat_2"} -> Tmpl(p) = 30
                               [] def[i][1] = "lat_ts" -> Tmpl(p) = 20
                               [] OTHER -> TRUE
\* metres between neighbours
Dx(p) == LET d == QDiv(F(p, 41, 4), "1000") IN IF PosI(Mode(p)) THEN d ELSE QNeg(d)
Dy(p) == LET d == QDiv(F(p, 45, 4), "1000") IN IF PosJ(Mode(p)) THEN d ELSE QNeg(d)

\* --- coordinates -----------------------------------------------------------------------
\* whether coordinates can be had: "ok", "err" or "any".  toproj: the projector works
Coords(p, toproj) ==
  LET o == Order(p) empty == NPts(p) = "0" IN
  IF o # "ok" THEN o
  ELSE IF Projected(p)
  THEN IF empty \/ Centre(p) \in {64, 192} \/ (Tmpl(p) = 30 /\ Centre(p) \notin {0, 128}) THEN "any"
       ELSE IF Shape(p) >= 9 \/ (Tmpl(p) = 20 /\ Centre(p) % 64 # 0) \/ ~toproj THEN "err" ELSE "ok"
  ELSE IF ~Along(Lat1(p), Lat2(p), PosJ(Mode(p)))
  THEN IF empty \/ QLe(Nj(p), "1") THEN "any" ELSE "err"
  ELSE IF ~LonJudged(p) \/ (Tmpl(p) = 40 /\ QLt("1280", Nj(p))) THEN "any" ELSE "ok"
\* the same of a library built with (feature) or without its projection feature, which
\* is there for projected grids alone; "not": refused as not supported
CoordsIn(p, toproj, feature) ==
  IF ~feature /\ Order(p) = "ok" /\ Projected(p) THEN "not" ELSE Coords(p, toproj)
===============================================================================
