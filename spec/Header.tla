-------------------------------- MODULE Header --------------------------------
(* What the octets of the header sections mean.  A section is given by the       *)
(* octets of its payload (from octet 6 on), offsets count from 0.  Numbers of    *)
(* 32 bits are pairs of 16-bit halves, signed ones <<1 if negative, the halves   *)
(* of the magnitude>>; an absent value is <<>>, a present one <<v>>.             *)
EXTENDS Integers, Sequences, FiniteSets

O(p, o) == p[o + 1]
U16(p, o) == O(p, o) * 256 + O(p, o + 1)
W32(p, o) == <<U16(p, o), U16(p, o + 2)>>
W64(p, o) == <<U16(p, o), U16(p, o + 2), U16(p, o + 4), U16(p, o + 6)>>
S32(p, o) ==
  LET h == (O(p, o) % 128) * 256 + O(p, o + 1)  l == U16(p, o + 2)
  IN <<IF O(p, o) >= 128 /\ (h # 0 \/ l # 0) THEN 1 ELSE 0, h, l>>
S8(x) == IF x >= 128 THEN 128 - x ELSE x

\* octets a section's payload needs to be read at all
Least(kind) == CASE kind = 1 -> 16 [] kind = 3 -> 9 [] kind = 4 -> 4 [] kind = 5 -> 6 [] kind = 6 -> 1 [] OTHER -> 0

---------------------------------------------------------------------------
(* Section 1 *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
TimeOf(p) == <<U16(p, 7), O(p, 9), O(p, 10), O(p, 11), O(p, 12), O(p, 13)>>
\* "ok", "err", or "any" (leap seconds and the year 0 are not judged)
TimeIs(t) ==
  IF t[2] \notin 1..12 THEN "err"
  ELSE IF t[3] \notin 1..Days(t[1], t[2]) \/ t[4] > 23 \/ t[5] > 59 \/ t[6] > 60 THEN "err"
  ELSE IF t[1] = 0 \/ t[6] = 60 THEN "any" ELSE "ok"
Ident(p) == [centre |-> U16(p, 0), sub |-> U16(p, 2), master |-> O(p, 4), local |-> O(p, 5),
             sig |-> O(p, 6), status |-> O(p, 14), type |-> O(p, 15)]

---------------------------------------------------------------------------
(* Section 3 *)
GridNum(p) == W32(p, 1)
GridTmpl(p) == U16(p, 7)
\* octets the template takes and those the fields below take
GridWhole(t) == CASE t \in {0, 40} -> 67 [] t = 20 -> 60 [] t = 30 -> 76 [] OTHER -> 0
GridNeeds(t) == IF t = 30 THEN 68 ELSE GridWhole(t)
\* where the template's fields are: unsigned (4), signed (4), single octets, earth shape
GU(t) == CASE t = 0 -> <<25, 29>> [] t = 40 -> <<25, 29, 58, 62>> [] OTHER -> <<25, 29, 50, 54>>
GS(t) == CASE t \in {0, 40} -> <<41, 45, 50, 54>> [] t = 20 -> <<33, 37, 42, 46>> [] OTHER -> <<33, 37, 42, 46, 60, 64>>
GO(t) == CASE t \in {0, 40} -> <<66>> [] t = 20 -> <<58, 59>> [] OTHER -> <<59>>
GName(t) == CASE t = 0 -> "regular_ll" [] t = 20 -> "polar_stereographic" [] t = 30 -> "lambert" [] OTHER -> "regular_gg"
Earth(p) == <<O(p, 9), O(p, 10), W32(p, 11), O(p, 15), W32(p, 16), O(p, 20), W32(p, 21)>>
GridIs(p) ==
  LET t == GridTmpl(p) IN
  IF t \notin {0, 20, 30, 40} THEN "err"
  ELSE IF Len(p) < GridNeeds(t) THEN "err"
  ELSE IF Len(p) = GridWhole(t) THEN "ok"
  ELSE IF t \in {0, 40} THEN "err" ELSE "any"
Each(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
GridFields(p) ==
  LET t == GridTmpl(p) w(o) == W32(p, o) s(o) == S32(p, o) b(o) == O(p, o) IN
  [t |-> t, name |-> GName(t), u |-> Each(GU(t), w), s |-> Each(GS(t), s), o |-> Each(GO(t), b),
   e |-> IF t \in {20, 30} THEN Earth(p) ELSE <<>>]

---------------------------------------------------------------------------
(* Section 4 *)
ProdTmpl(p) == U16(p, 2)
NCoord(p) == U16(p, 0)
Supported == 0..15 \cup {20} \cup 30..35 \cup 40..49 \cup {51} \cup 53..63 \cup {67, 68} \cup 70..73
             \cup 76..88 \cup {91, 254} \cup 1000..1002 \cup {1100, 1101}
In(t, a, b) == a <= t /\ t <= b
\* positions within the template, -1: no such field (or of variable position)
GenAt(t) == CASE In(t, 0, 39) -> 2 [] In(t, 40, 43) -> 4 [] In(t, 44, 47) -> 15 [] In(t, 48, 49) -> 26
              [] t = 51 -> 2 [] In(t, 55, 56) \/ t = 59 -> 8 [] In(t, 60, 61) -> 2 [] In(t, 62, 63) -> 8
              [] In(t, 70, 73) -> 7 [] In(t, 76, 79) -> 5 [] In(t, 80, 81) -> 27 [] In(t, 82, 84) -> 16
              [] t = 85 -> 15 [] In(t, 86, 91) -> 2 [] In(t, 1000, 1101) -> 2 [] OTHER -> -1
UnitAt(t) == CASE In(t, 0, 15) -> 8 [] In(t, 32, 34) -> 8 [] In(t, 40, 43) -> 10 [] In(t, 44, 47) -> 21 [] In(t, 48, 49) -> 32
               [] t = 51 -> 8 [] In(t, 55, 56) \/ t = 59 -> 14 [] In(t, 60, 61) -> 8 [] In(t, 62, 63) -> 14
               [] In(t, 70, 73) -> 13 [] In(t, 76, 79) -> 11 [] In(t, 80, 81) -> 33 [] In(t, 82, 84) -> 22
               [] t = 85 -> 21 [] In(t, 86, 87) -> 8 [] t = 88 -> 26 [] t = 91 -> 8 [] In(t, 1000, 1101) -> 8 [] OTHER -> -1
TimeLen(t) == IF t = 44 THEN 2 ELSE 4
SurfAt(t) == CASE In(t, 0, 15) -> 13 [] In(t, 40, 43) -> 15 [] t = 44 -> 24 [] In(t, 45, 47) -> 26 [] In(t, 48, 49) -> 37
               [] t = 51 -> 13 [] In(t, 55, 56) \/ t = 59 -> 19 [] In(t, 60, 61) -> 13 [] In(t, 62, 63) -> 19
               [] In(t, 70, 73) -> 18 [] In(t, 76, 79) -> 16 [] In(t, 80, 81) -> 38 [] In(t, 82, 84) -> 27
               [] t = 85 -> 26 [] In(t, 86, 87) -> 13 [] t = 88 -> 5 [] t = 91 -> 13 [] In(t, 1100, 1101) -> 13 [] OTHER -> -1
Has(p, at, n) == ProdTmpl(p) \in Supported /\ at >= 0 /\ Len(p) >= 4 + at + n
Octet(p, at) == IF Has(p, at, 1) THEN <<O(p, 4 + at)>> ELSE <<>>
Cat(p) == Octet(p, 0)
Num(p) == Octet(p, 1)
Gen(p) == Octet(p, GenAt(ProdTmpl(p)))
Forecast(p) ==
  LET t == ProdTmpl(p) at == UnitAt(t) IN
  IF Has(p, at, 1 + TimeLen(t)) THEN <<O(p, 4 + at), IF t = 44 THEN <<0, U16(p, 5 + at)>> ELSE W32(p, 5 + at)>> ELSE <<>>
Surface(p, o) == <<O(p, o), S8(O(p, o + 1)), S32(p, o + 2)>>
Surfaces(p) ==
  LET at == SurfAt(ProdTmpl(p)) IN
  IF Has(p, at, 12) THEN <<Surface(p, 4 + at), Surface(p, 10 + at)>> ELSE <<>>
\* the unit of a surface of type t by code table 4.5 ("" for none); "?" where editions of the table differ
SurfUnit(t) == CASE t \in {11, 12, 26, 27, 30, 102, 103, 106, 117, 160, 161} -> "m"
                 [] t = 13 -> "%" [] t \in {18, 100, 108} -> "Pa" [] t \in {20, 107, 170} -> "K"
                 [] t \in {21, 22, 169} -> "kg m-3" [] t \in {23, 24} -> "Bq m-3" [] t = 25 -> "dBZ"
                 [] t = 104 -> "\"sigma\" value" [] t = 109 -> "K m2 kg-1 s-1" [] t = 171 -> "m2 s-1"
                 [] t \in {114, 151, 152, 168} -> "Numeric"
                 [] t \in {19, 28, 29} \cup 31..35 \cup 120..149 \cup 162..167 \cup 172..191 -> "?"
                 [] OTHER -> ""
Prod(p) == [ncoord |-> NCoord(p), tmpl |-> ProdTmpl(p), cat |-> Cat(p), num |-> Num(p), gen |-> Gen(p),
            ft |-> Forecast(p), fs |-> Surfaces(p)]

(* Section 5 *)
Repr(p) == [num |-> W32(p, 0), tmpl |-> U16(p, 4)]
===============================================================================
