------------------------------ MODULE Packing -------------------------------
(* What the octets of sections 5, 6 and 7 mean.                                 *)
(*                                                                              *)
(* A field f is a record                                                        *)
(*   npts   number of points of the grid definition                             *)
(*   ind    bitmap indicator, bm the octets after it                            *)
(*   s5     payload of section 5 (number of encoded points, template, template) *)
(*   s7     payload of section 7                                                *)
(*   img    for image packings: <<>> or the samples of the image, row by row    *)
(*                                                                              *)
(* Decoding draws one item per grid point.  The decoder is a machine: its state *)
(* says where in the data section the next encoded value starts and what the    *)
(* recurrences remember, Draw yields the next encoded value.                    *)
EXTENDS Integers, Sequences, SequencesExt, Rat

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
BIG == 2000000000
\* an integral number as an integer of TLC, cut off at BIG
Nat_(q) == IF QLe(q, "2000000000") THEN QToInt(q) ELSE BIG
U(s, o, n) == Nat_(QU(s, o, n))
CeilDiv(a, b) == (a + b - 1) \div b

---------------------------------------------------------------------------
(* Scaling *)
Param(s5) == [r |-> QF32(s5, 6), e |-> QToInt(QS(s5, 10, 2)), d |-> QToInt(QS(s5, 12, 2)), nbit |-> s5[15], typ |-> s5[16]]

Missing == "m"
\* the value of the encoded number x
Value(p, x) == QMul(QAdd(p.r, QMul(x, QPow("2", p.e))), QPow("10", -p.d))

\* single-precision results can be told apart from others only within these bounds:
\* moderate factors, or extreme ones that make up for each other
Scale(p) == QMul(QPow("2", p.e), QPow("10", -p.d))
Judged(p) == /\ p.r \notin {"nan", "inf", "-inf"}
             /\ \/ p.e \in -80..80 /\ p.d \in -30..30 /\ QLe(QAbs(p.r), QPow("2", 80))
                \/ /\ p.e \in -126..126 /\ p.d \in -37..37 /\ QLe(QAbs(p.r), QPow("2", 100))
                   /\ QLe(QPow("2", -100), Scale(p)) /\ QLe(Scale(p), QPow("2", 100))

Tol == "1/1048576"
Huge32 == QPow("2", 126)
\* o: an observed number
CloseTo(o, v, mag) == o \notin {"nan", "inf", "-inf"} /\ QLe(QAbs(QSub(o, v)), QAdd(QMul(Tol, mag), QPow("2", -140)))
ValueOk(p, x, o) ==
  LET s == QPow("10", -p.d)
      a == QMul(QAbs(p.r), s)
      b == QMul(QAbs(QMul(x, QPow("2", p.e))), s)
  IN QLt(Huge32, QAdd(a, b)) \/ QLt(Huge32, QAdd(QAbs(p.r), QAbs(QMul(x, QPow("2", p.e))))) \/ CloseTo(o, Value(p, x), QAdd(a, b))

---------------------------------------------------------------------------
(* The grid points of the bitmap *)
NoBitmap(f) == f.ind = 255
Present(f, i) == NoBitmap(f) \/ ((f.bm[(i - 1) \div 8 + 1] \div 2^(7 - ((i - 1) % 8))) % 2 = 1)
\* for every grid point the rank of its encoded value, 0 for missing ones
Ranks(f) == FoldLeft(LAMBDA a, i : IF Present(f, i) THEN [n |-> a.n + 1, r |-> Append(a.r, a.n + 1)]
                                                  ELSE [n |-> a.n, r |-> Append(a.r, 0)],
                     [n |-> 0, r |-> <<>>], [i \in 1..f.npts |-> i])

---------------------------------------------------------------------------
(* Verdicts: [k |-> "err"]: an error must be reported; [k |-> "any"]: the       *)
(* specification leaves it open; [k |-> "ok", xs, p]: the encoded values.  If   *)
(* fewer values are listed than the bitmap asks for, the data section does not  *)
(* hold (all of) them.                                                          *)
Err == [k |-> "err"]
Open == [k |-> "any"]

Nenc(s5) == U(s5, 0, 4)
Tmpl(s5) == s5[5] * 256 + s5[6]

Simple(f, need) ==
  IF Len(f.s5) < 16 THEN Err ELSE
  LET p == Param(f.s5) IN
  IF p.typ # 0 THEN Err
  ELSE IF p.nbit > 32 THEN Open
  ELSE LET have == IF p.nbit = 0 THEN Nenc(f.s5) ELSE Min2((8 * Len(f.s7)) \div p.nbit, Nenc(f.s5))
       IN [k |-> "ok", p |-> p,
           xs |-> [i \in 1..Min2(have, need) |-> IF p.nbit = 0 THEN "0" ELSE QBits(f.s7, (i - 1) * p.nbit, p.nbit)]]

(* Complex packing *)
CParam(s5) == [split |-> s5[17], mgmt |-> s5[18], ng |-> U(s5, 26, 4), wref |-> s5[31], wbits |-> s5[32],
               lref |-> U(s5, 32, 4), linc |-> s5[37], last |-> U(s5, 37, 4), lbits |-> s5[42]]

Tab(s, o, k, n, i) == IF n = 0 THEN "0" ELSE QBits(s, 8 * o + (i - 1) * n, n)

\* the tables of the groups: references, widths, lengths, and where the increments start
Tables(s7, o, nbit, c) ==
  LET o1 == o + CeilDiv(c.ng * nbit, 8)
      o2 == o1 + CeilDiv(c.ng * c.wbits, 8)
      o3 == o2 + CeilDiv(c.ng * c.lbits, 8)
  IN IF o3 > Len(s7) THEN [short |-> TRUE]
     ELSE [short |-> FALSE,
           ref |-> [i \in 1..c.ng |-> Tab(s7, o, 0, nbit, i)],
           width |-> [i \in 1..c.ng |-> Nat_(QAdd(QInt(c.wref), Tab(s7, o1, 0, c.wbits, i)))],
           len |-> [i \in 1..c.ng |-> IF i = c.ng THEN c.last
                                      ELSE Nat_(QAdd(QInt(c.lref), QMul(QInt(c.linc), Tab(s7, o2, 0, c.lbits, i))))],
           data |-> o3]

Ones(n) == QSub(QPow("2", n), "1")
\* one step of undoing the differences: y is the stored difference plus the minimum
Undo(order, st, y) ==
  IF st.n < order THEN st.first[st.n + 1]
  ELSE IF order = 0 THEN y
  ELSE IF order = 1 THEN QAdd(y, st.p1)
  ELSE QSub(QAdd(y, QAdd(st.p1, st.p1)), st.p2)

Start(t, first) == [g |-> 1, i |-> 0, bit |-> 8 * t.data, n |-> 0, p1 |-> "0", p2 |-> "0", first |-> first]

\* the first group at or after the state's that has a value left
RECURSIVE Seek(_, _)
Seek(t, st) == IF st.g <= Len(t.len) /\ st.i >= t.len[st.g] THEN Seek(t, [st EXCEPT !.g = @ + 1, !.i = 0]) ELSE st

\* draws one value: [end |-> TRUE] when the groups or their data are used up
Draw(s7, t, c, nbit, order, zmin, st0) ==
  LET st == Seek(t, st0) IN
  IF st.g > Len(t.len) THEN [end |-> TRUE]
  ELSE LET w == t.width[st.g]
           inc == IF w = 0 THEN "0" ELSE QBits(s7, st.bit, w)
           code == IF w = 0 THEN t.ref[st.g] ELSE inc
           top == Ones(IF w = 0 THEN nbit ELSE w)
           miss == \/ c.mgmt > 0 /\ code = top
                   \/ c.mgmt = 2 /\ code = QSub(top, "1")
           y == QAdd(QAdd(t.ref[st.g], inc), zmin)
           x == Undo(order, st, y)
           moved == [st EXCEPT !.i = @ + 1, !.bit = @ + w]
       IN \* the increments of a group are there as a whole or not at all
          IF w > 0 /\ (t.len[st.g] - st.i > (8 * Len(s7) - st.bit) \div w) THEN [end |-> TRUE]
          ELSE IF miss THEN [end |-> FALSE, x |-> Missing, st |-> moved]
          ELSE [end |-> FALSE, x |-> x, st |-> [moved EXCEPT !.n = @ + 1, !.p2 = st.p1, !.p1 = x]]

\* the first `need` values
DrawAll(s7, t, c, nbit, order, zmin, first, need) ==
  FoldLeft(LAMBDA a, k :
             IF a.end THEN a
             ELSE LET d == Draw(s7, t, c, nbit, order, zmin, a.st)
                  IN IF d.end THEN [a EXCEPT !.end = TRUE]
                     ELSE [end |-> FALSE, st |-> d.st, xs |-> Append(a.xs, d.x)],
           [end |-> FALSE, st |-> Start(t, first), xs |-> <<>>], [k \in 1..need |-> k]).xs

Complex(f, need, diff) ==
  IF Len(f.s5) < (IF diff THEN 44 ELSE 42) THEN Err ELSE
  LET p == Param(f.s5)
      c == CParam(f.s5)
      order == IF diff THEN f.s5[43] ELSE 0
      oct == IF diff THEN f.s5[44] ELSE 0
      skip == IF diff THEN (order + 1) * oct ELSE 0
      t == Tables(f.s7, skip, p.nbit, c)
      first == [i \in 1..order |-> QS(f.s7, (i - 1) * oct, oct)]
      zmin == IF diff THEN QS(f.s7, order * oct, oct) ELSE "0"
  IN IF p.typ # 0 \/ c.split # 1 \/ c.mgmt > 2 THEN Err
     ELSE IF diff /\ (order \notin {1, 2} \/ oct \notin 1..4) THEN Err
     ELSE IF skip > Len(f.s7) THEN Err
     ELSE IF p.nbit > 32 \/ c.ng > f.npts \/ c.wbits > 32 \/ c.lbits > 32 THEN Open
     ELSE IF t.short THEN Err
     ELSE IF \E i \in 1..c.ng : t.width[i] > 32 THEN Open
     \* no width to take the missing value of a constant group from
     ELSE IF p.nbit = 0 /\ c.mgmt > 0 /\ \E i \in 1..c.ng : t.width[i] = 0 THEN Open
     ELSE [k |-> "ok", p |-> p, xs |-> DrawAll(f.s7, t, c, p.nbit, order, zmin, first, Min2(need, Nenc(f.s5)))]

(* Run lengths with level values *)
RunParam(s5) == [nbit |-> s5[7], maxv |-> U(s5, 7, 2), nlev |-> U(s5, 9, 2), d |-> QToInt(QS(s5, 11, 1))]

\* the points expanded from the codes: [bad |-> ...] or the levels
Expand(s7, p, n) ==
  LET codes == (8 * Len(s7)) \div p.nbit
      base == 2^p.nbit - 1 - p.maxv
      step(a, k) ==
        LET v == QToInt(QBits(s7, (k - 1) * p.nbit, p.nbit))
            left == 8 * Len(s7) - (k - 1) * p.nbit
            add == QMul(QInt(v - p.maxv - 1), a.w)
        IN IF a.stop # "" THEN a
           ELSE IF Len(a.xs) = n /\ left < 8 THEN [a EXCEPT !.stop = IF v = 0 THEN "pad" ELSE "open"]
           ELSE IF v <= p.maxv
                THEN IF Len(a.xs) = n THEN [a EXCEPT !.stop = "err"]
                     ELSE [a EXCEPT !.xs = Append(@, v), !.w = "1", !.lev = v]
           ELSE IF a.lev = -1 THEN [a EXCEPT !.stop = "err"]
           ELSE IF QLt(QInt(n - Len(a.xs)), add) THEN [a EXCEPT !.stop = "err"]
           ELSE [a EXCEPT !.xs = @ \o [i \in 1..QToInt(add) |-> a.lev], !.w = QMul(@, QInt(base))]
      r == FoldLeft(step, [xs |-> <<>>, w |-> "1", lev |-> -1, stop |-> ""], [k \in 1..codes |-> k])
  IN IF r.stop = "open" THEN Open
     ELSE IF r.stop = "err" \/ Len(r.xs) # n THEN Err
     ELSE [k |-> "ok", xs |-> r.xs]

RunLength(f, need) ==
  IF Len(f.s5) < 12 THEN Err ELSE
  LET p == RunParam(f.s5) IN
  IF p.nbit \notin 1..16 THEN Open
  ELSE IF Len(f.s5) < 12 + 2 * p.nlev THEN Err
  \* not more points are coded than the grid has (larger numbers are left open)
  ELSE IF Nenc(f.s5) > f.npts THEN Open
  ELSE LET r == Expand(f.s7, p, Nenc(f.s5)) IN
       IF r.k # "ok" THEN r
       ELSE IF \E i \in 1..Len(r.xs) : r.xs[i] > p.nlev THEN Err
       ELSE [k |-> "ok", p |-> [r |-> "0", e |-> 0, d |-> p.d],
             xs |-> [i \in 1..Min2(need, Len(r.xs)) |->
                       IF r.xs[i] = 0 THEN Missing ELSE QU(f.s5, 12 + 2 * (r.xs[i] - 1), 2)]]

(* Images: what the image holds is recorded with the case, a PNG image with its *)
(* colour type ct, the depth and the channels ch of its pixels: gray images and  *)
(* the red, green, blue (and alpha) octets of 24 (32) bits are those of WMO      *)
Channels(ct) == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 1 [] ct = 4 -> 2 [] ct = 6 -> 4
OfWmo(ct, depth) == ct = 0 \/ (ct \in {2, 6} /\ depth = 8)
Pixel(ch, at, n, depth) == FoldLeft(LAMBDA a, x : QAdd(QMul(a, QPow("2", depth)), x), "0", SubSeq(ch, at + 1, at + n))
Pic(g) ==
  IF "ct" \notin DOMAIN g THEN g
  ELSE IF ~OfWmo(g.ct, g.depth) THEN [k |-> "bad", xs |-> <<>>]
  ELSE IF g.ct = 0 THEN [k |-> "ok", xs |-> g.ch]
  ELSE LET n == Channels(g.ct) IN [k |-> "ok", xs |-> [i \in 1..Len(g.ch) \div n |-> Pixel(g.ch, (i - 1) * n, n, g.depth)]]

Image(f, need) ==
  IF Len(f.s5) < 16 THEN Err ELSE
  LET p == Param(f.s5) IN
  IF p.typ # 0 THEN Err
  ELSE IF p.nbit > 32 THEN Open
  ELSE IF p.nbit = 0 THEN [k |-> "ok", p |-> p, xs |-> [i \in 1..Min2(Nenc(f.s5), need) |-> "0"]]
  ELSE LET g == Pic(f.img) IN
  IF g.k = "bad" THEN Err
  ELSE IF g.k = "open" \/ Len(g.xs) # Nenc(f.s5) \/ Nenc(f.s5) > f.npts THEN Open
  ELSE [k |-> "ok", p |-> p, xs |-> [i \in 1..Min2(Len(g.xs), need) |-> g.xs[i]]]

\* a build for WebAssembly leaves JPEG 2000 out; fields are of the usual build unless they say otherwise
Supported(f) == {0, 2, 3, 41, 200} \cup IF "jpeg" \notin DOMAIN f \/ f.jpeg THEN {40} ELSE {}

Encoded(f, need) ==
  CASE Tmpl(f.s5) = 0 -> Simple(f, need)
    [] Tmpl(f.s5) = 2 -> Complex(f, need, FALSE)
    [] Tmpl(f.s5) = 3 -> Complex(f, need, TRUE)
    [] Tmpl(f.s5) \in {40, 41} -> Image(f, need)
    [] Tmpl(f.s5) = 200 -> RunLength(f, need)

---------------------------------------------------------------------------
(* The whole field: the item of every grid point, as far as it is known *)
Field(f) ==
  IF f.ind \in 1..254 THEN Err
  ELSE IF Tmpl(f.s5) \notin Supported(f) THEN Err
  ELSE IF f.ind = 0 /\ 8 * Len(f.bm) < f.npts THEN Err
  ELSE LET rk == Ranks(f)
           e == Encoded(f, rk.n)
       IN IF e.k # "ok" THEN e
          ELSE LET have == Len(e.xs)
                   short == \E i \in 1..f.npts : rk.r[i] > have
                   known == IF short THEN (CHOOSE i \in 1..f.npts : rk.r[i] > have /\ \A j \in 1..(i - 1) : rk.r[j] <= have) - 1
                            ELSE f.npts
               IN [k |-> "ok", p |-> e.p, complete |-> known = f.npts,
                   items |-> [i \in 1..known |-> IF rk.r[i] = 0 THEN Missing ELSE e.xs[rk.r[i]]]]
=============================================================================
