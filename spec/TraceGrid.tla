------------------------------- MODULE TraceGrid -------------------------------
(* What the real code says about grids, held against Grid.  Records:             *)
(*  t = "ij":   a grid of ni by nj points (strings) and scanning mode, and the   *)
(*              run of its index iterator;                                       *)
(*  t = "file": the payload p of a grid definition section of a file, and what   *)
(*              the submessage says about its grid; look names the parts to      *)
(*              judge (shape, ij, latlons, proj);                                *)
(*  t = "gauss": the degree n and the latitudes found for it (radians);          *)
(*  t = "long": the payload p of a grid with many points, and the points and     *)
(*              coordinates at the positions at of their sequences, with the     *)
(*              lengths announced before them and the numbers of items in all;   *)
(*  t = "flags": an octet m and what scanning mode and projection centre flags   *)
(*              of it say;                                                       *)
(*  t = "radii": 16 octets describing the earth and the axes found.              *)
(* feature: whether the library that answered has its projection feature.        *)
(* A run is res, the items drawn (at most cap + 1), hints[k+1] = the bounds on   *)
(* the remaining number announced after k items ("-1": none) in numbers of word  *)
(* bits, and tail, the items of a clone taken after clone items (-1: none).      *)
EXTENDS Grid, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

Min2(a, b) == IF a < b THEN a ELSE b
\* the number of items to expect of npts
Drawn(npts, cap) == IF QLe(npts, QInt(cap)) THEN QToInt(npts) ELSE cap + 1

\* what can be announced of a number by bounds of so many bits
Announced(left, word) == LET most == QSub(QPow("2", word), "1") IN IF QLe(left, most) THEN <<left, left>> ELSE <<most, "-1">>

\* lengths, announcements and clones of a run over npts points
RunOk(r, npts, items, cap) ==
  /\ r.res.k = "ok" /\ Len(items) = Drawn(npts, cap)
  /\ \A k \in 1..Len(r.hints) : r.hints[k] = Announced(QSub(npts, QInt(k - 1)), r.word)
  /\ r.clone >= 0 /\ r.clone <= Len(items) /\ r.clone <= cap =>
       /\ Len(r.tail) = Drawn(QSub(npts, QInt(r.clone)), cap)
       /\ \A k \in 1..Min2(Len(r.tail), Len(items) - r.clone) : r.tail[k] = items[r.clone + k]

\* the points, for numbers of points per row that may be large
IjOk(r, m, ni, nj, cap) ==
  LET minor == IF ConsJ(m) THEN nj ELSE ni npts == QMul(ni, nj) IN
  /\ RunOk(r, npts, r.ij, cap) /\ r.fused
  /\ \A k \in 1..Len(r.ij) :
       LET q == QFloor(QDiv(QInt(k - 1), minor))
           rem == QSub(QInt(k - 1), QMul(q, minor))
           qi == QToInt(q)
           c == IF Alt(m) /\ qi % 2 = 1 THEN QSub(minor, QAdd(rem, "1")) ELSE rem
       IN r.ij[k] = IF ConsJ(m) THEN <<q, c>> ELSE <<c, q>>

Fail(r) == r.res.k = "err"

IjCase(c) == IF ~ModeOk(c.mode) THEN Fail(c.run) ELSE IjOk(c.run, c.mode, c.ni, c.nj, c.cap)

\* --- coordinates ---------------------------------------------------------------
KX == "1000000"   \* the stand-in for the projector: metres per radian
KY == "3000000"
Deg(k) == QDiv("180", QMul(Pi, k))

ProjTol(want, a, b) ==
  QAdd(QMul(QAbs(want), "1/8388608"), QAdd(QMul(QAdd(QAbs(a), QAbs(b)), "1/1099511627776"), "1/1000000000000000"))

PointsOk(c) ==
  LET p == c.p m == Mode(p) r == c.latlons
      n == Len(r.pts)
      at(k) == Point(m, QToInt(Ni(p)), QToInt(Nj(p)), k - 1)
      lat(k) == QF32Of(r.pts[k][1])  lon(k) == QF32Of(r.pts[k][2])
      num(k) == r.pts[k][1] # "-1" /\ r.pts[k][2] # "-1"
  IN
  /\ RunOk(r, NPts(p), r.pts, c.cap)
  /\ \A k \in 1..n : num(k)
  /\ n > 0 =>
     IF Projected(p)
     THEN LET la == Degrees(Lat1(p)) lo == Degrees(Lon1(p))
              sy == QMul(Dy(p), Deg(KY)) sx == QMul(Dx(p), Deg(KX)) IN
          \A k \in 1..n :
            LET ij == at(k) a == QMul(sy, QInt(ij[2])) b == QMul(sx, QInt(ij[1])) IN
            /\ QLe(QAbs(QSub(lat(k), QAdd(la, a))), ProjTol(QAdd(la, a), la, a))
            /\ QLe(QAbs(QSub(lon(k), QAdd(lo, b))), ProjTol(QAdd(lo, b), lo, b))
     ELSE LET w == LonWay(p) sx == Step(w.s, w.e, Ni(p)) sy == Step(Lat1(p), Lat2(p), Nj(p)) IN
          /\ \A k \in 1..n : LonOk(p, w, sx, at(k)[1], lon(k))
          /\ IF Tmpl(p) = 0 THEN \A k \in 1..n : LatOk(p, sy, at(k)[2], lat(k))
             ELSE \* every row has one latitude; from north to south they are the roots
               LET nj == QToInt(Nj(p)) ni == QToInt(Ni(p))
                   whole == n = ni * nj
                   \* the position of the first point of row j
                   pos(j) == IF ConsJ(m) THEN j + 1 ELSE j * ni + 1
                   row == [j \in 0..nj-1 |-> r.pts[pos(j)][1]]
                   south(j) == IF PosJ(m) THEN nj - 1 - j ELSE j
                   rad == [k \in 1..nj |-> QMul(QF32Of(row[south(k - 1)]), QDiv(Pi, "180"))]
               IN whole =>
                  /\ \A k \in 1..n : r.pts[k][1] = row[at(k)[2]]
                  /\ AllRoots(nj, rad, "1/5000000")

FileCase(c) ==
  LET p == c.p look(x) == \E i \in 1..Len(c.look) : c.look[i] = x
      t == Template(p)  o == Order(p)  w == CoordsIn(p, ~c.projfail, c.feature) IN
  /\ look("shape") =>
       CASE t = "err" -> c.name = "-" /\ Fail(c.shape)
         [] t = "ok" -> c.name = Name(p) /\ c.shape.res.k = "ok" /\ c.shape.shape = <<Ni(p), Nj(p)>>
         [] OTHER -> c.shape.res.k \in {"ok", "err"}
  /\ look("ij") =>
       CASE o = "err" -> Fail(c.ij)
         [] o = "ok" -> IjOk(c.ij, Mode(p), Ni(p), Nj(p), c.cap)
         [] OTHER -> c.ij.res.k \in {"ok", "err"}
  /\ look("latlons") =>
       CASE w = "err" -> Fail(c.latlons)
         [] w = "not" -> Fail(c.latlons) /\ c.latlons.res.e = "NotSupported"
         [] w = "ok" -> PointsOk(c)
         [] OTHER -> c.latlons.res.k \in {"ok", "err"}
  \* the refusals alone
  /\ look("refusal") =>
       /\ c.ij.res.k \in {"ok", "err"} /\ (o # "any" => c.ij.res.k = o)
       /\ c.latlons.res.k \in {"ok", "err"} /\ (w # "any" => c.latlons.res.k = IF w = "not" THEN "err" ELSE w)
  /\ look("proj") /\ w = "ok" /\ Projected(p) => \A i \in 1..Len(c.defs) : DefOk(p, c.defs[i])
  /\ look("proj") /\ w = "ok" /\ Projected(p) => Len(c.defs) > 0

\* a double is two words (high, low), <<>> for "none", <<"-1">> for NaN and infinity
D(x) == QF64Of(QAdd(QMul(x[1], "4294967296"), x[2]))
GaussCase(c) ==
  /\ c.res.k = "ok" /\ Len(c.lats) = c.n
  /\ IF \E k \in 1..c.n : Len(c.lats[k]) # 2 THEN c.n > 1280 /\ \A k \in 1..c.n : Len(c.lats[k]) \in {0, 2}
     ELSE AllRoots(c.n, [k \in 1..c.n |-> D(c.lats[k])], "1/100000000000")

RadiiCase(c) ==
  LET w == Radii(c.p, 0) IN
  CASE w = <<>> -> c.res.k = "none"
    [] w = <<"any">> -> c.res.k \in {"ok", "none"}
    [] OTHER -> c.res.k = "ok" /\ Len(c.a) = 2 /\ Len(c.b) = 2 /\ Close(D(c.a), w[1]) /\ Close(D(c.b), w[2])

\* the point at a position of a sequence of any length
PointAt(p, k) ==
  LET m == Mode(p) minor == IF ConsJ(m) THEN Nj(p) ELSE Ni(p)
      q == QFloor(QDiv(k, minor)) rem == QSub(k, QMul(q, minor)) IN Visit(m, QToInt(minor), QToInt(q), QToInt(rem))
\* the r-th latitude (from 1) from the north of n; no other lies within a third of a step
Latitude(n, r, x) ==
  LET guess == QSub(QDiv(Pi, "2"), QMul(Pi, QDiv(QInt(4 * r - 1), QInt(4 * n + 2)))) IN
  /\ QLe(QAbs(QSub(x, guess)), QDiv("1", QInt(n + 1)))
  /\ NearRoot(n, x, "1/5000000")
LongCase(c) ==
  LET p == c.p m == Mode(p) look(x) == \E i \in 1..Len(c.look) : c.look[i] = x
      o == Order(p)  w == CoordsIn(p, TRUE, c.feature)
      whole(r) == /\ r.res.k = "ok" /\ r.total = NPts(p) /\ Len(r.items) = Len(c.at) /\ Len(r.hints) >= Len(c.at)
                  /\ \A k \in 1..Len(c.at) : LET left == QSub(NPts(p), c.at[k]) IN r.hints[k] = <<left, left>>
      lat(k) == QF32Of(c.latlons.items[k][1])  lon(k) == QF32Of(c.latlons.items[k][2])
  IN
  /\ look("ij") =>
       CASE o = "err" -> Fail(c.ij)
         [] o = "ok" -> whole(c.ij) /\ \A k \in 1..Len(c.at) : LET v == PointAt(p, c.at[k]) IN c.ij.items[k] = <<ToString(v[1]), ToString(v[2])>>
         [] OTHER -> TRUE
  /\ look("latlons") =>
       CASE w \in {"err", "not"} -> Fail(c.latlons)
         [] w = "ok" ->
              /\ whole(c.latlons)
              /\ \A k \in 1..Len(c.at) :
                   LET v == PointAt(p, c.at[k]) x == c.latlons.items[k] IN
                   /\ x[1] # "-1" /\ x[2] # "-1"
                   /\ IF Projected(p)
                      THEN LET la == Degrees(Lat1(p)) lo == Degrees(Lon1(p))
                               a == QMul(QMul(Dy(p), Deg(KY)), QInt(v[2])) b == QMul(QMul(Dx(p), Deg(KX)), QInt(v[1])) IN
                           /\ QLe(QAbs(QSub(lat(k), QAdd(la, a))), ProjTol(QAdd(la, a), la, a))
                           /\ QLe(QAbs(QSub(lon(k), QAdd(lo, b))), ProjTol(QAdd(lo, b), lo, b))
                      ELSE /\ LET way == LonWay(p) IN LonOk(p, way, Step(way.s, way.e, Ni(p)), v[1], lon(k))
                           /\ IF Tmpl(p) = 0 THEN LatOk(p, Step(Lat1(p), Lat2(p), Nj(p)), v[2], lat(k))
                              ELSE LET nj == QToInt(Nj(p)) IN
                                   Latitude(nj, IF PosJ(m) THEN nj - v[2] ELSE v[2] + 1, QMul(lat(k), QDiv(Pi, "180")))
         [] OTHER -> TRUE

FlagCase(c) ==
  /\ c.mode = <<PosI(c.m), PosJ(c.m), ~ConsJ(c.m), Alt(c.m)>>
  /\ c.centre = <<c.m < 128, (c.m \div 64) % 2 = 1>>

Ok(c) == CASE c.t = "long" -> LongCase(c) [] c.t = "flags" -> FlagCase(c) [] c.t = "ij" -> IjCase(c) [] c.t = "file" -> FileCase(c)
           [] c.t = "gauss" -> GaussCase(c) [] c.t = "radii" -> RadiiCase(c)

Kind(c) == CASE c.t = "long" -> CoordsIn(c.p, TRUE, c.feature) [] c.t = "file" -> <<Order(c.p), CoordsIn(c.p, ~c.projfail, c.feature)>>[IF \E i \in 1..Len(c.look) : c.look[i] \in {"latlons", "proj", "refusal"} THEN 2 ELSE 1]
             [] OTHER -> c.t

Want(c) == IF c.t \in {"file", "long"} THEN [template |-> Template(c.p), order |-> Order(c.p), coords |-> CoordsIn(c.p, c.t = "long" \/ ~c.projfail, c.feature),
                                 ni |-> IF Template(c.p) = "ok" THEN Ni(c.p) ELSE "", nj |-> IF Template(c.p) = "ok" THEN Nj(c.p) ELSE ""]
           ELSE [t |-> c.t]

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"ok", "err", "any", "not", "ij", "gauss", "radii", "flags"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Kind(Cases[l])] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
