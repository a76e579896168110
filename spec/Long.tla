--------------------------------- MODULE Long ---------------------------------
(* Decoding as a machine that draws one grid point at a time, for fields of any  *)
(* length.  Packing says what the octets mean; here the parts of a field that do *)
(* not change are worked out once (Setup) and the rest is the machine's state    *)
(*   i   grid points drawn      r  encoded values drawn                          *)
(*   s   where in the data the next one is, and what the recurrences remember    *)
(* It draws points of well-formed fields; what else there is, Packing says.      *)
EXTENDS Packing

Force(q) == q \o <<>>
ForceT(t) == [t EXCEPT !.ref = Force(@), !.width = Force(@), !.len = Force(@)]

Setup(f) ==
  CASE Tmpl(f.s5) \in {0, 40, 41} -> [p |-> Param(f.s5)]
    [] Tmpl(f.s5) \in {2, 3} ->
         LET diff == Tmpl(f.s5) = 3
             order == IF diff THEN f.s5[43] ELSE 0
             oct == IF diff THEN f.s5[44] ELSE 0
             p == Param(f.s5)
             c == CParam(f.s5)
         IN [p |-> p, c |-> c, order |-> order,
             t |-> ForceT(Tables(f.s7, (IF diff THEN (order + 1) * oct ELSE 0), p.nbit, c)),
             first |-> Force([i \in 1..order |-> QS(f.s7, (i - 1) * oct, oct)]),
             zmin |-> IF diff THEN QS(f.s7, order * oct, oct) ELSE "0"]
    [] Tmpl(f.s5) = 200 -> LET p == RunParam(f.s5) IN [p |-> [r |-> "0", e |-> 0, d |-> p.d], run |-> p, codes |-> (8 * Len(f.s7)) \div p.nbit]

Begin(f, u) == [i |-> 0, r |-> 0, end |-> FALSE, x |-> Missing,
                s |-> CASE Tmpl(f.s5) \in {2, 3} -> Start(u.t, u.first) [] Tmpl(f.s5) = 200 -> [pos |-> 0, lev |-> 0, rem |-> 0] [] OTHER -> 0]

RunCode(f, u, pos) == QToInt(QBits(f.s7, pos * u.run.nbit, u.run.nbit))
RECURSIVE RunDigits(_, _, _, _, _)
RunDigits(f, u, pos, w, n) ==
  IF pos >= u.codes THEN [pos |-> pos, n |-> n]
  ELSE LET v == RunCode(f, u, pos) IN
       IF v <= u.run.maxv THEN [pos |-> pos, n |-> n]
       ELSE RunDigits(f, u, pos + 1, QMul(w, QInt(2^u.run.nbit - 1 - u.run.maxv)), QAdd(n, QMul(QInt(v - u.run.maxv - 1), w)))

\* the next encoded value: x, the state after it; end if there is none
EncodedNext(f, u, r, s) ==
  CASE Tmpl(f.s5) = 0 ->
         IF r >= Nenc(f.s5) \/ (r + 1) * u.p.nbit > 8 * Len(f.s7) THEN [end |-> TRUE]
         ELSE [end |-> FALSE, st |-> 0, x |-> IF u.p.nbit = 0 THEN "0" ELSE QBits(f.s7, r * u.p.nbit, u.p.nbit)]
    [] Tmpl(f.s5) \in {40, 41} ->
         IF u.p.nbit = 0 THEN [end |-> FALSE, st |-> 0, x |-> "0"]
         ELSE IF r >= Len(f.img.xs) THEN [end |-> TRUE] ELSE [end |-> FALSE, st |-> 0, x |-> f.img.xs[r + 1]]
    [] Tmpl(f.s5) \in {2, 3} -> IF r >= Nenc(f.s5) THEN [end |-> TRUE] ELSE Draw(f.s7, u.t, u.c, u.p.nbit, u.order, u.zmin, s)
    [] Tmpl(f.s5) = 200 ->
         LET item(lev) == IF lev = 0 THEN Missing ELSE QU(f.s5, 12 + 2 * (lev - 1), 2) IN
         IF s.rem > 0 THEN [end |-> FALSE, x |-> item(s.lev), st |-> [s EXCEPT !.rem = @ - 1]]
         ELSE IF s.pos >= u.codes \/ RunCode(f, u, s.pos) > u.run.maxv THEN [end |-> TRUE]
         ELSE LET lev == RunCode(f, u, s.pos) d == RunDigits(f, u, s.pos + 1, "1", "0")
              IN [end |-> FALSE, x |-> item(lev), st |-> [pos |-> d.pos, lev |-> lev, rem |-> Nat_(d.n)]]

\* the item of the next grid point
DrawPoint(f, u, m) ==
  IF ~Present(f, m.i + 1) THEN [m EXCEPT !.i = @ + 1, !.x = Missing]
  ELSE LET d == EncodedNext(f, u, m.r, m.s) IN
       IF d.end THEN [m EXCEPT !.end = TRUE]
       ELSE [m EXCEPT !.i = @ + 1, !.r = @ + 1, !.s = d.st, !.x = d.x]

\* The k-th encoded value of a field without differences, found by passing over whole
\* groups and runs: what the machine draws after k - 1 values
FarGroup(f, u, k) ==
  LET t == u.t
      r == FoldLeft(LAMBDA a, g : IF a.g # 0 THEN a
                                  ELSE IF a.n + t.len[g] >= k THEN [a EXCEPT !.g = g]
                                  ELSE [a EXCEPT !.n = @ + t.len[g], !.bit = @ + t.len[g] * t.width[g]],
                    [g |-> 0, n |-> 0, bit |-> 8 * t.data], [g \in 1..Len(t.len) |-> g])
      w == t.width[r.g]
      inc == IF w = 0 THEN "0" ELSE QBits(f.s7, r.bit + (k - 1 - r.n) * w, w)
      code == IF w = 0 THEN t.ref[r.g] ELSE inc
      top == Ones(IF w = 0 THEN u.p.nbit ELSE w)
  IN IF (u.c.mgmt > 0 /\ code = top) \/ (u.c.mgmt = 2 /\ code = QSub(top, "1")) THEN Missing ELSE QAdd(QAdd(t.ref[r.g], inc), u.zmin)

RECURSIVE FarRun(_, _, _, _)
FarRun(f, u, pos, k) ==
  LET d == RunDigits(f, u, pos + 1, "1", "0") IN
  IF QLe(QInt(k), QAdd(d.n, "1"))
  THEN LET lev == RunCode(f, u, pos) IN IF lev = 0 THEN Missing ELSE QU(f.s5, 12 + 2 * (lev - 1), 2)
  ELSE FarRun(f, u, d.pos, k - 1 - QToInt(d.n))

HasFar(f, u) == Tmpl(f.s5) \in {0, 2, 200}
Far(f, u, k) ==
  CASE Tmpl(f.s5) = 0 -> IF u.p.nbit = 0 THEN "0" ELSE QBits(f.s7, (k - 1) * u.p.nbit, u.p.nbit)
    [] Tmpl(f.s5) = 2 -> FarGroup(f, u, k)
    [] Tmpl(f.s5) = 200 -> FarRun(f, u, 0, k)
===============================================================================
