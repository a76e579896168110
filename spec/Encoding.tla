------------------------------ MODULE Encoding ------------------------------
(* The packer's side: octets for given points.  Points are integers or Hole (missing). *)
EXTENDS Packing

Hole == 99999

\* the bits of a sequence of <<value, width>> pairs, first bit first
BitsOf(v, w) == [i \in 1..w |-> (v \div 2^(w - i)) % 2]
BitStream(items) == FoldLeft(LAMBDA a, it : a \o BitsOf(it[1], it[2]), <<>>, items)
\* one bit stream, zero padded to an octet
Octets(items) ==
  LET b == BitStream(items)
      bit(k) == IF k <= Len(b) THEN b[k] ELSE 0
      oct(j) == LET o == 8 * (j - 1) IN
                128 * bit(o + 1) + 64 * bit(o + 2) + 32 * bit(o + 3) + 16 * bit(o + 4) + 8 * bit(o + 5) + 4 * bit(o + 6)
                + 2 * bit(o + 7) + bit(o + 8)
  IN [j \in 1..CeilDiv(Len(b), 8) |-> oct(j)]
Fixed(vals, w) == Octets([i \in 1..Len(vals) |-> <<vals[i], w>>])
Int_(v, n) == Octets(<<<<v, 8 * n>>>>)                             \* n <= 3
Int4(v) == <<v \div 16777216>> \o Int_(v % 16777216, 3)
Signed(v, n) == IF v >= 0 THEN Int_(v, n) ELSE Octets(<<<<1, 1>>, <<-v, 8 * n - 1>>>>)

IsVal(x) == x # Hole
Vals(pts) == SelectSeq(pts, IsVal)

\* single-precision zero, no binary or decimal scaling
Plain(nbit) == <<0, 0, 0, 0, 0, 0, 0, 0, nbit, 0>>
Sect5Head(n, tmpl) == Int4(n) \o Int_(tmpl, 2)

\* smallest width that holds v
Width(v) == CHOOSE w \in 0..31 : v < 2^w /\ \A u \in 0..(w - 1) : v >= 2^u

NoImage == [k |-> "none", xs |-> <<>>]

---------------------------------------------------------------------------
(* Simple packing; missing points by bitmap *)
EncSimple(pts, nbit, bitmap, pad) ==
  LET xs == Vals(pts) IN
  [npts |-> Len(pts), ind |-> IF bitmap THEN 0 ELSE 255,
   bm |-> IF bitmap THEN Octets([i \in 1..Len(pts) |-> <<IF IsVal(pts[i]) THEN 1 ELSE 0, 1>>]
                                \o [i \in 1..((8 - (Len(pts) % 8)) % 8) |-> <<pad, 1>>]) ELSE <<>>,
   s5 |-> Sect5Head(Len(xs), 0) \o Plain(nbit), s7 |-> IF nbit = 0 THEN <<>> ELSE Fixed(xs, nbit), img |-> NoImage]

---------------------------------------------------------------------------
(* Complex packing: groups is a sequence of non-empty sequences of points *)
Concat(groups) == FoldLeft(LAMBDA a, g : a \o g, <<>>, groups)
MinOf(s) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, s[1], s)
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)

\* the differences of a sequence of integers; the first `order` of them are arbitrary (0)
Diffs(v, order) ==
  [i \in 1..Len(v) |-> IF i <= order THEN 0
                       ELSE IF order = 0 THEN v[i] ELSE IF order = 1 THEN v[i] - v[i - 1] ELSE v[i] - 2 * v[i - 1] + v[i - 2]]

\* puts the values ys back at the places of the non-missing points of a group sequence
Refill(groups, ys) ==
  FoldLeft(LAMBDA a, g :
             LET r == FoldLeft(LAMBDA b, x : IF x = Hole THEN [n |-> b.n, s |-> Append(b.s, Hole)]
                                             ELSE [n |-> b.n + 1, s |-> Append(b.s, ys[b.n + 1])],
                               [n |-> a.n, s |-> <<>>], g)
             IN [n |-> r.n, gs |-> Append(a.gs, r.s)],
           [n |-> 0, gs |-> <<>>], groups).gs

\* c: [order, oct, mgmt, wide]; wide: constant groups get increments all the same
EncComplex(groups, c) ==
  LET pts == Concat(groups)
      v == Vals(pts)
      d == Diffs(v, c.order)
      rest == SubSeq(d, c.order + 1, Len(d))
      zmin == IF c.order = 0 \/ rest = <<>> THEN 0 ELSE MinOf(rest)
      y == [i \in 1..Len(v) |-> IF i <= c.order THEN 0 ELSE d[i] - zmin]
      gs == Refill(groups, y)
      ng == Len(gs)
      res == c.mgmt     \* all-ones patterns set aside
      const(g) == \A i \in 1..Len(g) : g[i] = g[1]
      ref(g) == IF Vals(g) = <<>> THEN 0 ELSE MinOf(Vals(g))
      maxref == IF ng = 0 THEN 0 ELSE MaxOf([i \in 1..ng |-> ref(gs[i])])
      nbit == Max2(1, Width(maxref + res))
      flat(g) == const(g) /\ ~c.wide
      gref(g) == IF flat(g) /\ g[1] = Hole THEN 2^nbit - 1 ELSE ref(g)
      w(g) == IF flat(g) THEN 0 ELSE IF Vals(g) = <<>> THEN 1 ELSE Max2(1, Width(MaxOf(Vals(g)) - ref(g) + res))
      \* for management 2, alternate between the two missing patterns by group length
      mcode(g, width) == IF c.mgmt = 2 /\ Len(g) % 2 = 0 THEN 2^width - 2 ELSE 2^width - 1
      inc(g) == [i \in 1..Len(g) |-> <<IF g[i] = Hole THEN mcode(g, w(g)) ELSE g[i] - ref(g), w(g)>>]
      wmin == IF ng = 0 THEN 0 ELSE MinOf([i \in 1..ng |-> w(gs[i])])
      wbits == IF ng = 0 THEN 0 ELSE Width(MaxOf([i \in 1..ng |-> w(gs[i]) - wmin]))
      ls == [i \in 1..ng |-> Len(gs[i])]
      lmin == IF ng < 2 THEN 0 ELSE MinOf(SubSeq(ls, 1, ng - 1))
      lsc == [i \in 1..ng |-> IF i = ng THEN 0 ELSE ls[i] - lmin]
      lbits == IF ng = 0 THEN 0 ELSE Width(MaxOf(lsc))
      first == [i \in 1..c.order |-> IF i <= Len(v) THEN v[i] ELSE 0]
      extra == IF c.order = 0 THEN <<>>
               ELSE FoldLeft(LAMBDA a, x : a \o Signed(x, c.oct), <<>>, first \o <<zmin>>)
  IN [npts |-> Len(pts), ind |-> 255, bm |-> <<>>, img |-> NoImage,
      s5 |-> Sect5Head(Len(pts), IF c.order = 0 THEN 2 ELSE 3) \o Plain(nbit) \o <<1, c.mgmt>> \o [i \in 1..8 |-> 255]
             \o Int4(ng) \o <<wmin, wbits>> \o Int4(lmin) \o <<1>> \o Int4(IF ng = 0 THEN 0 ELSE ls[ng]) \o <<lbits>>
             \o (IF c.order = 0 THEN <<>> ELSE <<c.order, c.oct>>),
      s7 |-> extra \o Fixed([i \in 1..ng |-> gref(gs[i])], nbit) \o Fixed([i \in 1..ng |-> w(gs[i]) - wmin], wbits)
             \o Fixed(lsc, lbits) \o Octets(FoldLeft(LAMBDA a, g : a \o inc(g), <<>>, gs))]

---------------------------------------------------------------------------
(* Run lengths: points are levels 1..maxv or Hole (level 0) *)
Runs(pts) ==
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, a[Len(a)][2] + 1>>]
                         ELSE Append(a, <<x, 1>>), <<>>, pts)
RECURSIVE Digits(_, _, _)
Digits(n, base, off) == IF n = 0 THEN <<>> ELSE <<off + (n % base)>> \o Digits(n \div base, base, off)
EncRun(pts, nbit, maxv, split) ==
  LET base == 2^nbit - 1 - maxv
      rs == IF split \/ base < 2 THEN [i \in 1..Len(pts) |-> <<pts[i], 1>>] ELSE Runs(pts)
      code(r) == <<IF r[1] = Hole THEN 0 ELSE r[1]>> \o Digits(r[2] - 1, base, maxv + 1)
  IN [npts |-> Len(pts), ind |-> 255, bm |-> <<>>, img |-> NoImage,
      s5 |-> Sect5Head(Len(pts), 200) \o <<nbit>> \o Int_(maxv, 2) \o Int_(maxv, 2) \o <<0>>
             \o FoldLeft(LAMBDA a, k : a \o Int_(k, 2), <<>>, [k \in 1..maxv |-> k]),
      s7 |-> Fixed(FoldLeft(LAMBDA a, r : a \o code(r), <<>>, rs), nbit)]
=============================================================================
