--------------------------------- MODULE Scan ---------------------------------
(* The scanning order of GRIB2 grids (flag table 3.4).                           *)
EXTENDS Integers

\* --- scanning mode, an octet ---------------------------------------------------
PosI(m)  == (m \div 128) % 2 = 0
PosJ(m)  == (m \div 64) % 2 = 1
ConsJ(m) == (m \div 32) % 2 = 1
Alt(m)   == (m \div 16) % 2 = 1
ModeOk(m) == m % 16 = 0

\* the k-th point (from 0) in scanning order: <<i, j>>, both counting from the
\* first grid point.  minor is the number of points in a row (>= 1), q and r the
\* quotient and remainder of k by it
Visit(m, minor, q, r) ==
  LET c == IF Alt(m) /\ q % 2 = 1 THEN minor - 1 - r ELSE r
  IN IF ConsJ(m) THEN <<q, c>> ELSE <<c, q>>
Point(m, ni, nj, k) ==
  LET minor == IF ConsJ(m) THEN nj ELSE ni IN Visit(m, minor, k \div minor, k % minor)
===============================================================================
