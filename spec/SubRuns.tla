------------------------------- MODULE SubRuns -------------------------------
(* What a list of operations on the iterators of SubIter answers.               *)
EXTENDS SubIter
RECURSIVE RunOps(_, _, _, _)
RunOps(n, s, ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE LET r == Apply(n, s, ops[i]) IN <<r[2]>> \o RunOps(n, r[1], ops, i + 1)
=============================================================================
