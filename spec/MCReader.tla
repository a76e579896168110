------------------------------ MODULE MCReader ------------------------------
(* The machine of Reader on every file over a small alphabet, under every      *)
(* schedule of reads, with the layout shrunk: a message is  1 2 v l  sections 3,*)
(* a section is  l n  body.                                                     *)
EXTENDS Integers, Sequences

CONSTANTS MaxLen, Alphabet

VARIABLES file, pos, rest, want, buf, pc, head, out, faulted


\* section 6 must have a body of one octet at least, section 7 may be empty
R == INSTANCE Reader WITH
  Magic <- <<1, 2>>, IS <- 4, VerPos <- 2, Version <- 2, LenPos <- 3, LenN <- 1, HLen <- 1,
  EndMark <- <<3>>, Window <- 5, Cap <- 200,
  MinSize <- LAMBDA n : IF n = 6 THEN 3 ELSE IF n = 7 THEN 2 ELSE 0,
  BodyOk <- LAMBDA f, n, o : f[o + 3] # 9

Files == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

\* files with a beginning of a message, so that depth is spent on sections
Deep == {<<1, 2, 2, l>> \o s : l \in {4, 5, 8, 9, 11, 12}, s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}}

Init == R!MInit(Files \cup Deep)
Next == R!MNext(1..5)
Spec == Init /\ [][Next]_<<file, pos, rest, want, buf, pc, head, out, faulted>>

Faithful == R!Faithful
Position == R!Position
Bounds == R!Bounds
=============================================================================
