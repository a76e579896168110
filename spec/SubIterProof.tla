------------------------------ MODULE SubIterProof ------------------------------
(* Of the iterators of SubIter, for sequences of any length, any position and any   *)
(* argument: positions stay within the sequence and only the iterator in use moves   *)
(* (Bounds, Apart); to take the k-th is to take k and then one more, and two steps    *)
(* make one (Steps); what is taken and what is left make up what there was (Split).   *)
(* Checked by tlapm (thorough tier of C26).                                          *)
EXTENDS SubIter, TLAPS

State(n) == [its : Seq(0..n), cur : Nat]
Ok(n, s) == s \in State(n) /\ s.cur \in 1..Len(s.its)
Names == OfElements \cup {"hint", "count", "clone", "use"}

THEOREM Bounds == ASSUME NEW n \in Nat, NEW s, Ok(n, s), NEW k \in Nat, NEW name \in Names
                  PROVE  Ok(n, Apply(n, s, <<name, k>>)[1])
<1> DEFINE p == s.its[s.cur]
<1>1. p \in 0..n /\ s.its \in Seq(0..n) /\ s.cur \in 1..Len(s.its) /\ Len(s.its) \in Nat BY DEF Ok, State
<1>2. \A q \in 0..n : Ok(n, [s EXCEPT !.its[s.cur] = q])
  <2> TAKE q \in 0..n
  <2>1. [s.its EXCEPT ![s.cur] = q] \in Seq(0..n) /\ Len([s.its EXCEPT ![s.cur] = q]) = Len(s.its) BY <1>1
  <2> QED BY <1>1, <2>1 DEF Ok, State
<1>3. CASE name \in {"next", "nth", "skip"}
  <2> DEFINE kk == IF name = "next" THEN 0 ELSE k
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.its[s.cur] = IF kk < n - p THEN p + kk + 1 ELSE n] BY <1>3 DEF Apply
  <2>2. (IF kk < n - p THEN p + kk + 1 ELSE n) \in 0..n BY <1>1
  <2> QED BY <1>2, <2>1, <2>2
<1>4. CASE name = "clone"
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.its = Append(@, p)] BY <1>4 DEF Apply
  <2>2. Append(s.its, p) \in Seq(0..n) /\ Len(Append(s.its, p)) = Len(s.its) + 1 BY <1>1
  <2> QED BY <1>1, <2>1, <2>2 DEF Ok, State
<1>5. CASE name = "use"
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.cur = (k % Len(s.its)) + 1] BY <1>5 DEF Apply
  <2>2. k % Len(s.its) \in 0..(Len(s.its) - 1) BY <1>1
  <2> QED BY <1>1, <2>1, <2>2 DEF Ok, State
<1>6. CASE name \notin {"next", "nth", "skip", "clone", "use"}
  <2>1. Apply(n, s, <<name, k>>)[1] = s BY <1>6 DEF Apply, Names, OfElements
  <2> QED BY <2>1
<1> QED BY <1>3, <1>4, <1>5, <1>6

THEOREM Apart == ASSUME NEW n \in Nat, NEW s, Ok(n, s), NEW k \in Nat, NEW name \in Names, NEW i \in 1..Len(s.its), i # s.cur
                 PROVE  Apply(n, s, <<name, k>>)[1].its[i] = s.its[i]
<1> DEFINE p == s.its[s.cur]
<1>1. s \in State(n) /\ p \in 0..n /\ s.its \in Seq(0..n) /\ s.cur \in 1..Len(s.its) /\ Len(s.its) \in Nat BY DEF Ok, State
<1>2. CASE name \in {"next", "nth", "skip"}
  <2> DEFINE kk == IF name = "next" THEN 0 ELSE k
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.its[s.cur] = IF kk < n - p THEN p + kk + 1 ELSE n] BY <1>2 DEF Apply
  <2>2. \A q : [s EXCEPT !.its[s.cur] = q].its = [s.its EXCEPT ![s.cur] = q] BY <1>1 DEF State
  <2>3. \A q : [s.its EXCEPT ![s.cur] = q][i] = s.its[i] BY <1>1
  <2> QED BY <2>1, <2>2, <2>3
<1>4. CASE name = "clone"
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.its = Append(@, p)] BY <1>4 DEF Apply
  <2>2. [s EXCEPT !.its = Append(@, p)].its = Append(s.its, p) BY <1>1 DEF State
  <2>3. Append(s.its, p)[i] = s.its[i] BY <1>1
  <2> QED BY <2>1, <2>2, <2>3
<1>5. CASE name = "use"
  <2>1. Apply(n, s, <<name, k>>)[1] = [s EXCEPT !.cur = (k % Len(s.its)) + 1] BY <1>5 DEF Apply
  <2> QED BY <1>1, <2>1 DEF State
<1>6. CASE name \notin {"next", "nth", "skip", "clone", "use"} BY <1>6 DEF Apply, Names, OfElements
<1> QED BY <1>2, <1>4, <1>5, <1>6

\* two steps make one
THEOREM Steps == ASSUME NEW n \in Nat, NEW s, Ok(n, s), NEW a \in Nat, NEW b \in Nat
                 PROVE  LET two == Apply(n, Apply(n, s, <<"nth", a>>)[1], <<"nth", b>>)
                            one == Apply(n, s, <<"nth", a + b + 1>>)
                        IN two = one
<1> DEFINE p == s.its[s.cur]
           q == IF a < n - p THEN p + a + 1 ELSE n
           t == [s EXCEPT !.its[s.cur] = q]
<1>1. p \in 0..n /\ s.its \in Seq(0..n) /\ s.cur \in 1..Len(s.its) /\ Len(s.its) \in Nat /\ s \in State(n) BY DEF Ok, State
<1>2. Apply(n, s, <<"nth", a>>)[1] = t BY DEF Apply
<1>3. t.cur = s.cur /\ t.its[t.cur] = q /\ t.its = [s.its EXCEPT ![s.cur] = q] BY <1>1 DEF State
<1>4. Apply(n, t, <<"nth", b>>) = IF b < n - q THEN <<[t EXCEPT !.its[s.cur] = q + b + 1], <<q + b + 1>>>> ELSE <<[t EXCEPT !.its[s.cur] = n], <<>>>> BY <1>3 DEF Apply
<1>5. Apply(n, s, <<"nth", a + b + 1>>) = IF a + b + 1 < n - p THEN <<[s EXCEPT !.its[s.cur] = p + a + b + 1 + 1], <<p + a + b + 1 + 1>>>> ELSE <<[s EXCEPT !.its[s.cur] = n], <<>>>> BY <1>1 DEF Apply
<1>6. \A x : [t EXCEPT !.its[s.cur] = x] = [s EXCEPT !.its[s.cur] = x] BY <1>1 DEF State
<1>7. (b < n - q <=> a + b + 1 < n - p) /\ (a + b + 1 < n - p => q + b + 1 = p + a + b + 1 + 1) BY <1>1
<1> QED BY <1>2, <1>4, <1>5, <1>6, <1>7

\* next is the step that passes over nothing
THEOREM NextIsNth == ASSUME NEW n \in Nat, NEW s, Ok(n, s), NEW k \in Nat
                     PROVE  Apply(n, s, <<"next", k>>) = Apply(n, s, <<"nth", 0>>)
  BY DEF Apply

\* what is taken and what is left
THEOREM Split == ASSUME NEW n \in Nat, NEW p \in 0..n, NEW k \in Nat
                 PROVE  Upto(n, p, k) \o But(n, p, k) = Rest(n, p)
<1>1. CASE k < n - p
  <2> DEFINE a == [i \in 1..k |-> p + i]
             b == [i \in 1..(n - (p + k)) |-> p + k + i]
  <2>1. Upto(n, p, k) = a /\ But(n, p, k) = b BY <1>1 DEF Upto, But, Rest
  <2>2. a \in Seq(Int) /\ Len(a) = k /\ b \in Seq(Int) /\ Len(b) = n - (p + k) BY <1>1
  <2>3. a \o b \in Seq(Int) /\ Len(a \o b) = n - p BY <2>2
  <2>4. \A i \in 1..(n - p) : (a \o b)[i] = p + i BY <1>1, <2>2
  <2>5. Rest(n, p) \in Seq(Int) /\ Len(Rest(n, p)) = n - p /\ \A i \in 1..(n - p) : Rest(n, p)[i] = p + i BY DEF Rest
  <2> QED BY <2>1, <2>3, <2>4, <2>5
<1>2. CASE ~(k < n - p) BY <1>2 DEF Upto, But, Rest
<1> QED BY <1>1, <1>2
===============================================================================
