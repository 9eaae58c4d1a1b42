------------------------------- MODULE CFReplay -------------------------------
(***************************************************************************)
(* Judgement of one behaviour of CanonicalForm.tla replayed on real code.  *)
(* e.obs is the sequence of observations after every step (claim cf,       *)
(* isometry deviations ld/rd per site, bonds lr, value deviation vdev and  *)
(* norm deviation ndev, all in 1e-9).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CFStep(o) ==
  LET n == Len(o.lr) l == o.cf[1] r == o.cf[2]
  IN UNION {
    IF o.exc # "" THEN {"unexpected-exception"} ELSE {},
    IF \A i \in 1..(n - 1) : o.lr[i][2] = o.lr[i + 1][1] THEN {} ELSE {"bond-mismatch"},
    IF o.rk = [i \in 1..(n - 1) |-> o.lr[i][2]] THEN {} ELSE {"ranks-attribute"},
    IF 0 <= l /\ l <= n /\ 0 <= r /\ r <= n THEN {} ELSE {"canonical-form-range"},
    IF \A i \in 1..n : i <= l => o.ld[i] <= 1000 THEN {} ELSE {"left-canonical-claim"},
    IF \A i \in 1..n : i > r => o.rd[i] <= 1000 THEN {} ELSE {"right-canonical-claim"},
    IF o.vdev <= 1000 THEN {} ELSE {"value"},
    IF o.ndev <= 1000 THEN {} ELSE {"norm"} }
CFBad(e) == UNION { CFStep(e.obs[k]) : k \in 1..Len(e.obs) }
=============================================================================
