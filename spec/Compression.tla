------------------------------ MODULE Compression ------------------------------
(***************************************************************************)
(* Relations every compression satisfies (numbers in units of 1e-8 of the  *)
(* squared norm of the original u; c the compression, ov the returned      *)
(* overlap):  ov = <u|c> = <c|c> > 0, rank bound, and the error lies       *)
(* between the largest and the sum of the discarded weights.               *)
(***************************************************************************)
EXTENDS Tensor, CFReplay
CTol == 200
Near(a, b) == Abs(a - b) <= CTol
MaxS(s) == IF s = <<>> THEN 0 ELSE CHOOSE m \in Range(s) : \A k \in Range(s) : k <= m

OverlapBad(e) ==
  UNION { IF Near(e.ov, e.cc) THEN {} ELSE {"overlap-is-not-norm-of-result"},
          IF Near(e.ov, e.uc) /\ Near(e.ucim, 0) THEN {} ELSE {"overlap-with-original"},
          IF Near(e.ovim, 0) /\ e.ov > 0 THEN {} ELSE {"overlap-not-positive"},
          IF e.same THEN {} ELSE {"shape"},
          IF Near(e.orig, 0) THEN {} ELSE {"original-changed"},
          CFStep(e.obs) }

SvdGenBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE UNION {
    OverlapBad(e),
    IF e.rank > 0 /\ \E b \in DOMAIN e.obs.rk : e.obs.rk[b] > e.rank THEN {"rank-bound"} ELSE {},
    IF e.err + CTol >= MaxS(e.tails) THEN {} ELSE {"error-below-optimum"},
    IF e.err <= SumS(e.tails) + CTol THEN {} ELSE {"error-too-large"} }

(* Variational compression from one start vector, with growing numbers of  *)
(* sweeps.  Every local step with one or two sites is an exact             *)
(* minimisation over a set containing the current vector, hence the        *)
(* overlap never decreases; nothing of the given rank can do better than   *)
(* the best truncation over a single cut; and a generic start vector of    *)
(* sufficient rank loses nothing.                                          *)
VarGenBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.runs) IN UNION {
    UNION { OverlapBad(e.runs[k]) : k \in 1..n },
    IF ~e.copied /\ \E k \in 1..n : \E b \in DOMAIN e.runs[k].obs.rk : e.runs[k].obs.rk[b] > e.rank
    THEN {"rank-bound"} ELSE {},
    IF e.vs <= 2 /\ \E k \in 1..(n - 1) : e.runs[k + 1].ov + CTol < e.runs[k].ov
    THEN {"overlap-decreased"} ELSE {},
    IF e.vs <= 2 /\ \E k \in 1..n : e.runs[k].ov + CTol < e.s0
    THEN {"worse-than-start-vector"} ELSE {},
    IF ~e.copied /\ \E k \in 1..n : e.runs[k].ov > e.best + CTol THEN {"overlap-above-optimum"} ELSE {},
    IF e.exact /\ \E k \in 1..n : ~Near(e.runs[k].err, 0) THEN {"not-exact"} ELSE {},
    IF Near(e.orig, 0) THEN {} ELSE {"original-changed"},
    IF Near(e.schg, 0) THEN {} ELSE {"start-vector-changed"},
    (* two sweeps, and two more from there: the same as four sweeps *)
    IF e.cont.ok /\ ~Near(e.cont.ov, e.runs[n].ov) THEN {"sweeps-do-not-compose"} ELSE {},
    IF e.repeat THEN {} ELSE {"not-reproducible"} }

VarBadBad(e) ==
  UNION { IF e.exc = "" THEN {"missing-exception"} ELSE {},
          IF e.want # "" /\ e.exc # "" /\ e.exc # e.want THEN {"wrong-exception"} ELSE {},
          IF Near(e.dev, 0) THEN {} ELSE {"original-changed"} }
=============================================================================
