--------------------------------- MODULE Eig ---------------------------------
(***************************************************************************)
(* Eigenvalue search.  Numbers are in units of 1e-8 of the norm of the     *)
(* operator H.  A search is a sequence of local problems; the operator of  *)
(* every local problem is V^dagger H V for an isometry V whose range       *)
(* contains the current vector (this is what fresh environments and the    *)
(* canonical gauge guarantee, see Sweep.tla), hence                        *)
(*  - it is Hermitian and its spectrum lies within that of H,              *)
(*  - for single-site steps (no truncation) the extremal eigenvalue can    *)
(*    only improve from step to step and is the energy of the vector,      *)
(*  - if the ranks are maximal one of the problems is the full problem.    *)
(* e.steps[k] = <<deviation from Hermitian, smallest, largest eigenvalue   *)
(* of local problem k, eigenvalue returned, energy of the vector handed    *)
(* over as initial guess>>, e.sizes[k] = dimension of local problem k      *)
(***************************************************************************)
EXTENDS Heap, CFReplay, SweepOrder
ETol == 300
EClose(a, b, t) == Abs(a - b) <= t
(* a is at least as good as b *)
Better(which, a, b, t) == CASE which = "SA" -> a <= b + t
                            [] which = "LA" -> a + t >= b
                            [] OTHER -> Abs(a) + t >= Abs(b)
Extreme(e) == CASE e.which = "SA" -> e.lo [] e.which = "LA" -> e.hi
                [] OTHER -> IF Abs(e.lo) > Abs(e.hi) THEN e.lo ELSE e.hi

(* the local problems belong to the windows of Sweep.tla, in this order    *)
WindowBad(e) ==
  LET N == Len(e.want)
      win == Windows(N, e.vs, e.sweeps)
      r(b) == IF b = 0 \/ b = N THEN 1 ELSE e.srk[b]
      phys(p) == Prod([i \in 1..e.vs |-> e.want[p + i][1]])
      (* ranks that can neither be reduced by a gauge change nor by a single-site step *)
      rigid == e.vs = 1 /\ e.srk # <<>> /\ \A b \in 1..(N - 1) :
                 r(b) <= r(b - 1) * e.want[b][1] /\ r(b) <= r(b + 1) * e.want[b + 1][1]
  IN IF Len(e.sizes) # Len(win) THEN {"number-of-local-problems"}
     ELSE IF \E k \in 1..Len(win) : (e.sizes[k] % phys(win[k])) # 0 THEN {"window-order"}
     ELSE IF rigid /\ \E k \in 1..Len(win) : e.sizes[k] # r(win[k]) * phys(win[k]) * r(win[k] + 1)
     THEN {"size-of-local-problem"} ELSE {}

EigBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.steps) IN UNION {
    IF EClose(e.eim, 0, ETol) THEN {} ELSE {"eigenvalue-not-real"},
    IF e.lo - e.tol <= e.e /\ e.e <= e.hi + e.tol THEN {} ELSE {"eigenvalue-outside-spectrum"},
    IF \E k \in 1..n : e.steps[k][1] > ETol THEN {"local-problem-not-hermitian"} ELSE {},
    IF \E k \in 1..n : e.steps[k][2] < e.lo - ETol \/ e.steps[k][3] > e.hi + ETol
    THEN {"local-problem-outside-spectrum"} ELSE {},
    IF n > 0 /\ e.sweeps > 0 THEN WindowBad(e) ELSE {},
    (* the initial guess of every problem is the current vector *)
    IF e.hasv0 /\ (e.vs = 1 \/ e.full) /\ \E k \in 1..(n - 1) : ~EClose(e.steps[k + 1][5], e.steps[k][4], 3 * ETol)
    THEN {"local-problem-lost-the-vector"} ELSE {},
    IF e.hasv0 /\ e.hasq0 /\ n > 0 /\ ~EClose(e.steps[1][5], e.q0, ETol) THEN {"start-vector-ignored"} ELSE {},
    IF n > 0 /\ ~EClose(e.steps[n][4], e.e, ETol) THEN {"not-the-last-eigenvalue"} ELSE {},
    IF e.vs = 1 /\ \E k \in 1..(n - 1) : ~Better(e.which, e.steps[k + 1][4], e.steps[k][4], ETol)
    THEN {"step-got-worse"} ELSE {},
    IF e.vs = 1 /\ e.hasq0 /\ n > 0 /\ ~Better(e.which, e.steps[1][4], e.q0, ETol)
    THEN {"worse-than-start-vector"} ELSE {},
    IF (e.vs = 1 \/ e.full) /\ ~EClose(e.ray, e.e, e.tol) THEN {"vector-does-not-have-the-eigenvalue"} ELSE {},
    IF (e.vs = 1 \/ e.full) /\ ~EClose(e.nrm, 100000000, ETol) THEN {"vector-not-normalized"} ELSE {},
    IF e.full /\ ~EClose(Abs(e.e), Abs(Extreme(e)), e.tol) THEN {"not-the-extremal-eigenvalue"} ELSE {},
    IF \E b \in DOMAIN e.rk : e.rk[b] > e.rank THEN {"rank-bound"} ELSE {},
    IF e.shape = e.want THEN {} ELSE {"shape"},
    IF EClose(e.chg, 0, ETol) THEN {} ELSE {"argument-changed"},
    IF EClose(e.schg, 0, ETol) THEN {} ELSE {"start-vector-changed"},
    IF EClose(e.rep, 0, ETol) THEN {} ELSE {"not-reproducible"},
    IF e.hasother /\ ~EClose(e.other, e.e, 2000) THEN {"sum-differs-from-explicit-sum"} ELSE {},
    CFStep(e.obs) }

(* diagonal operators with integer values: everything is known exactly     *)
EigDiagBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET d == Denote(e.lts).t.re
           S == Range(d)
           best == IF e.which = "SA" THEN CHOOSE m \in S : \A k \in S : m <= k
                   ELSE CHOOSE m \in S : \A k \in S : m >= k
           Q(k) == d[k] = best
           in == SumS(Sel(e.wt, Q))
       IN UNION {
            IF e.e = best /\ EClose(e.edev, 0, 1000) THEN {} ELSE {"eigenvalue"},
            IF EClose(in, 100000000, 10000) /\ EClose(SumS(e.wt), 100000000, 10000) THEN {} ELSE {"eigenvector"},
            IF e.chg = 0 \/ EClose(e.chg, 0, ETol) THEN {} ELSE {"argument-changed"} }
=============================================================================
