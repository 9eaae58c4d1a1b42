----------------------------- MODULE SweepOrder -----------------------------
(* The windows (first sites, from 0) of `total` sweeps over n sites with w  *)
(* sites optimised together: to the right, back, and so on; the turning     *)
(* points are visited once.                                                 *)
EXTENDS Integers, Sequences
OneSweep(m, first) == [k \in 1..(m + 1 - first) |-> k - 1 + first] \o [k \in 1..m |-> m - k]
RECURSIVE Windows(_, _, _)
Windows(n, w, total) ==
  IF total = 1 THEN OneSweep(n - w, 0)
  ELSE Windows(n, w, total - 1) \o OneSweep(n - w, 1)
=============================================================================
