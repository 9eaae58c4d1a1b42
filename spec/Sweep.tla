-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Alternating optimisation of W neighbouring sites at a time, as used by  *)
(* eig(), eig_sum() and variational compression: the window moves to the   *)
(* right and back, num_sweeps times, with cached left and right            *)
(* environments.                                                           *)
(*                                                                         *)
(* ver[i] counts the changes of local tensor i (optimisation and gauge     *)
(* changes); an environment is identified with the versions of the tensors *)
(* it was contracted from (<<>> = unset for a non-trivial environment).    *)
(* L[i] / R[i]: tensor i is left- / right-normalised.                      *)
(*                                                                         *)
(* What makes every local problem the restriction V^dagger H V of the      *)
(* global problem to the current window (used by Eig.tla and               *)
(* Compression.tla): the environments are fresh (Fresh) and the gauge is   *)
(* centred on the window (Centred).  Both hold at every optimisation step; *)
(* dropping any of the bookkeeping steps (Fault) is refuted by TLC.        *)
(***************************************************************************)
EXTENDS SweepOrder, TLC, Json

CONSTANTS MaxN, MaxSweeps, Emit, Fault

VARIABLES n, w, total,     \* number of sites, window, sweeps wanted
          sweep, dir, pos, \* position of the next optimisation step (from 0)
          ver, L, R, lenv, renv, steps, stage
vars == <<n, w, total, sweep, dir, pos, ver, L, R, lenv, renv, steps, stage>>

Unset == <<-1>>
Pre(v, k) == SubSeq(v, 1, k)                  \* versions of the first k sites
Post(v, k) == SubSeq(v, k + 1, Len(v))        \* versions of the sites after k

Init == /\ n \in 2..MaxN /\ w \in 1..(n - 1) /\ total \in 1..MaxSweeps
        /\ sweep = 1 /\ dir = "right" /\ pos = 0 /\ steps = <<>> /\ stage = "move"
        /\ ver = [i \in 1..n |-> 0]
        /\ L = [i \in 1..n |-> FALSE]
        /\ R = [i \in 1..n |-> i > 1]         \* canonicalize(right=1)
        /\ lenv = [p \in 0..(n - w) |-> IF p = 0 THEN <<>> ELSE Unset]
        /\ renv = [p \in 0..(n - w) |-> Post(ver, p + w)]

(* sites a..b-1 become left-normalised, the rest goes into site b *)
GaugeL(b, v, LL, RR) ==
  LET a == CHOOSE k \in 1..(n + 1) : /\ \A i \in 1..(k - 1) : LL[i]
                                     /\ (k <= n => ~LL[k])
  IN IF a >= b THEN <<v, LL, RR>>
     ELSE << [i \in 1..n |-> IF i >= a /\ i <= b THEN v[i] + 1 ELSE v[i]],
             [i \in 1..n |-> IF i < b THEN TRUE ELSE IF i = b THEN FALSE ELSE LL[i]],
             [i \in 1..n |-> IF i >= a /\ i <= b THEN FALSE ELSE RR[i]] >>
(* sites b+1.. become right-normalised, the rest goes into site b *)
GaugeR(b, v, LL, RR) ==
  LET a == CHOOSE k \in 0..n : /\ \A i \in (k + 1)..n : RR[i]
                               /\ (k >= 1 => ~RR[k])
  IN IF a <= b THEN <<v, LL, RR>>
     ELSE << [i \in 1..n |-> IF i >= b /\ i <= a THEN v[i] + 1 ELSE v[i]],
             [i \in 1..n |-> IF i >= b /\ i <= a THEN FALSE ELSE LL[i]],
             [i \in 1..n |-> IF i > b THEN TRUE ELSE IF i = b THEN FALSE ELSE RR[i]] >>

(* bring gauge and environments to the window starting at pos *)
Move ==
  /\ stage = "move"
  /\ IF dir = "right" /\ pos > 0
     THEN LET g == IF Fault = "no-gauge" THEN <<ver, L, R>> ELSE GaugeL(pos + 1, ver, L, R)
          IN /\ ver' = g[1] /\ L' = g[2] /\ R' = g[3]
             /\ lenv' = IF Fault = "stale-left" /\ lenv[pos] # Unset THEN lenv
                        ELSE [lenv EXCEPT ![pos] = lenv[pos - 1] \o <<g[1][pos]>>]
             /\ renv' = IF Fault = "stale-right" THEN renv ELSE [renv EXCEPT ![pos - 1] = Unset]
     ELSE IF dir = "left"
     THEN LET g == IF Fault = "no-gauge" THEN <<ver, L, R>> ELSE GaugeR(pos + w, ver, L, R)
          IN /\ ver' = g[1] /\ L' = g[2] /\ R' = g[3]
             /\ renv' = IF Fault = "stale-right" /\ renv[pos] # Unset THEN renv
                        ELSE [renv EXCEPT ![pos] = <<g[1][pos + w + 1]>> \o renv[pos + 1]]
             /\ lenv' = IF Fault = "stale-left" THEN lenv ELSE [lenv EXCEPT ![pos + 1] = Unset]
     ELSE UNCHANGED <<ver, L, R, lenv, renv>>
  /\ stage' = "solve"
  /\ UNCHANGED <<n, w, total, sweep, dir, pos, steps>>

Next1 == (* the window after the one at pos; the first window is not repeated at the turn *)
  IF dir = "right"
  THEN IF pos < n - w THEN <<sweep, "right", pos + 1>> ELSE <<sweep, "left", pos - 1>>
  ELSE IF pos > 0 THEN <<sweep, "left", pos - 1>>
       ELSE <<sweep + 1, "right", 1>>

Solve ==
  /\ stage = "solve"
  /\ ver' = [i \in 1..n |-> IF i > pos /\ i <= pos + w THEN ver[i] + 1 ELSE ver[i]]
  /\ L' = [i \in 1..n |-> IF i > pos /\ i <= pos + w THEN FALSE ELSE L[i]]
  /\ R' = [i \in 1..n |-> IF i > pos /\ i <= pos + w THEN FALSE ELSE R[i]]
  /\ steps' = Append(steps, pos)
  /\ LET q == Next1
     IN IF q[1] > total THEN stage' = "done" /\ UNCHANGED <<sweep, dir, pos>>
        ELSE stage' = "move" /\ sweep' = q[1] /\ dir' = q[2] /\ pos' = q[3]
  /\ UNCHANGED <<n, w, total, lenv, renv>>
  /\ (Emit /\ stage' = "done") => PrintT("@@" \o ToJson([n |-> n, w |-> w, total |-> total, steps |-> steps']))

Next == Move \/ Solve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fresh == stage = "solve" => /\ lenv[pos] = Pre(ver, pos)
                            /\ renv[pos] = Post(ver, pos + w)
Centred == stage = "solve" => /\ \A i \in 1..pos : L[i]
                              /\ \A i \in (pos + w + 1)..n : R[i]
(* after every sweep all sites have been optimised, the count is as wanted *)
Covered == stage = "done" =>
             /\ \A i \in 1..n : \E k \in DOMAIN steps : steps[k] < i /\ i <= steps[k] + w
             /\ Len(steps) = 2 * total * (n - w) + 1
             /\ steps = Windows(n, w, total)
             /\ \A k \in 1..(Len(steps) - 1) : steps[k + 1] \in {steps[k] - 1, steps[k] + 1}
Terminates == <>(stage = "done")
=============================================================================
