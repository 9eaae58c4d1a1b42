------------------------------- MODULE CFCore -------------------------------
(***************************************************************************)
(* Bookkeeping of the canonical form of a chain of N local tensors: the    *)
(* state and the effect of every interface call.                           *)
(*                                                                         *)
(* (l, r) is what the object claims: sites 1..l are left-normalised, sites *)
(* r+1..N are right-normalised.  L[i] / R[i] is the truth about site i in  *)
(* the worst case, i.e. a tensor is normalised only if the operation that  *)
(* produced it guarantees this.  open = k > 0: the bond between sites k    *)
(* and k+1 has been turned into physical legs (vleg2leg).                  *)
(*                                                                         *)
(* CFProof.tla proves (tlapm) that Inv is inductive for every N;           *)
(* CanonicalForm.tla adds the histories which are replayed on the code.    *)
(*                                                                         *)
(* Fault # "none" are wrong designs which TLC refutes: "bond" (the site    *)
(* right of a re-fused bond stays claimed), "clamp" (declaring every site  *)
(* leaves no site for the norm), "sweep" (a left sweep keeps the left      *)
(* claim of the sites it passes).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS N, Fault
VARIABLES l, r, L, R, open
form == <<l, r, L, R, open>>
sites == 1..N
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

CoreInit == /\ l = 0 /\ r = N /\ open = 0
            /\ L = [i \in sites |-> FALSE] /\ R = [i \in sites |-> FALSE]

Kinds == {"none", "left", "right"}
(* the effect of replacing site i by a tensor of kind k on the claim <<a, b>> *)
Claim(c, i, k) ==
  LET a == c[1] b == c[2] IN
  IF k = "left" /\ a >= i - 1
  THEN <<IF Fault = "clamp" THEN Max(i, a) ELSE Min(N - 1, Max(i, a)), Max(i, b)>>
  ELSE IF k = "right" /\ i - 1 >= b - 1
  THEN <<Min(i - 1, a), Max(1, Min(i - 1, b))>>
  ELSE <<Min(i - 1, a), Max(i, b)>>

CUpdate(i, k) ==
  /\ l' = Claim(<<l, r>>, i, k)[1] /\ r' = Claim(<<l, r>>, i, k)[2]
  /\ L' = [L EXCEPT ![i] = (k = "left")] /\ R' = [R EXCEPT ![i] = (k = "right")]
  /\ UNCHANGED open

(* simultaneous update of sites i..j by tensors of kinds ks[i..j]; F[m] is  *)
(* the claim after site m                                                   *)
CSlice(i, j, ks, F) ==
  /\ F[i - 1] = <<l, r>>
  /\ \A m \in i..j : F[m] = Claim(F[m - 1], m, ks[m])
  /\ l' = F[j][1] /\ r' = F[j][2]
  /\ L' = [m \in sites |-> IF m >= i /\ m <= j THEN ks[m] = "left" ELSE L[m]]
  /\ R' = [m \in sites |-> IF m >= i /\ m <= j THEN ks[m] = "right" ELSE R[m]]
  /\ UNCHANGED open

(* multiplication by a scalar rescales the first site that is not claimed left *)
CMul == /\ l' = l /\ r' = Max(l + 1, r)
        /\ L' = [L EXCEPT ![l + 1] = FALSE] /\ R' = [R EXCEPT ![l + 1] = FALSE]
        /\ UNCHANGED open

(* QR sweep to the right up to (not including) site t+1: sites l+1..t;      *)
(* c = <<l, r, L, R>>                                                       *)
SweepRight(c, t) ==
  IF c[1] >= t THEN c
  ELSE << t, Max(t + 1, c[2]),
          [m \in sites |-> IF m > c[1] /\ m <= t THEN TRUE ELSE IF m = t + 1 THEN FALSE ELSE c[3][m]],
          [m \in sites |-> IF m > c[1] /\ m <= t + 1 THEN FALSE ELSE c[4][m]] >>
SweepLeft(c, t) ==
  IF c[2] <= t THEN c
  ELSE << IF Fault = "sweep" THEN Min(t, c[1]) ELSE Min(t - 1, c[1]), t,
          [m \in sites |-> IF m >= t /\ m <= c[2] THEN FALSE ELSE c[3][m]],
          [m \in sites |-> IF m > t /\ m <= c[2] THEN TRUE ELSE IF m = t THEN FALSE ELSE c[4][m]] >>
Becomes(c) == l' = c[1] /\ r' = c[2] /\ L' = c[3] /\ R' = c[4] /\ UNCHANGED open
Now == <<l, r, L, R>>

CCanonicalize(a, b) == a < b /\ Becomes(SweepLeft(SweepRight(Now, a), b))
CNorm == Becomes(IF l < N - r THEN SweepLeft(Now, 1) ELSE SweepRight(Now, N - 1))
(* exact SVD sweep in direction d, after canonicalising from the other end *)
CCompress(d) == N > 1 /\ Becomes(IF d = "right" THEN SweepRight(SweepLeft(Now, 1), N - 1)
                                 ELSE SweepLeft(SweepRight(Now, N - 1), 1))
CKeep == UNCHANGED form
CForget == l' = 0 /\ r' = N /\ UNCHANGED <<L, R, open>>
COpen(k) == /\ open = 0 /\ k < N
            /\ open' = k
            /\ l' = Min(l, k - 1) /\ r' = Max(r, k + 1)
            /\ L' = [L EXCEPT ![k] = FALSE] /\ R' = [R EXCEPT ![k + 1] = FALSE]
CClose == /\ open > 0
          /\ open' = 0
          /\ l' = Min(l, open - 1) /\ r' = IF Fault = "bond" THEN r ELSE Max(r, open + 1)
          /\ L' = [L EXCEPT ![open] = FALSE] /\ R' = [R EXCEPT ![open + 1] = FALSE]

(* ------------------------------ properties ---------------------------- *)
Sound == /\ \A i \in sites : i <= l => L[i]
         /\ \A i \in sites : i > r => R[i]
InRange == l \in 0..(N - 1) /\ r \in 1..N
TypeOK == /\ L \in [sites -> BOOLEAN] /\ R \in [sites -> BOOLEAN]
          /\ open \in 0..(N - 1)
Inv == TypeOK /\ InRange /\ Sound
=============================================================================
