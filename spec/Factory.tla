------------------------------- MODULE Factory -------------------------------
(***************************************************************************)
(* Generated arrays.  The exact ones (identity, zero, diagonal) are heap   *)
(* operations; random ones are judged by what is guaranteed of every draw: *)
(* shape, ranks, internal consistency, element type, normalisation,        *)
(* symmetry, positivity, locality, reproducibility.                        *)
(* Deviations are reported in units of 1e-9.                               *)
(***************************************************************************)
EXTENDS Heap

TolR == 2000
WantRanks(e) == LET fr == FullRank(e.sh)
                IN IF e.force THEN e.rank ELSE [k \in 1..Len(e.rank) |-> Min2(e.rank[k], fr[k])]

RandBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET o == e.obs k == e.kind IN UNION {
    SelfBad(o, 1),
    IF o.sh = e.sh THEN {} ELSE {"shape"},
    IF k \in {"mpa", "mps", "mpo"}
    THEN IF o.rk = WantRanks(e) THEN {} ELSE {"ranks"}
    ELSE IF k = "mpdo" /\ ~(RankLE(o.rk, e.rank) /\ RankLE(WantRanks(e), o.rk)) THEN {"ranks"} ELSE {},
    IF o.dt = e.dtype THEN {} ELSE {"element-type"},
    IF e.finite THEN {} ELSE {"not-finite"},
    IF e.normalized /\ e.ndev > TolR THEN {"norm"} ELSE {},
    IF e.hermitian /\ e.hdev > TolR THEN {"not-hermitian"} ELSE {},
    IF k = "mpdo" /\ e.tdev > TolR THEN {"trace"} ELSE {},
    IF k = "mpdo" /\ e.neg > TolR THEN {"not-positive"} ELSE {},
    IF k = "ham" /\ e.nonlocal > TolR THEN {"not-local"} ELSE {},
    IF k = "ham" /\ ~e.distinct THEN {"terms-not-independent"} ELSE {},
    (* the same random state gives the same array, whatever the global one  *)
    IF e.again THEN {} ELSE {"not-reproducible"},
    IF e.globalkept THEN {} ELSE {"global-random-state-used"},
    IF e.fresh THEN {} ELSE {"draws-not-independent"} }

(* maximal ranks of long chains and large dimensions; products saturate     *)
SatLim == 1073741824
SatMul(a, b) == IF a > SatLim \div b THEN SatLim ELSE a * b
RECURSIVE SatProd(_)
SatProd(s) == IF s = <<>> THEN 1 ELSE SatMul(SatProd(Tail(s)), Head(s))
FullRankBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.sh)
           want == [i \in 1..(n - 1) |->
                      Min2(SatProd(Concat(SubSeq(e.sh, 1, i))), SatProd(Concat(SubSeq(e.sh, i + 1, n))))]
       IN UNION { IF Len(e.got) = n - 1 THEN {} ELSE {"number-of-ranks"},
                  IF \A i \in 1..Min2(n - 1, Len(e.got)) :
                       IF want[i] < SatLim THEN e.got[i] = want[i] ELSE e.got[i] >= SatLim
                  THEN {} ELSE {"maximal-rank"} }

(* entries of local tensors: mean 0, variance 1, real and imaginary parts   *)
(* uncorrelated; sums of n values in units of 1/1000, six deviations        *)
Sqrt(n) == CHOOSE r \in 0..46340 : r * r <= n /\ (r = 46340 \/ (r + 1) * (r + 1) > n)
NormalBad(e) ==
  LET n == e.n lim == 6000 * (Sqrt(n) + 1)
  IN UNION { IF \A k \in 1..Len(e.sum) : Abs(e.sum[k]) <= lim THEN {} ELSE {"mean-of-entries"},
             IF \A k \in 1..Len(e.sq) : Abs(e.sq[k] - 1000 * n) <= lim + (lim \div 2) THEN {} ELSE {"variance-of-entries"},
             IF Abs(e.cross) <= lim THEN {} ELSE {"correlated-entries"} }
=============================================================================
