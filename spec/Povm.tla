--------------------------------- MODULE Povm ---------------------------------
(***************************************************************************)
(* Measurements.  A POVM is given by integer local tensors with legs       *)
(* (outcome, row, column) whose elements sum to c times the identity, a    *)
(* state by integer local tensors with norm (trace) D: all probabilities   *)
(* are integers divided by c * D, and everything derived from them         *)
(* (samples, estimates, variances) is judged exactly.                      *)
(***************************************************************************)
EXTENDS Heap

(* dense probabilities on the outcomes that matter *)
PmfT(pv, rho) == LET t == DropOnes(PmfO(pv, rho)) IN T(t.s, t.re, <<>>)
SumAllT(t) == SumS(t.re)
RECURSIVE OuterPow(_, _)
OuterPow(t, k) == IF k = 1 THEN t ELSE Outer(t, OuterPow(t, k - 1))

(* e.req[k] = <<povm, start, stop>>: probabilities of a POVM on the reduced *)
(* state, scaled by e.den[k]; e.copies: joint distribution of that many     *)
(* independent samples                                                      *)
PmfBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET rho == TLCEval(StRho(Denote(e.state), e.mode))
           pv == TLCEval([i \in 1..Len(e.povms) |-> Denote(e.povms[i])])
           one(r) == PmfT(pv[r[1]], RedO(rho, r[2], r[3]))
           full(k) == LET t == one(e.req[k]) IN TLCEval(OuterPow(t, e.copies))
       IN IF Len(e.got) # Len(e.req) THEN {"number-of-results"}
          ELSE UNION { LET w == full(k) IN
                       UNION { DenseBad(w, e.got[k], 1),
                               IF e.got[k].im = <<>> THEN {} ELSE {"not-real"},
                               IF SumAllT(w) = e.den[k] THEN {} ELSE {"harness-normalisation"} }
                       : k \in 1..Len(e.req) }

(* very small probabilities.  Site i of the state has direction dirs[i], the *)
(* measurement there is 2^-e P, 2^-e (1 - P), (1 - 2^-e) 1 with P the        *)
(* direction meas[i][1] and e = meas[i][2].  Directions 2b and 2b+1 are      *)
(* orthogonal, those of different bases have overlap 1/2.  e.got = binary    *)
(* logarithm of the probabilities in thousandths, very negative for zero.    *)
TinyBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.dirs)
           ix == MultiIdx(Rep(3, n))
           flip(k) == IF k % 2 = 0 THEN k + 1 ELSE k - 1
           el(i, o) == IF o = 0 THEN e.meas[i][1] ELSE flip(e.meas[i][1])
           zero(x) == \E i \in 1..n : x[i] # 2 /\ e.dirs[i] = flip(el(i, x[i]))
           half(i, o) == IF e.dirs[i] \div 2 = el(i, o) \div 2 THEN 0 ELSE 1
           lg(x) == -SumS([i \in 1..n |-> IF x[i] = 2 THEN 0 ELSE e.meas[i][2] + half(i, x[i])])
           wt(x) == -SumS([i \in 1..n |-> IF x[i] = 2 THEN 0 ELSE e.meas[i][2]])
       IN IF e.shape # Rep(3, n) THEN {"result-shape"}
          ELSE UNION { IF \A k \in 1..Len(ix) : zero(ix[k]) => e.got[k] <= 1000 * (wt(ix[k]) - 20)
                       THEN {} ELSE {"impossible-outcome"},
                       IF \A k \in 1..Len(ix) : ~zero(ix[k]) => Abs(e.got[k] - 1000 * lg(ix[k])) <= 5
                       THEN {} ELSE {"small-probability"} }

(* sampling with a real generator: forbidden outcomes never occur, the      *)
(* others at the right rate (more than six standard deviations)             *)
StatBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET rho == StRho(Denote(e.state), e.mode)
           p == TLCEval(PmfT(Denote(e.povms[1]), rho))
           den == SumAllT(p)
           n == e.n
           dev(k) == Abs(e.counts[k] * den - n * p.re[k]) \div den
           var(k) == 49 * (((n * Min2(p.re[k], den - p.re[k])) \div den) + 1)
       IN IF Len(e.counts) # Len(p.re) \/ SumS(e.counts) # n THEN {"number-of-samples"}
          ELSE UNION { IF \E k \in 1..Len(p.re) : p.re[k] = 0 /\ e.counts[k] > 0 THEN {"impossible-outcome"} ELSE {},
                       IF \E k \in 1..Len(p.re) : dev(k) * dev(k) > var(k) + 100 THEN {"sampling-rate"} ELSE {} }

(* the random state passed by the caller is the only source of randomness   *)
ReproBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE UNION { IF e.globalkept THEN {} ELSE {"global-random-state-used"},
               IF e.globalkept => e.again THEN {} ELSE {"not-reproducible"} }
RejectBad(e) == IF e.exc = "" THEN {"missing-exception"} ELSE {}

(* one integer per sample, first site most significant; counts are of every *)
(* sample e.rep times                                                       *)
RECURSIVE Pack(_, _)
Pack(s, dims) == IF s = <<>> THEN 0
                 ELSE s[Len(s)] + dims[Len(s)] * Pack(SubSeq(s, 1, Len(s) - 1), SubSeq(dims, 1, Len(s) - 1))
CountIdx(packed, k) == Cardinality({j \in 1..Len(packed) : packed[j] = k})
PackBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET want == [j \in 1..Len(e.samples) |-> Pack(e.samples[j], e.dims)]
           n == Prod(e.dims)
       IN UNION {
            IF e.packed = want THEN {} ELSE {"packed"},
            IF e.unpacked = e.samples THEN {} ELSE {"unpacked"},
            IF e.dims = e.nsoutdims THEN {} ELSE {"outcome-dimensions"},
            IF e.counts = [k \in 1..n |-> e.rep * CountIdx(want, k - 1)] THEN {} ELSE {"counts"},
            IF e.pcounts = [k \in 1..n |-> e.rep * CountIdx(want, k - 1)] THEN {} ELSE {"counts-from-packed"},
            IF e.freq = [k \in 1..n |-> CountIdx(want, k - 1)] /\ e.fres <= 1000 THEN {} ELSE {"frequencies"},
            IF e.cshape = e.dims THEN {} ELSE {"result-shape"} }
(* packing into a type of largest value tmax: rejected if that is too small *)
PackTypeBad(e) ==
  LET want == [j \in 1..Len(e.samples) |-> Pack(e.samples[j], e.dims)]
      fit == \A j \in 1..Len(want) : want[j] <= e.tmax
  IN IF e.exc # "" THEN (IF fit THEN {"unexpected-exception"} ELSE {})
     ELSE UNION { IF e.packed = want THEN {} ELSE {"packed"},
                  IF e.unpacked = e.samples THEN {} ELSE {"unpacked"} }
(* numbers beyond TLC's integers: packing keeps the lexicographic order, is *)
(* undone by unpacking, and the last outcome has the last number            *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
PackBigBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET J == 1..Len(e.samples) IN UNION {
    IF e.unpacked = e.samples THEN {} ELSE {"unpacked"},
    IF \A i, j \in J : (e.order[i] < e.order[j]) = LexLess(e.samples[i], e.samples[j], 1) THEN {} ELSE {"not-one-to-one"},
    IF e.top = 1 THEN {} ELSE {"packed"} }
=============================================================================
