------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Exact dense tensor algebra over the Gaussian integers.                  *)
(*                                                                         *)
(* A tensor is a record [s |-> shape, re |-> flat row-major sequence,      *)
(* im |-> flat row-major sequence], with im = <<>> for a real tensor.      *)
(* Axes are numbered from 1.  Scalars are tensors of shape <<>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Prod(_), SumS(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))

Range(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* flatten a sequence of sequences *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* the elements of sequence s at positions in P, in order *)
Sel(s, P(_)) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(s) THEN <<>>
                            ELSE (IF P(i) THEN <<s[i]>> ELSE <<>>) \o F(i + 1)
                IN F(1)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]
Iota(n) == [i \in 1..n |-> i]
Ascending(a, b) == IF a > b THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]

Strides(s) ==
  LET RECURSIVE F(_)
      F(t) == IF t = <<>> THEN <<>>
              ELSE <<Prod(Tail(t))>> \o F(Tail(t))
  IN F(s)

(* Row-major enumeration of the offsets  sum_k i_k * st_k,  i_k < s_k      *)
RECURSIVE Offs(_, _)
Offs(s, st) ==
  IF s = <<>> THEN <<0>>
  ELSE LET rest == TLCEval(Offs(Tail(s), Tail(st)))
           M == Len(rest)
           d == Head(st)
       IN TLCEval([k \in 1..(Head(s) * M) |->
                     ((k - 1) \div M) * d + rest[((k - 1) % M) + 1]])

T(s, re, im) == [s |-> s, re |-> re, im |-> im]
Ndim(A) == Len(A.s)
Size(A) == Len(A.re)
IsReal(A) == A.im = <<>>
Zeros(n) == [i \in 1..n |-> 0]
ImOf(A) == IF IsReal(A) THEN Zeros(Size(A)) ELSE A.im
(* drop an all-zero imaginary part, so that equality is equality of values *)
Norml(A) == IF A.im = <<>> THEN A
            ELSE IF \A i \in DOMAIN A.im : A.im[i] = 0
                 THEN [A EXCEPT !.im = <<>>] ELSE A
SameVal(A, B) == Norml(A) = Norml(B)
(* equal up to single precision: only matters for entries above 1e5 *)
CloseVal(A, B, p) ==
  \/ SameVal(A, B)
  \/ /\ p = 2
     /\ A.s = B.s
     /\ Size(A) = Size(B)
     /\ LET ai == ImOf(A) bi == ImOf(B)
            N == Size(B)
            S == {Abs(B.re[i]) : i \in 1..N} \cup {Abs(bi[i]) : i \in 1..N}
            M == CHOOSE m \in S : \A k \in S : k <= m
            tol == M \div 100000
        IN \A i \in 1..N : Abs(A.re[i] - B.re[i]) <= tol /\ Abs(ai[i] - bi[i]) <= tol

Gather(A, newshape, o) ==
  T(newshape, TLCEval([k \in 1..Len(o) |-> A.re[o[k] + 1]]),
    IF IsReal(A) THEN <<>> ELSE TLCEval([k \in 1..Len(o) |-> A.im[o[k] + 1]]))

(* axes permutation: axis k of the result is axis p[k] of A *)
Perm(A, p) ==
  IF p = Iota(Len(p)) THEN A
  ELSE LET st == Strides(A.s)
           ns == [k \in 1..Len(p) |-> A.s[p[k]]]
           nst == [k \in 1..Len(p) |-> st[p[k]]]
       IN Gather(A, ns, Offs(ns, nst))

Reshape(A, s) == T(s, A.re, A.im)
Conj(A) == IF IsReal(A) THEN A ELSE T(A.s, A.re, TLCEval([k \in DOMAIN A.im |-> -A.im[k]]))

Add(A, B) ==
  T(A.s, TLCEval([k \in DOMAIN A.re |-> A.re[k] + B.re[k]]),
    IF IsReal(A) /\ IsReal(B) THEN <<>>
    ELSE LET a == ImOf(A) b == ImOf(B)
         IN TLCEval([k \in DOMAIN A.re |-> a[k] + b[k]]))

(* scalar multiplication by x + iy *)
Scale(A, x, y) ==
  IF y = 0 THEN T(A.s, TLCEval([k \in DOMAIN A.re |-> x * A.re[k]]),
                  IF IsReal(A) THEN <<>> ELSE TLCEval([k \in DOMAIN A.re |-> x * A.im[k]]))
  ELSE LET a == ImOf(A)
       IN T(A.s, TLCEval([k \in DOMAIN A.re |-> x * A.re[k] - y * a[k]]),
            TLCEval([k \in DOMAIN A.re |-> y * A.re[k] + x * a[k]]))
Neg(A) == Scale(A, -1, 0)
Sub(A, B) == Add(A, Neg(B))

(* sum_{k<K} a[ia+k] * b[ib+k] *)
RECURSIVE DotS(_, _, _, _, _)
DotS(a, ia, b, ib, K) ==
  IF K = 0 THEN 0 ELSE a[ia + K] * b[ib + K] + DotS(a, ia, b, ib, K - 1)

(* rows of a (M x K) against rows of b (N x K) *)
MatS(a, b, M, N, K) ==
  TLCEval([k \in 1..(M * N) |->
             DotS(a, ((k - 1) \div N) * K, b, ((k - 1) % N) * K, K)])
SubS(a, b) == TLCEval([k \in DOMAIN a |-> a[k] - b[k]])
AddS(a, b) == TLCEval([k \in DOMAIN a |-> a[k] + b[k]])

FreeAxes(A, ax) == LET S == Range(ax)
                       Q(i) == i \notin S
                   IN Sel(Iota(Ndim(A)), Q)

(* numpy.tensordot(A, B, axes=(ax, bx)) with axes from 1 *)
Contract(A, ax, B, bx) ==
  LET fa == FreeAxes(A, ax)
      fb == FreeAxes(B, bx)
      PA == Perm(A, fa \o ax)
      PB == Perm(B, fb \o bx)
      ns == [i \in 1..Len(fa) |-> A.s[fa[i]]] \o [i \in 1..Len(fb) |-> B.s[fb[i]]]
      K == Prod([i \in 1..Len(ax) |-> A.s[ax[i]]])
      M == Prod([i \in 1..Len(fa) |-> A.s[fa[i]]])
      N == Prod([i \in 1..Len(fb) |-> B.s[fb[i]]])
      rr == MatS(PA.re, PB.re, M, N, K)
      re == IF IsReal(A) \/ IsReal(B) THEN rr
            ELSE SubS(rr, MatS(PA.im, PB.im, M, N, K))
      im == IF IsReal(A)
            THEN IF IsReal(B) THEN <<>> ELSE MatS(PA.re, PB.im, M, N, K)
            ELSE IF IsReal(B) THEN MatS(PA.im, PB.re, M, N, K)
                 ELSE AddS(MatS(PA.im, PB.re, M, N, K), MatS(PA.re, PB.im, M, N, K))
  IN T(ns, re, im)

Outer(A, B) == Contract(A, <<>>, B, <<>>)

(* sum over groups of K consecutive elements *)
RECURSIVE SumFrom(_, _, _)
SumFrom(a, i, K) == IF K = 0 THEN 0 ELSE a[i + K] + SumFrom(a, i, K - 1)
GroupSum(a, M, K) == TLCEval([k \in 1..M |-> SumFrom(a, (k - 1) * K, K)])

(* sum over the axes in sequence ax *)
SumAxes(A, ax) ==
  LET f == FreeAxes(A, ax)
      P == Perm(A, f \o ax)
      ns == [i \in 1..Len(f) |-> A.s[f[i]]]
      K == Prod([i \in 1..Len(ax) |-> A.s[ax[i]]])
      M == Prod(ns)
  IN T(ns, GroupSum(P.re, M, K), IF IsReal(A) THEN <<>> ELSE GroupSum(P.im, M, K))

(* diagonal over axes a, b (equal sizes), new axis last *)
DiagPair(A, a, b) ==
  LET st == Strides(A.s)
      f == FreeAxes(A, <<a, b>>)
      ns == [i \in 1..Len(f) |-> A.s[f[i]]] \o <<Min2(A.s[a], A.s[b])>>
      nst == [i \in 1..Len(f) |-> st[f[i]]] \o <<st[a] + st[b]>>
  IN Gather(A, ns, Offs(ns, nst))
TracePair(A, a, b) == LET D == DiagPair(A, a, b) IN SumAxes(D, <<Ndim(D)>>)

(* fix axis a at (0-based) index i *)
Index(A, a, i) ==
  LET st == Strides(A.s)
      f == FreeAxes(A, <<a>>)
      ns == [k \in 1..Len(f) |-> A.s[f[k]]]
      nst == [k \in 1..Len(f) |-> st[f[k]]]
      o == Offs(ns, nst)
  IN Gather(A, ns, TLCEval([k \in 1..Len(o) |-> o[k] + i * st[a]]))

Eye(d) == T(<<d, d>>, [k \in 1..(d * d) |-> IF (k - 1) \div d = (k - 1) % d THEN 1 ELSE 0], <<>>)
ScalarT(x, y) == T(<<>>, <<x>>, IF y = 0 THEN <<>> ELSE <<y>>)
Inner(A, B) == LET n == Size(A) IN Contract(Conj(Reshape(A, <<n>>)), <<1>>, Reshape(B, <<n>>), <<1>>)
Norm2(A) == DotS(A.re, 0, A.re, 0, Size(A))
            + (IF IsReal(A) THEN 0 ELSE DotS(A.im, 0, A.im, 0, Size(A)))
IsZero(A) == (\A k \in DOMAIN A.re : A.re[k] = 0) /\ (\A k \in DOMAIN A.im : A.im[k] = 0)
Hermitian(A) == /\ Len(A.s) = 2 /\ A.s[1] = A.s[2]
                /\ SameVal(A, Conj(Perm(A, <<2, 1>>)))
=============================================================================
