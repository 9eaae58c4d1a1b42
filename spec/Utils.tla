-------------------------------- MODULE Utils --------------------------------
(***************************************************************************)
(* Dense helpers: leg order, partial traces, products, block sums, named   *)
(* axes, projections onto probabilities, truncated singular value          *)
(* decompositions.  Axis numbers in events are Python's.                   *)
(***************************************************************************)
EXTENDS Heap

Seq1(a, n) == [i \in 1..n |-> a + i]
Ax(s, nd) == [k \in 1..Len(s) |-> PyAx(s[k], nd)]

GtlOrder(nd, n, l, r) ==
  LET p == (nd - l - r) \div n
  IN Iota(l) \o Concat([i \in 1..n |-> [j \in 1..p |-> l + (j - 1) * n + i]]) \o Seq1(nd - r, r)
LtgOrder(nd, n, l, r) ==
  LET p == (nd - l - r) \div n
  IN Iota(l) \o Concat([j \in 1..p |-> [i \in 1..n |-> l + (i - 1) * p + j]]) \o Seq1(nd - r, r)

RECURSIVE PTr(_, _)
PTr(t, out) ==     \* trace out the sites in the ascending sequence out (from 0)
  IF out = <<>> THEN t
  ELSE LET k == out[Len(out)] + 1 n == Ndim(t) \div 2
       IN PTr(TracePair(t, k, k + n), SubSeq(out, 1, Len(out) - 1))

Kron(A, B) ==
  LET n == Ndim(A)
  IN Reshape(Perm(Outer(A, B), Concat([i \in 1..n |-> <<i, n + i>>])), [i \in 1..n |-> A.s[i] * B.s[i]])
RECURSIVE KronAll(_)
KronAll(ts) == IF Len(ts) = 1 THEN ts[1] ELSE KronAll(<< TLCEval(Kron(ts[1], ts[2])) >> \o SubSeq(ts, 3, Len(ts)))

(* multi-index (from 0) of flat position k (from 1) *)
Multi(s, k) == LET st == Strides(s) IN [i \in 1..Len(s) |-> ((k - 1) \div st[i]) % s[i]]
Flat(s, ix) == LET st == Strides(s) IN 1 + SumS([i \in 1..Len(s) |-> ix[i] * st[i]])
BlockDiag(ts, axes) ==
  LET nd == Ndim(ts[1])
      A == Range(Ax(axes, nd))
      m == Len(ts)
      ns == [i \in 1..nd |-> IF i \in A THEN SumS([j \in 1..m |-> ts[j].s[i]]) ELSE ts[1].s[i]]
      from(j, i) == IF i \in A THEN SumS([q \in 1..(j - 1) |-> ts[q].s[i]]) ELSE 0
      real == \A j \in 1..m : IsReal(ts[j])
      el(k, re) == LET ix == Multi(ns, k)
                       in(j) == \A i \in A : from(j, i) <= ix[i] /\ ix[i] < from(j, i) + ts[j].s[i]
                       J == {j \in 1..m : in(j)}
                   IN IF J = {} THEN 0
                      ELSE LET j == CHOOSE j \in J : TRUE
                               p == Flat(ts[j].s, [i \in 1..nd |-> ix[i] - from(j, i)])
                           IN IF re THEN ts[j].re[p] ELSE ImOf(ts[j])[p]
  IN T(ns, [k \in 1..Prod(ns) |-> el(k, TRUE)], IF real THEN <<>> ELSE [k \in 1..Prod(ns) |-> el(k, FALSE)])

DenseFunBad(e) ==
  LET ok == e.f # "reject"
      t == e.ts
      w == CASE e.f = "gtl" -> Perm(t[1], GtlOrder(Ndim(t[1]), e.n, e.l, e.r))
             [] e.f = "ltg" -> Perm(t[1], LtgOrder(Ndim(t[1]), e.n, e.l, e.r))
             [] e.f = "ptrace" -> PTr(t[1], e.ax)
             [] e.f = "matdot" -> Contract(t[1], Ax(e.ax, Ndim(t[1])), t[2], Ax(e.bx, Ndim(t[2])))
             [] e.f = "mkron" -> KronAll(t)
             [] e.f = "block_diag" -> BlockDiag(t, e.ax)
  IN IF ~ok THEN (IF e.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF e.exc # "" THEN {"unexpected-exception"}
     ELSE UNION { DenseBad(TLCEval(w), e.got, 1),
                  IF e.kept THEN {} ELSE {"argument-changed"},
                  IF e.f \in {"gtl", "ltg"} /\ ~e.back THEN {"not-inverse"} ELSE {},
                  IF e.dt = e.wantdt THEN {} ELSE {"element-type"} }

(* -------------------------- named axes --------------------------------- *)
(* a named array is [t |-> tensor, n |-> names]                             *)
Pos(x, nm) == CHOOSE i \in 1..Len(x.n) : x.n[i] = nm
Has(x, nm) == \E i \in 1..Len(x.n) : x.n[i] = nm
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
NRename(x, tr) ==       \* all names at once; the later pair wins
  LET new(i) == LET K == {k \in 1..Len(tr) : tr[k][1] = x.n[i]}
                IN IF K = {} THEN x.n[i] ELSE tr[CHOOSE k \in K : \A q \in K : q <= k][2]
  IN [t |-> x.t, n |-> [i \in 1..Len(x.n) |-> new(i)]]
NDot(x, y, ax) ==
  LET a == [k \in 1..Len(ax) |-> Pos(x, ax[k][1])]
      b == [k \in 1..Len(ax) |-> Pos(y, ax[k][2])]
      fa == FreeAxes(x.t, a) fb == FreeAxes(y.t, b)
  IN [t |-> Contract(x.t, a, y.t, b), n |-> [i \in 1..Len(fa) |-> x.n[fa[i]]] \o [i \in 1..Len(fb) |-> y.n[fb[i]]]]
NOk(st, X) ==
  CASE st.k = "make" -> Len(st.names) = Ndim(st.t) /\ Distinct(st.names)
    [] st.k = "conj" -> TRUE
    [] st.k = "rename" -> (\A k \in 1..Len(st.pairs) : Has(X[st.i], st.pairs[k][1])) /\ Distinct(NRename(X[st.i], st.pairs).n)
    [] st.k = "dot" -> Distinct(NDot(X[st.i], X[st.j], st.pairs).n)
NRes(st, X) ==
  CASE st.k = "make" -> [t |-> st.t, n |-> st.names]
    [] st.k = "conj" -> [t |-> Conj(X[st.i].t), n |-> X[st.i].n]
    [] st.k = "rename" -> NRename(X[st.i], st.pairs)
    [] st.k = "dot" -> NDot(X[st.i], X[st.j], st.pairs)
NamedBad(e) ==      \* e.steps[k] makes array number k (or is rejected); got: names and array in axis order st.order
  LET RECURSIVE F(_, _)
      F(k, X) ==
        IF k > Len(e.steps) THEN {}
        ELSE LET st == e.steps[k] ok == NOk(st, X) IN
             IF ~ok THEN (IF st.exc = "" THEN {"missing-exception"} ELSE F(k + 1, Append(X, [t |-> <<>>, n |-> <<>>])))
             ELSE IF st.exc # "" THEN {"unexpected-exception"}
             ELSE LET r == TLCEval(NRes(st, X))
                      B == UNION { IF st.got.n = r.n THEN {} ELSE {"axis-names"},
                                   IF st.got.n = r.n
                                   THEN DenseBad(Perm(r.t, [q \in 1..Len(st.order) |-> Pos(r, st.order[q])]), st.got.t, 1)
                                   ELSE {} }
                  IN IF B # {} THEN B ELSE F(k + 1, Append(X, r))
  IN F(1, <<>>) \cup (IF e.kept THEN {} ELSE {"argument-changed"})

(* ------------- projection onto non-negative numbers / probabilities ----- *)
(* all numbers in units of 2^-20                                             *)
ProjBad(e) ==
  LET n == Len(e.re) one == 1048576
      bad == \/ \E i \in 1..Len(e.im) : Abs(e.im[i]) > e.ieps
             \/ \E i \in 1..n : e.re[i] < -e.reps
      v == [i \in 1..n |-> IF e.re[i] <= e.trunc THEN 0 ELSE e.re[i]]
      s == SumS(v)
      rej == bad \/ (e.f = "pmf" /\ Abs(s - one) > e.reps)
  IN IF rej THEN (IF e.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF e.exc # "" THEN {"unexpected-exception"}
     ELSE UNION { IF e.f = "nonneg" /\ (e.got # v \/ e.gres > 0) THEN {"projected-values"} ELSE {},
                  IF e.f = "pmf" /\ e.S # s THEN {"harness-normalisation"} ELSE {},
                  IF e.f = "pmf" /\ (e.got # v \/ e.gres > 100) THEN {"projected-values"} ELSE {},   \* got: result times S
                  IF e.f = "pmf" /\ e.sumdev > 1 THEN {"sum-of-probabilities"} ELSE {},
                  IF e.real THEN {} ELSE {"not-real"},
                  IF e.place THEN {} ELSE {"in-place-convention"} }

(* --------------------- truncated decompositions ------------------------- *)
(* numbers in units of 1e-6 of the largest singular value, squared values   *)
(* in units of 1e-6 of tr(A A^dagger)                                        *)
STol == 3
SvdBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET A == e.t M == Min2(A.s[1], A.s[2])
           sketch == Min2(M, e.k + e.over)
           k == Min2(e.k, M)
           exact == e.f = "trunc" \/ e.rankA <= e.k + e.over
       IN UNION {
         IF Len(e.s) = k /\ e.ush = <<A.s[1], k>> /\ e.vsh = <<k, A.s[2]>> THEN {} ELSE {"result-shape"},
         IF \A i \in 1..(Len(e.s) - 1) : e.s[i] + STol >= e.s[i + 1] THEN {} ELSE {"order"},
         IF \A i \in 1..Len(e.s) : e.s[i] >= 0 THEN {} ELSE {"negative"},
         IF e.udev <= 1000 /\ e.vdev <= 1000 THEN {} ELSE {"not-orthonormal"},
         (* singular values of the whole matrix, themselves judged by power sums below *)
         IF Len(e.s) <= Len(e.full) /\ \A i \in 1..Len(e.s) : e.s[i] <= e.full[i] + STol THEN {} ELSE {"exceeds-singular-value"},
         IF exact /\ Len(e.s) = k /\ \E i \in 1..k : Abs(e.s[i] - e.full[i]) > STol THEN {"not-largest"} ELSE {},
         (* best approximation: squared error = discarded weight *)
         IF exact /\ Abs(e.err - e.tail) > STol THEN {"approximation-error"} ELSE {},
         IF Norm2(A) = e.tr /\ Abs(e.fullsum - 1000000) <= STol THEN {} ELSE {"harness-reference"},
         IF e.again THEN {} ELSE {"not-reproducible"},
         IF e.kept THEN {} ELSE {"argument-or-global-state-changed"} }

(* slices of equal width at equal distances, the last one ends the chain    *)
SlicesBad(e) ==
  LET ok == e.length >= e.width /\ (e.length - e.width) % e.offset = 0
      n == ((e.length - e.width) \div e.offset) + 1
  IN IF ~ok THEN (IF e.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF e.exc # "" THEN {"unexpected-exception"}
     ELSE IF e.got = [i \in 1..n |-> <<e.offset * (i - 1), (e.offset * (i - 1)) + e.width>>] THEN {} ELSE {"slices"}
=============================================================================
