------------------------------- MODULE PovmCons -------------------------------
(***************************************************************************)
(* Construction of measurements.  Local POVMs are tensors (outcome, row,   *)
(* column); all of them are integers after multiplication by e.scale, with *)
(* elements summing to e.scale times the identity.                         *)
(***************************************************************************)
EXTENDS Povm

(* pairs i < j of 1..d in lexicographic order *)
RECURSIVE PairsFrom(_, _, _)
PairsFrom(i, j, d) == IF i >= d THEN <<>>
                      ELSE IF j > d THEN PairsFrom(i + 1, i + 2, d)
                      ELSE << <<i, j>> >> \o PairsFrom(i, j + 1, d)
Pairs(d) == PairsFrom(1, 2, d)
SgnOf(k) == IF k % 2 = 1 THEN 1 ELSE -1
(* unnormalised projectors onto e_i +- e_j (x) and e_i +- i e_j (y) *)
XYEl(d, y) ==
  LET P == Pairs(d) m == 2 * Len(P)
      at(f) == [q \in 1..(m * d * d) |->
                 LET k == ((q - 1) \div (d * d)) + 1
                     a == (((q - 1) \div d) % d) + 1
                     b == ((q - 1) % d) + 1
                     p == P[((k - 1) \div 2) + 1]
                 IN IF f = "re" THEN (IF a = b /\ a \in {p[1], p[2]} THEN 1
                                      ELSE IF ~y /\ {a, b} = {p[1], p[2]} THEN SgnOf(k) ELSE 0)
                    ELSE IF y /\ a = p[1] /\ b = p[2] THEN -SgnOf(k)
                    ELSE IF y /\ a = p[2] /\ b = p[1] THEN SgnOf(k) ELSE 0]
  IN T(<<m, d, d>>, at("re"), IF y THEN at("im") ELSE <<>>)
ZEl(d, s) == T(<<d, d, d>>, [q \in 1..(d * d * d) |->
                LET k == (q - 1) \div (d * d) a == ((q - 1) \div d) % d b == (q - 1) % d
                IN IF a = k /\ b = k THEN s ELSE 0], <<>>)
LocSc(d) == 2 * (d - 1)
Parts(d) == IF d = 2 THEN << XYEl(d, FALSE), XYEl(d, TRUE), ZEl(d, LocSc(d)) >>
            ELSE << XYEl(d, FALSE), XYEl(d, TRUE) >>
CatT(ts) == LET r == \A k \in 1..Len(ts) : IsReal(ts[k])
            IN T(<<SumS([k \in 1..Len(ts) |-> ts[k].s[1]])>> \o Tail(ts[1].s), Concat([k \in 1..Len(ts) |-> ts[k].re]),
                 IF r THEN <<>> ELSE Concat([k \in 1..Len(ts) |-> ImOf(ts[k])]))
SumsTo(t, c) == SameVal(SumAxes(t, <<1>>), Scale(Eye(t.s[2]), c, 0))
ProbMap(t) == Reshape(Perm(t, <<1, 3, 2>>), <<t.s[1], t.s[2] * t.s[3]>>)

(* elements e.got, probability map e.pm (both times e.scale), deviations of  *)
(* the Moore-Penrose conditions of the inversion map and, for informationally*)
(* complete ones, of being a left inverse                                    *)
LocalBad(e) ==
  LET w == CASE e.f = "x" -> << XYEl(e.d, FALSE) >>
             [] e.f = "y" -> << XYEl(e.d, TRUE) >>
             [] e.f = "z" -> << ZEl(e.d, 1) >>
             [] e.f = "pauli" -> << CatT(Parts(e.d)) >>
             [] e.f = "parts" -> Parts(e.d)
             [] e.f = "concat" -> << CatT([k \in 1..Len(e.ts) |-> Scale(e.ts[k], e.w[k], 0)]) >>
             [] e.f = "vectors" -> << CatT([k \in 1..Len(e.ts) |->
                  LET o == Outer(e.ts[k], Conj(e.ts[k])) IN Reshape(o, <<1>> \o o.s)]) >>
  IN IF e.f = "concat" /\ (SumS(e.w) # e.W \/ Len(e.w) # Len(e.ts)) THEN (IF e.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF e.exc # "" THEN {"unexpected-exception"}
     ELSE IF Len(e.got) # Len(w) THEN {"number-of-results"}
     ELSE UNION { UNION { LET t == TLCEval(w[k]) IN UNION {
                    DenseBad(t, e.got[k], 1),
                    DenseBad(ProbMap(t), e.pm[k], 1),
                    IF e.f \notin {"vectors", "concat"} /\ ~SumsTo(t, e.scale) THEN {"spec-normalisation"} ELSE {},
                    IF e.lens[k] = t.s[1] THEN {} ELSE {"length"},
                    IF e.mp[k] <= 1000 THEN {} ELSE {"inversion-map"} } : k \in 1..Len(w) },
                  IF e.f = "pauli" /\ (e.left > 1000 \/ ~e.ic) THEN {"not-informationally-complete"} ELSE {} }

(* matrix-product POVMs: e.got[k] dense tensor in local form times e.scale   *)
ProdOf(ls) == ChainAll([i \in 1..Len(ls) |-> Obj(<< ls[i].s >>, ls[i])])
RECURSIVE Tuples(_, _)      \* all sequences of length n over 1..m, lexicographic
Tuples(m, n) == IF n = 0 THEN << <<>> >>
                ELSE LET R == Tuples(m, n - 1)
                     IN Concat([i \in 1..m |-> [j \in 1..Len(R) |-> << i >> \o R[j]]])
RepeatRaw(lts, n) == LET m == Len(lts) IN [i \in 1..n |-> lts[((i - 1) % m) + 1]]
AttrBad(a, sh) ==
  LET n == Len(sh) Q(i) == sh[i][1] > 1
  IN UNION { IF a.outdims = [i \in 1..n |-> sh[i][1]] THEN {} ELSE {"outdims"},
             IF a.hdims = [i \in 1..n |-> sh[i][2]] THEN {} ELSE {"hdims"},
             IF a.nsoutpos = [k \in 1..Len(Sel(Iota(n), Q)) |-> Sel(Iota(n), Q)[k] - 1] THEN {} ELSE {"nsoutpos"},
             IF a.nsoutdims = Sel([i \in 1..n |-> sh[i][1]], Q) THEN {} ELSE {"nsoutdims"} }
ElemOf(x, k) ==              \* k-th element (outcomes in lexicographic order), flattened
  LET ax == [i \in 1..Sites(x) |-> LegOff(x.sh, i) + 1]
      od == [i \in 1..Sites(x) |-> x.sh[i][1]]
      y == Perm(x.t, ax \o Sel(Iota(Len(x.t.s)), LAMBDA i : \A j \in 1..Len(ax) : ax[j] # i))
      m == Size(x.t) \div Prod(od)
  IN T(<<m>>, [q \in 1..m |-> y.re[((k - 1) * m) + q]],
       IF IsReal(y) THEN <<>> ELSE [q \in 1..m |-> y.im[((k - 1) * m) + q]])
PMap(x) == LET n == Sites(x)
               ax == Concat([i \in 1..n |-> <<LegOff(x.sh, i) + 1, LegOff(x.sh, i) + 3, LegOff(x.sh, i) + 2>>])
           IN Reshape(Perm(x.t, ax), <<Size(x.t)>>)
ConsBad(e) ==
  LET nw == IF e.f = "pauli_mpps" THEN Prod(Rep(Len(Parts(e.d)), e.n)) ELSE IF e.f = "repeat" THEN Len(e.lts) ELSE 1
      w(k) == CASE e.f = "pauli_mpp" -> ProdOf(Rep(CatT(Parts(e.d)), e.n))
             [] e.f = "pauli_mpps" ->
                  LET P == Parts(e.d) t == Tuples(Len(P), e.n)[k]
                  IN ProdOf([i \in 1..e.n |-> P[t[i]]])
             [] e.f = "local" -> ProdOf(Rep(e.ts[1], e.n))
             [] e.f = "eye" -> ProdOf([i \in 1..Len(e.dims) |-> EyeOut(e.dims[i])])
             [] e.f = "repeat" -> Denote(RepeatRaw(e.lts[k], e.n))
             [] e.f = "attr" -> Denote(e.lts[1])
  IN IF e.f = "reject" THEN (IF e.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF e.exc # "" THEN {"unexpected-exception"}
     ELSE IF e.cnt # nw THEN {"number-of-results"}
     ELSE UNION { LET x == TLCEval(w(e.sel[k]))
                      s == SumAxes(x.t, [i \in 1..Sites(x) |-> LegOff(x.sh, i) + 1])
                      hd == [i \in 1..Sites(x) |-> x.sh[i][2]]
                      no == Prod([i \in 1..Sites(x) |-> x.sh[i][1]])
                  IN UNION { DenseBad(x.t, e.got[k], 1),
                             AttrBad(e.attr[k], x.sh),
                             IF e.ty[k] = "MPPovm" THEN {} ELSE {"result-type"},
                             (* maps vectorised states to probabilities *)
                             DenseBad(PMap(x), e.pmap[k], 1),
                             IF e.pmsh[k] = [i \in 1..Sites(x) |-> <<x.sh[i][1], hd[i] * hd[i]>>] THEN {} ELSE {"map-shape"},
                             IF e.els[k] = <<>> THEN {}
                             ELSE IF Len(e.els[k]) # no THEN {"number-of-elements"}
                             ELSE UNION { DenseBad(ElemOf(x, q), e.els[k][q], 1) : q \in 1..no },
                             IF e.norm => SameVal(s, Scale(T(s.s, PTraceEye(hd), <<>>), e.scale[e.sel[k]], 0))
                             THEN {} ELSE {"spec-normalisation"} }
                  : k \in 1..Len(e.sel) }
=============================================================================
