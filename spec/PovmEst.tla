-------------------------------- MODULE PovmEst --------------------------------
(***************************************************************************)
(* Estimating probabilities of one POVM from samples of others.            *)
(* A POVM is [x |-> integer object with legs (outcome, row, column),       *)
(* c |-> sum of the elements].  All matching elements are positive         *)
(* multiples of each other, so the factor between them is the ratio of     *)
(* their traces.                                                           *)
(***************************************************************************)
EXTENDS Povm

Outs(x) == [i \in 1..Sites(x) |-> x.sh[i][1]]
(* elements in row-major order of the outcomes: trace and entries *)
Els(x) ==
  LET n == Sites(x)
      p == [i \in 1..n |-> LegOff(x.sh, i) + 1]
           \o Concat([i \in 1..n |-> <<LegOff(x.sh, i) + 2, LegOff(x.sh, i) + 3>>])
      t == TLCEval(Perm(x.t, p))
      m == Prod(Outs(x))
      w == Len(t.re) \div m
      tr == TLCEval(PTraceO(x, Rep(<<1, 2>>, n)).t.re)
      row(s, k) == SubSeq(s, (k - 1) * w + 1, k * w)
  IN TLCEval([k \in 1..m |-> [tr |-> tr[k], re |-> row(t.re, k),
                              im |-> IF t.im = <<>> THEN Rep(0, w) ELSE row(t.im, k)]])
(* forget the outcomes of y on sites where x has only one *)
Forget(x, y) ==
  LET n == Sites(x)
      Q(i) == x.sh[i][1] = 1
      drop == Sel([i \in 1..n |-> LegOff(y.sh, i) + 1], Q)
      sh == [i \in 1..n |-> IF x.sh[i][1] = 1 THEN <<1>> \o SubSeq(y.sh[i], 2, 3) ELSE y.sh[i]]
  IN Obj(sh, Reshape(SumAxes(y.t, drop), Concat(sh)))
Same(a, b) == a.tr > 0 /\ b.tr > 0
              /\ \A k \in 1..Len(a.re) : b.tr * a.re[k] = a.tr * b.re[k] /\ b.tr * a.im[k] = a.tr * b.im[k]
MatchOf(A, B) == TLCEval([y \in 1..Len(A) |-> {o \in 1..Len(B) : Same(A[y], B[o])}])

(* number of the reduced outcome a sample of y stands for *)
RedIdx(x, y, s) ==
  LET n == Sites(x)
      NS(i) == y.sh[i][1] > 1
      sites == Sel([i \in 1..n |-> i], NS)
      K(j) == x.sh[sites[j]][1] > 1
      dims == [j \in 1..Len(sites) |-> y.sh[sites[j]][1]]
  IN 1 + Pack(Sel(s, K), Sel(dims, K))
CountsOf(x, y, samples, m) ==
  LET ix == TLCEval([j \in 1..Len(samples) |-> RedIdx(x, y, samples[j])])
  IN TLCEval([o \in 1..m |-> Cardinality({j \in 1..Len(ix) : ix[j] = o})])

SumSet(f(_), S) == LET RECURSIVE G(_)
                       G(U) == IF U = {} THEN 0 ELSE LET k == CHOOSE v \in U : TRUE IN f(k) + G(U \ {k})
                   IN G(S)

(* everything about estimating x (sum cs) from samples of y (sum co);      *)
(* num[y] / (n * cs * L) is the estimate                                   *)
From(x, cs, y, co, samples, L) ==
  LET A == Els(x)
      B == Els(Forget(x, y))
      mt == MatchOf(A, B)
      cnt == CountsOf(x, y, samples, Len(B))
      n == Len(samples)
      used == SumSet(LAMBDA o : cnt[o], UNION {mt[k] : k \in 1..Len(A)})
      given == {k \in 1..Len(A) : mt[k] # {}}
      num == TLCEval([k \in 1..Len(A) |-> SumSet(LAMBDA o : A[k].tr * co * cnt[o] * (L \div B[o].tr), mt[k])])
      w == Len(A[1].re)
      S == TLCEval([c \in 1..w |-> <<SumSet(LAMBDA k : A[k].re[c], given), SumSet(LAMBDA k : A[k].im[c], given)>>])
      dd == [i \in 1..Sites(x) |-> x.sh[i][2]]
      E == TLCEval(PTraceEye(dd))
      mult == \A c \in 1..w : S[c] = <<E[c] * S[1][1], 0>>
      div == \A k \in given : \A o \in mt[k] : L % B[o].tr = 0
  IN [mt |-> mt, A |-> A, B |-> B, given |-> given, used |-> used, num |-> num, mult |-> mult, div |-> div,
      ok |-> mult /\ SumSet(LAMBDA k : num[k], given) = S[1][1] * n * L]

(* e.selfs[i] = [lts, c], e.others[j] = [lts, c], samples[j]; res[i] =      *)
(* [exc, num, res, nan, used].  Every sample was given e.rep times: that    *)
(* changes the number of samples used and nothing else.                     *)
NanOk(r, given) == \A k \in 1..Len(r.nan) : r.nan[k] = (k \notin given)
EstFromBad(e) ==
  LET s == e.selfs[1] o == e.others[1]
      F == TLCEval(From(Denote(s.lts), s.c, Denote(o.lts), o.c, e.samples[1], e.L))
      r == e.res[1]
  IN IF ~F.div THEN {"harness-denominator"}
     ELSE IF F.given = {} THEN
       (IF r.exc # "" THEN {"unexpected-exception"}
        ELSE IF NanOk(r, {}) /\ r.used = 0 THEN {} ELSE {"nothing-known"})
     ELSE IF ~F.mult THEN (IF r.exc = "" THEN {"missing-exception"} ELSE {})
     ELSE IF ~F.ok THEN
       (IF r.exc # "" THEN {} ELSE {})
     ELSE IF r.exc # "" THEN {"unexpected-exception"}
     ELSE UNION { IF Len(r.nan) = Len(F.A) /\ NanOk(r, F.given) THEN {} ELSE {"known-set"},
                  IF \A k \in F.given : r.num[k] = F.num[k] THEN {} ELSE {"estimate"},
                  IF r.res <= 1000 THEN {} ELSE {"precision"},
                  IF r.used = F.used * e.rep THEN {} ELSE {"samples-used"},
                  IF r.shape = e.want[1] THEN {} ELSE {"result-shape"} }

(* several sources: average weighted by the number of samples used          *)
EstMppsBad(e) ==
  LET J == 1..Len(e.others)
      X == TLCEval([i \in 1..Len(e.selfs) |-> Denote(e.selfs[i].lts)])
      FF == TLCEval([i \in 1..Len(e.selfs) |-> [j \in J |->
              From(X[i], e.selfs[i].c, Denote(e.others[j].lts), e.others[j].c, e.samples[j], e.L)]])
      Good(i) == \A j \in J : LET F == FF[i][j] IN
                   F.div /\ (F.given = {} \/ (F.ok /\ F.used = Len(e.samples[j])))
      one(i) ==
        LET F == FF[i]
            r == e.res[i]
            m == Prod(Outs(X[i]))
            W(k) == SumSet(LAMBDA j : IF k \in F[j].given THEN F[j].used ELSE 0, J)
            num(k) == SumSet(LAMBDA j : IF k \in F[j].given THEN F[j].num[k] ELSE 0, J)
        IN UNION { IF r.wshape = e.want[i] /\ r.shape = e.want[i] THEN {} ELSE {"result-shape"},
                   IF r.w = [k \in 1..m |-> W(k) * e.rep] THEN {} ELSE {"samples-used"},
                   IF NanOk(r, UNION {F[j].given : j \in J}) THEN {} ELSE {"known-set"},
                   IF \A k \in 1..m : W(k) > 0 => r.num[k] = num(k) THEN {} ELSE {"estimate"},
                   IF r.res <= 1000 THEN {} ELSE {"precision"} }
  IN IF e.res[1].exc # "" THEN (IF \A i \in 1..Len(e.selfs) : Good(i) THEN {"unexpected-exception"} ELSE {})
     ELSE UNION { IF Good(i) THEN one(i) ELSE {} : i \in 1..Len(e.selfs) }

(* the same where only a part of the samples of some sources is of use: the *)
(* estimate from source j counts with the number of samples used of it; one *)
(* rounding per source                                                      *)
EstPartBad(e) ==
  LET J == 1..Len(e.others)
      s == e.selfs[1]
      x == Denote(s.lts)
      F == TLCEval([j \in J |-> From(x, s.c, Denote(e.others[j].lts), e.others[j].c, e.samples[j], e.L)])
      r == e.res[1]
      m == Prod(Outs(x))
      W(k) == SumSet(LAMBDA j : IF k \in F[j].given THEN F[j].used ELSE 0, J)
      num(k) == SumSet(LAMBDA j : IF k \in F[j].given THEN (F[j].num[k] * F[j].used) \div Len(e.samples[j]) ELSE 0, J)
  IN IF \E j \in J : ~F[j].div THEN {"harness-denominator"}
     ELSE IF \E j \in J : F[j].given # {} /\ ~F[j].ok THEN {}
     ELSE IF r.exc # "" THEN {"unexpected-exception"}
     ELSE UNION { IF r.wshape = e.want[1] /\ r.shape = e.want[1] THEN {} ELSE {"result-shape"},
                  IF r.w = [k \in 1..m |-> W(k)] THEN {} ELSE {"samples-used"},
                  IF NanOk(r, UNION {F[j].given : j \in J}) THEN {} ELSE {"known-set"},
                  IF \A k \in 1..m : W(k) > 0 => Abs(r.num[k] - num(k)) <= Len(e.others) + 1 THEN {} ELSE {"estimate"} }

(* product elements given by direction and weight 2^-e on every site: they  *)
(* match iff the directions agree everywhere, however small the weights     *)
MatchLabBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.s)
           ls == [i \in 1..n |-> Len(e.s[i])] lo == [i \in 1..n |-> Len(e.o[i])]
           A == MultiIdx(ls) B == MultiIdx(lo)
           m == Len(B)
           dir(p, ix) == [i \in 1..n |-> p[i][ix[i] + 1][1]]
           ex(p, ix) == SumS([i \in 1..n |-> p[i][ix[i] + 1][2]])
           K == {<<k, j>> : k \in 1..Len(A), j \in 1..m}
           at(q) == ((q[1] - 1) * m) + q[2]
           same(q) == dir(e.s, A[q[1]]) = dir(e.o, B[q[2]])
       IN IF Len(e.match) # Len(A) * m THEN {"result-shape"}
          ELSE UNION { IF \A q \in K : e.match[at(q)] = same(q) THEN {} ELSE {"matches"},
                       IF \A q \in K : same(q) => e.pref[at(q)] = ex(e.o, B[q[2]]) - ex(e.s, A[q[1]])
                       THEN {} ELSE {"prefactor"},
                       IF e.res <= 1000 THEN {} ELSE {"precision"} }

(* matching elements and the factors between them *)
MatchBad(e) ==
  LET s == e.selfs[1] o == e.others[1] x == Denote(s.lts)
      A == Els(x) B == Els(Forget(x, Denote(o.lts)))
      mt == MatchOf(A, B)
      m == Len(B)
      pos(k, j) == (k - 1) * m + j
      dup(C) == \E k \in 1..Len(C) : \E j \in 1..Len(C) : k # j /\ Same(C[k], C[j])
      dupped == (e.exself /\ dup(A)) \/ (e.exother /\ dup(B))
  IN IF e.exc # "" THEN (IF dupped THEN {} ELSE {"unexpected-exception"})
     ELSE IF Len(e.match) # Len(A) * m THEN {"result-shape"}
     ELSE UNION {
       IF e.shape = e.want[1] THEN {} ELSE {"result-shape"},
       IF \A k \in 1..Len(A) : \A j \in 1..m : e.match[pos(k, j)] = (j \in mt[k]) THEN {} ELSE {"matches"},
       IF \A k \in 1..Len(A) : \A j \in 1..m : e.pnan[pos(k, j)] = (j \notin mt[k]) THEN {} ELSE {"prefactor-missing"},
       IF \A k \in 1..Len(A) : \A j \in mt[k] : e.L % B[j].tr = 0 THEN {} ELSE {"harness-denominator"},
       IF \A k \in 1..Len(A) : \A j \in mt[k] : e.pref[pos(k, j)] = A[k].tr * o.c * (e.L \div B[j].tr)
       THEN {} ELSE {"prefactor"},
       IF e.res <= 1000 THEN {} ELSE {"precision"} }
=============================================================================
