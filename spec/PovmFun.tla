-------------------------------- MODULE PovmFun --------------------------------
(***************************************************************************)
(* Linear functions of POVM outcomes: true values, variances and their     *)
(* estimates from samples.  Function values and coefficients are integers, *)
(* so all results are rational numbers with known denominators:            *)
(*   true value  E / N,  covariance  (N S2 - E E') / N^2                   *)
(*   estimate    E / H,  covariance  q (H S2 - E E') / (H^2 (H - q))       *)
(* (N: c * D, weights are integers divided by q that sum to H / q).        *)
(***************************************************************************)
EXTENDS PovmEst

Dot(f, w) == SumS([k \in 1..Len(f) |-> f[k] * w[k]])
Dot3(f, g, w) == SumS([k \in 1..Len(f) |-> f[k] * g[k] * w[k]])
UnitFuns(m) == [f \in 1..m |-> [k \in 1..m |-> IF k = f THEN 1 ELSE 0]]
Comb(c, F) == [k \in 1..Len(F[1]) |-> SumS([f \in 1..Len(F) |-> c[f] * F[f][k]])]
(* N * N * covariance for weights w that sum to N *)
CovNum(f, g, w, N) == N * Dot3(f, g, w) - Dot(f, w) * Dot(g, w)

FunTab(e, m) == IF e.funs = <<>> THEN UnitFuns(m) ELSE e.funs

(* r = [val, var, res] integers after scaling with the denominators         *)
LinBad(r, F, coeff, w, N, q) ==
  IF coeff = <<>> THEN
    UNION { IF r.val = [f \in 1..Len(F) |-> Dot(F[f], w)] THEN {} ELSE {"expectation"},
            IF r.var = Concat([f \in 1..Len(F) |-> [g \in 1..Len(F) |-> q * CovNum(F[f], F[g], w, N)]])
            THEN {} ELSE {"covariance"},
            IF r.res <= 2000 THEN {} ELSE {"precision"} }
  ELSE LET G == TLCEval(Comb(coeff, F))
       IN UNION { IF r.val = << Dot(G, w) >> THEN {} ELSE {"expectation"},
                  IF r.var = << q * CovNum(G, G, w, N) >> THEN {} ELSE {"variance"},
                  IF r.res <= 2000 THEN {} ELSE {"precision"} }

LfunBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET p == TLCEval(PmfT(Denote(e.povm), StRho(Denote(e.state), e.mode)).re)
       IN LinBad(e.r, FunTab(e, Len(p)), e.coeff, p, SumS(p), 1)

(* weights of the outcomes: number (or total weight) of their samples *)
OutW(e) == LET m == Prod(e.dims)
               ix == TLCEval([j \in 1..Len(e.samples) |-> 1 + Pack(e.samples[j], e.dims)])
           IN TLCEval([k \in 1..m |-> SumSet(LAMBDA j : IF ix[j] = k THEN e.w[j] ELSE 0, 1..Len(ix))])
EstLfunBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET w == OutW(e) IN LinBad(e.r, FunTab(e, Len(w)), e.coeff, w, SumS(w), e.q)

(* ---- lists: sums over independent measurements ------------------------ *)
ListLfunBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET rho == TLCEval(StRho(Denote(e.state), e.mode))
           n == Len(e.parts)
           p == TLCEval([i \in 1..n |-> PmfT(Denote(e.parts[i].povm), rho).re])
           N(i) == SumS(p[i])
           G == TLCEval([i \in 1..n |-> Comb(e.parts[i].coeff, FunTab(e.parts[i], Len(p[i])))])
           val == SumS([i \in 1..n |-> Dot(G[i], p[i]) * (e.den \div N(i))])
           var == SumS([i \in 1..n |-> CovNum(G[i], G[i], p[i], N(i)) * ((e.den \div N(i)) * (e.den \div N(i)))])
       IN IF \E i \in 1..n : e.den % N(i) # 0 THEN {"harness-denominator"}
          ELSE UNION { IF e.r.val = <<val>> THEN {} ELSE {"expectation"},
                       IF e.r.var = <<var>> THEN {} ELSE {"variance"},
                       IF e.r.res <= 2000 THEN {} ELSE {"precision"} }
(* all parts have the same total weight H *)
ListEst(e, w) ==
  LET n == Len(e.parts)
      G == TLCEval([i \in 1..n |-> Comb(e.parts[i].coeff, FunTab(e.parts[i], Len(w[i])))])
      H == SumS(w[1])
  IN [val |-> SumS([i \in 1..n |-> Dot(G[i], w[i])]), var |-> SumS([i \in 1..n |-> CovNum(G[i], G[i], w[i], H)])]
ListEstBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET n == Len(e.parts)
           w == TLCEval([i \in 1..n |-> OutW(e.parts[i])])
           v == TLCEval([i \in 1..n |-> OutW([e.parts[i] EXCEPT !.w = Rep(1, Len(e.parts[i].samples))])])
           R == ListEst(e, w)
           U == ListEst(e, v)
       IN IF e.r.val = <<R.val>> /\ e.r.var = <<R.var>> /\ e.r.res <= 2000 THEN {}
          ELSE IF e.weighted /\ e.u.val = <<U.val>> /\ e.u.var = <<U.var>> /\ e.u.res <= 2000
          THEN {"weights-ignored"}
          ELSE UNION { IF e.r.val = <<R.val>> THEN {} ELSE {"expectation"},
                       IF e.r.var = <<R.var>> THEN {} ELSE {"variance"},
                       IF e.r.res <= 2000 THEN {} ELSE {"precision"} }

(* ---- functions of one list of POVMs from measurements of another ------- *)
(* weight of source j is ws[j]; the estimator evaluates G[j] on source j    *)
Estimator(e) ==
  LET J == 1..Len(e.others)
      I == 1..Len(e.selfs)
      X == TLCEval([i \in I |-> Denote(e.selfs[i].lts)])
      Y == TLCEval([j \in J |-> Denote(e.others[j].lts)])
      A == TLCEval([i \in I |-> Els(X[i])])
      B == TLCEval([i \in I |-> [j \in J |-> Els(Forget(X[i], Y[j]))]])
      mt == TLCEval([i \in I |-> [j \in J |-> MatchOf(A[i], B[i][j])]])
      W == TLCEval([i \in I |-> [k \in 1..Len(A[i]) |->
             SumSet(LAMBDA j : e.ws[j] * Cardinality(mt[i][j][k]), J)]])
      need(i) == {k \in 1..Len(A[i]) : e.coeff[i][k] # 0}
      known == \A i \in I : \A k \in need(i) : W[i][k] > 0
      (* coefficient (times e.Q) of outcome o of source j, reduced to self i *)
      cf(i, j, k, o) == LET num == e.coeff[i][k] * e.ws[j] * A[i][k].tr * e.others[j].c
                            den == W[i][k] * e.selfs[i].c * B[i][j][o].tr
                        IN num * (e.Q \div den)
      div == \A i \in I : \A k \in need(i) : \A j \in J : \A o \in mt[i][j][k] :
               e.Q % (W[i][k] * e.selfs[i].c * B[i][j][o].tr) = 0
      (* all outcomes of source j as tuples over its non-trivial sites *)
      outs(j) == LET y == Y[j] Q(i) == y.sh[i][1] > 1 IN MultiIdx(Sel([i \in 1..Sites(y) |-> y.sh[i][1]], Q))
      G == TLCEval([j \in J |->
             LET os == TLCEval(outs(j)) IN
             [s \in 1..Len(os) |->
                SumSet(LAMBDA i : LET o == RedIdx(X[i], Y[j], os[s]) IN
                         SumSet(LAMBDA k : IF o \in mt[i][j][k] THEN cf(i, j, k, o) ELSE 0, need(i)), I)]])
  IN [known |-> known, div |-> known => div, G |-> IF known /\ div THEN G ELSE <<>>, X |-> X, Y |-> Y]
LfunFromBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET S == TLCEval(Estimator(e)) IN
    IF ~S.known THEN (IF e.nan THEN {} ELSE {"not-enough-information"})
    ELSE IF ~S.div THEN {"harness-denominator"}
    ELSE IF e.nan THEN {"no-result"}
    ELSE LET rho == TLCEval(StRho(Denote(e.state), e.mode))
             J == 1..Len(e.others)
             p == TLCEval([j \in J |-> PmfT(S.Y[j], rho).re])
             q == TLCEval([i \in 1..Len(e.selfs) |-> PmfT(S.X[i], rho).re])
             N(j) == SumS(p[j])
             M(i) == SumS(q[i])
             val == SumSet(LAMBDA i : Dot(e.coeff[i], q[i]) * (e.vden \div M(i)), 1..Len(e.selfs))
             var == SumSet(LAMBDA j : CovNum(S.G[j], S.G[j], p[j], N(j)) * ((e.den \div N(j)) * (e.den \div N(j))), J)
         IN IF (\E j \in J : e.den % N(j) # 0) \/ (\E i \in 1..Len(e.selfs) : e.vden % M(i) # 0)
            THEN {"harness-denominator"}
            ELSE UNION { IF e.r.val = <<val>> THEN {} ELSE {"expectation"},
                         IF e.r.var = <<var>> THEN {} ELSE {"variance"},
                         IF e.r.res <= 5000 THEN {} ELSE {"precision"} }
EstLfunFromBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET S == TLCEval(Estimator(e)) IN
    IF ~S.known THEN (IF e.nan THEN {} ELSE {"not-enough-information"})
    ELSE IF ~S.div THEN {"harness-denominator"}
    ELSE IF e.nan THEN {"no-result"}
    ELSE LET J == 1..Len(e.others)
             w == TLCEval([j \in J |-> OutW([samples |-> e.samples[j], dims |-> e.odims[j],
                                             w |-> Rep(1, Len(e.samples[j]))])])
             n(j) == Len(e.samples[j])
             val == SumSet(LAMBDA j : Dot(S.G[j], w[j]) * (e.vden \div n(j)), J)
             dn(j) == n(j) * n(j) * (n(j) - 1)
             var == SumSet(LAMBDA j : CovNum(S.G[j], S.G[j], w[j], n(j)) * (e.den \div dn(j)), J)
         IN UNION { IF e.r.val = <<val>> THEN {} ELSE {"expectation"},
                    IF e.r.var = <<var>> THEN {} ELSE {"variance"},
                    IF e.r.res <= 5000 THEN {} ELSE {"precision"} }
=============================================================================
