--------------------------------- MODULE Heap ---------------------------------
(***************************************************************************)
(* The user-visible state machine: a heap of named MPArrays, changed by    *)
(* interface calls.  A heap cell is [sh, t, p, o]: abstract value, numeric *)
(* precision class (1 double, 2 single) and o = 0, or the (1-based) bond   *)
(* that was turned into a pair of physical legs by vleg2leg (the value is  *)
(* then the one with that pair contracted).                                *)
(*                                                                         *)
(* Outcome(e, h) is the specified outcome of event e in heap h.            *)
(***************************************************************************)
EXTENDS MPA, Bpp, FiniteSets

Cell(x, p, o) == [sh |-> x.sh, t |-> x.t, p |-> p, o |-> o]
Val(c) == Obj(c.sh, c.t)

Ret(objs, vals) == [ok |-> TRUE, exc |-> {}, objs |-> objs, vals |-> vals, upd |-> <<>>]
RetO(x) == Ret(<<x>>, <<>>)
RetV(v) == Ret(<<>>, <<v>>)
RetU(upd, vals) == [ok |-> TRUE, exc |-> {}, objs |-> <<>>, vals |-> vals, upd |-> upd]
Raise(S) == [ok |-> FALSE, exc |-> S, objs |-> <<>>, vals |-> <<>>, upd |-> <<>>]
AnyError == {"*"}   \* rejected, the kind of exception is not specified

(* contraction of a chain of local tensors (virtual legs first and last)   *)
RECURSIVE DenoteRaw(_)
DenoteRaw(lts) ==
  IF Len(lts) = 1 THEN lts[1]
  ELSE LET n == Len(lts)
           L == DenoteRaw(SubSeq(lts, 1, n - 1))
       IN TLCEval(Contract(L, <<Ndim(L)>>, lts[n], <<1>>))
PhysShape(lt) == SubSeq(lt.s, 2, Len(lt.s) - 1)
Denote(lts) == ObjOf([i \in 1..Len(lts) |-> PhysShape(lts[i])], DenoteRaw(lts))

SplitBy(s, nds) ==   \* cut sequence s into pieces of lengths nds
  LET RECURSIVE F(_, _)
      F(u, i) == IF i > Len(nds) THEN <<>>
                 ELSE <<SubSeq(u, 1, nds[i])>> \o F(SubSeq(u, nds[i] + 1, Len(u)), i + 1)
  IN F(s, 1)

AxSeq(a) == IF a.k = "int" THEN <<a.v>> ELSE a.v
SameLegs(x, y) == x.sh = y.sh

(* tr(G), tr(G^2), ... for G = M M^dagger, M the matrix over cut b          *)
CutPowers(x, b, m) ==
  LET dl == Prod(Concat(SubSeq(x.sh, 1, b)))
      dr == Prod(Concat(SubSeq(x.sh, b + 1, Len(x.sh))))
      M0 == Reshape(x.t, <<dl, dr>>)
      M == IF dl <= dr THEN M0 ELSE Perm(M0, <<2, 1>>)
      G == TLCEval(Contract(M, <<2>>, Conj(M), <<2>>))
      RECURSIVE P(_)
      P(k) == IF k = 1 THEN G ELSE TLCEval(Contract(P(k - 1), <<2>>, G, <<1>>))
      tr(A) == TracePair(A, 1, 2).re[1]
  IN T(<<m>>, [k \in 1..m |-> tr(P(k))], <<>>)

InPlace == {"imul", "idiv", "canonicalize", "compress", "setlt"}

Outcome(e, h) ==
  LET x(i) == Val(h[e.in[i]])
      n == Len(e.in)
      all == [i \in 1..n |-> x(i)]
      a == e.a
      op == e.op
  IN
  CASE op = "new" -> RetO(Denote(a.lts))
    [] op = "from_array" -> RetO(ObjOf(SplitBy(a.t.s, a.nd), a.t))
    [] op = "from_array_global" ->
         LET t == FromGlobal(a.t, a.n) p == Ndim(a.t) \div a.n
         IN RetO(ObjOf(SplitBy(t.s, Rep(p, a.n)), t))
    [] op = "from_kron" ->
         RetO(ChainAll([i \in 1..Len(a.ts) |-> Obj(<<a.ts[i].s>>, a.ts[i])]))
    [] op = "from_array_virtual" -> RetV(a.t)
    [] op = "to_array" -> RetV(x(1).t)
    [] op = "to_array_global" -> RetV(ToGlobal(x(1)))
    [] op \in {"copy", "copy_rankfree"} -> RetO(x(1))
    [] op = "pos" -> RetO(x(1))
    [] op = "neg" -> RetO(ScaleO(x(1), -1, 0))
    [] op \in {"add", "sub"} ->
         IF ~SameLegs(x(1), x(2)) THEN Raise(AnyError)
         ELSE RetO(IF op = "add" THEN AddO(x(1), x(2)) ELSE SubO(x(1), x(2)))
    [] op = "mul" -> RetO(ScaleO(x(1), a.c[1], a.c[2]))
    [] op = "div" -> RetO(DivO(x(1), a.c[1], a.c[2]))
    [] op = "imul" -> RetU(<< ScaleO(x(1), a.c[1], a.c[2]) >>, <<>>)
    [] op = "idiv" -> RetU(<< DivO(x(1), a.c[1], a.c[2]) >>, <<>>)
    [] op = "sumup" -> RetO(SumW(all, IF a.w = <<>> THEN Rep(<<1, 0>>, n) ELSE a.w))
    [] op = "special_sumup" -> RetO(SumW(all, IF a.w = <<>> THEN Rep(<<1, 0>>, n) ELSE a.w))
    [] op = "conj" -> RetO(ConjO(x(1)))
    [] op = "T" -> RetO(Transp(x(1)))
    [] op = "adj" -> RetO(ConjO(Transp(x(1))))
    [] op = "transpose" -> RetO(IF a.k = "none" THEN Transp(x(1)) ELSE TransposeAx(x(1), a.v))
    [] op = "sum" -> LET s == SumO(x(1), a) IN IF Concat(s.sh) = <<>> THEN RetV(s.t) ELSE RetO(s)
    [] op = "reshape" -> RetO(ReshapeO(x(1), a))
    [] op = "ravel" -> RetO(ReshapeO(x(1), [k |-> "one", v |-> <<-1>>]))
    [] op = "group_sites" -> IF Sites(x(1)) % a.v # 0 THEN Raise({"ValueError"})
                             ELSE RetO(GroupO(x(1), a.v))
    [] op = "split_sites" -> RetO(SplitSitesO(x(1), a.v))
    [] op = "reverse" -> RetO(ReverseO(x(1)))
    [] op = "get" -> RetO(FixLegs(x(1), Rep(0, Sites(x(1))), a.v))
    [] op = "axis_iter" ->
         Ret(AxisIterO(x(1), IF a.k = "int" THEN Rep(a.v, Sites(x(1))) ELSE a.v), <<>>)
    [] op = "diag" ->
         LET d == DiagO(x(1), a.v)
         IN IF \E i \in 1..Sites(x(1)) : x(1).sh[i][PyAx(a.v, NLegs(x(1), i))] # x(1).sh[1][PyAx(a.v, NLegs(x(1), 1))]
            THEN Raise(AnyError)
            ELSE IF NLegs(x(1), 1) = 1 THEN RetV(T(<<Len(d)>>, [k \in 1..Len(d) |-> d[k].t.re[1]],
                                        IF IsReal(x(1).t) THEN <<>>
                                        ELSE [k \in 1..Len(d) |-> d[k].t.im[1]]))
            ELSE Ret(d, <<>>)
    [] op = "dot" -> IF Sites(x(1)) # Sites(x(2)) THEN Raise(AnyError)
                     ELSE RetO(DotO(x(1), AxSeq(a.l), x(2), AxSeq(a.r)))
    [] op = "partialdot" -> RetO(PartialDotO(x(1), x(2), a.start, AxSeq(a.l), AxSeq(a.r)))
    [] op = "localouter" -> IF Sites(x(1)) # Sites(x(2)) THEN Raise(AnyError)
                            ELSE RetO(LocalOuterO(x(1), x(2)))
    [] op \in {"inner", "inner_prod_mps"} ->
         IF Sites(x(1)) # Sites(x(2)) THEN Raise(AnyError)
         ELSE RetV(InnerO(x(1), x(2)))
    [] op = "sandwich" ->
         RetV(InnerO(IF n = 3 THEN x(3) ELSE x(2), MatVec(x(1), x(2))))
    [] op = "norm2" -> RetV(ScalarT(Norm2(x(1).t), 0))
    [] op = "normdist2" -> RetV(ScalarT(Norm2(Sub(x(1).t, x(2).t)), 0))
    [] op = "trace" -> RetV(PTraceO(x(1), a.v).t)
    [] op = "partialtrace" -> RetO(PTraceO(x(1), a.v))
    [] op = "prune" -> RetO(PruneO(x(1), a.v))
    [] op = "chain" -> IF n = 0 THEN Raise({"ValueError"}) ELSE RetO(ChainAll(all))
    [] op = "inject" ->
         IF \E j \in 1..(Len(a.pos) - 1) : a.pos[j] >= a.pos[j + 1] THEN Raise(AnyError) ELSE
         RetO(InsertMany(x(1), a.pos,
              [j \in 1..Len(a.pos) |->
                 IF a.kind[j] = "seq" THEN a.ten[j]
                 ELSE InjectIns(x(1), a.pos[j], a.num[j], a.ten[j])]))
    [] op = "embed_slice" -> RetO(EmbedO(a.length, a.start, x(1), a.emb))
    [] op = "local_sum" ->
         RetO(AddAll([i \in 1..n |-> EmbedO(a.length, a.starts[i], x(i), a.emb)]))
    [] op = "pad_ranks" -> RetO(x(1))
    [] op = "vleg2leg" -> RetO(x(1))
    [] op = "leg2vleg" -> RetO(x(1))
    [] op = "split" -> RetV(x(1).t)
    [] op = "setlt" -> RetU(<< Obj(a.sh, a.t) >>, <<>>)
    [] op \in {"dumpload", "load"} -> RetO(x(1))
    [] op = "dump" -> RetU(<<>>, <<>>)          \* a.loc: heap cell standing for the place in the file
    [] op \in {"compress_bpp", "compression_bpp"} ->
         LET ks == KeepKs(a.d, a.rank, a.rel)
             c == Obj(x(1).sh, BTensor(a.d, ks, x(1).t.s))
         IN IF op = "compress_bpp" THEN RetU(<< c >>, << ScalarT(Norm2(c.t), 0) >>)
            ELSE Ret(<< c >>, << ScalarT(Norm2(c.t), 0) >>)
    [] op = "svals_bpp" ->        \* squared singular values, one array per cut, padded with zeros
         RetU(<< x(1) >>, [b \in 1..NBonds(a.d) |->
           LET v == SvSq(a.d, b) m == a.cnt[b]
           IN T(<<Max2(m, Len(v))>>, [k \in 1..Max2(m, Len(v)) |-> IF k <= Len(v) THEN v[k] ELSE 0], <<>>)])
    [] op = "svals_pow" ->        \* power sums of the squared singular values
         RetU(<< x(1) >>, [b \in 1..(Sites(x(1)) - 1) |-> CutPowers(x(1), b, a.m)])
    [] op = "mps_to_pmps" -> RetO(AddAnc(x(1)))
    [] op = "mps_to_mpo" -> RetO(Rho(AddAnc(x(1))))
    [] op = "pmps_to_mpo" -> RetO(Rho(x(1)))
    [] op = "pmps_to_mps" -> IF \E i \in 1..Sites(x(1)) : x(1).sh[i][2] # 1 THEN Raise(AnyError)
                             ELSE RetO(DropAnc(x(1)))
    [] op = "pmps_dm" ->
         LET r == DropOnes(Rho(x(1)))
         IN RetV(IF a.glob THEN ToGlobal(Obj([i \in 1..(Ndim(r) \div 2) |-> <<r.s[2 * i - 1], r.s[2 * i]>>], r)) ELSE r)
    [] op = "pmps_dmval" -> RetV(Rho(x(1)).t)
    [] op = "reductions_mpo" ->
         LET r == IF a.mode = "mps" THEN Rho(AddAnc(x(1))) ELSE x(1)
         IN Ret([k \in 1..Len(a.st) |-> RedO(r, a.st[k], a.sp[k])], <<>>)
    [] op = "reductions_pmps" ->      \* purifications are not unique, the density matrices are
         LET r == Rho(IF a.mode = "mps" THEN AddAnc(x(1)) ELSE x(1))
         IN Ret(<<>>, [k \in 1..Len(a.st) |-> RedO(r, a.st[k], a.sp[k]).t])
    [] op = "pmps_reduction" ->
         RetV(RedSet(Rho(x(1)), {a.sup[k] : k \in 1..Len(a.sup)}).t)
    [] op = "povm_pmf" -> RetO(PmfO(x(1), StRho(x(2), a.mode)))
    [] op = "povm_expect" ->
         LET rho == StRho(x(2), a.mode)
         IN Ret([k \in 1..(Sites(rho) - Sites(x(1)) + 1) |->
                   PmfO(x(1), RedO(rho, k - 1, k - 1 + Sites(x(1))))], <<>>)
    [] op = "povm_probmap" ->
         LET y == TransposeAx(x(1), <<0, 2, 1>>)
             nsh == [i \in 1..Sites(y) |-> <<y.sh[i][1], y.sh[i][2] * y.sh[i][3]>>]
         IN RetO(Obj(nsh, Reshape(y.t, Concat(nsh))))
    [] op = "povm_elements" -> Ret(AxisIterO(x(1), Rep(0, Sites(x(1)))), <<>>)
    [] op = "povm_embed" -> RetO(PovmEmbed(x(1), a.n, a.start, a.dims))
    [] op = "povm_block" ->       \* same position consecutive
         Ret([k \in 1..(n * (a.n - Sites(x(1)) + 1)) |->
                PovmEmbed(x(((k - 1) % n) + 1), a.n, (k - 1) \div n, Rep(a.d, a.n))], <<>>)
    [] op = "povm_repeat" ->
         Ret([k \in 1..n |-> PovmRepeat(x(k), a.n)], <<>>)
    [] op = "eye" -> RetO(ChainAll([i \in 1..Len(a.dims) |-> Obj(<< <<a.dims[i], a.dims[i]>> >>, Eye(a.dims[i]))]))
    [] op = "zero" -> RetO(Obj(a.sh, T(Concat(a.sh), Zeros(Prod(Concat(a.sh))), <<>>)))
    [] op = "diagonal" ->         \* a.t: the entries
         LET m == a.t.s[1]
             st == SumS([k \in 1..a.n |-> Prod(Rep(m, k - 1))])     \* distance of diagonal elements
             sz == Prod(Rep(m, a.n))
             F(v) == [k \in 1..sz |-> IF (k - 1) % st = 0 THEN v[((k - 1) \div st) + 1] ELSE 0]
         IN IF Len(a.t.s) # 1 THEN Raise({"NotImplementedError"})
            ELSE RetO(Obj(Rep(<<m>>, a.n), T(Rep(m, a.n), F(a.t.re), IF a.t.im = <<>> THEN <<>> ELSE F(a.t.im))))
    [] op = "compress_bad" -> Raise(IF "exc" \in DOMAIN a THEN {a.exc} ELSE AnyError)
    [] op = "compress_exact" -> RetU(<< x(1) >>, << ScalarT(Norm2(x(1).t), 0) >>)
    [] op = "compression_exact" -> Ret(<< x(1) >>, << ScalarT(Norm2(x(1).t), 0) >>)
    [] op \in {"svals", "canonicalize_any"} -> RetU(<< x(1) >>, <<>>)
    [] op = "canonicalize" ->
         LET N == Sites(x(1)) tl == TgtL(a.l, N) tr == TgtR(a.r, N)
         IN IF a.l.k = "none" /\ a.r.k = "none" THEN RetU(<< x(1) >>, <<>>)
            ELSE IF tl < 0 \/ tl > N \/ tr < 0 \/ tr > N THEN Raise({"IndexError"})
            ELSE IF tl >= tr THEN Raise({"ValueError"})
            ELSE RetU(<< x(1) >>, <<>>)
    [] op = "observe" -> RetU(<<>>, <<>>)      \* read-only access, no result judged
    [] op = "poke_val" -> RetU(<<>>, <<>>)     \* user overwrites a returned dense array
    [] op = "write_lt" -> Raise({"ValueError"})  \* user writes into a local tensor view
    [] op = "bad_update" -> Raise(AnyError)    \* update with non-matching ranks
    [] op = "bad_new" -> Raise(AnyError)       \* constructing from non-matching ranks
    [] op = "free" -> RetU(<<>>, <<>>)

(* openness of results *)
OutOpen(e, h) == CASE e.op = "vleg2leg" -> e.a.v + 1
                   [] e.op = "leg2vleg" -> 0
                   [] Len(e.in) > 0 -> h[e.in[1]].o
                   [] OTHER -> 0
OutPrec(e, h) == LET S == {h[e.in[i]].p : i \in 1..Len(e.in)} \cup {e.p}
                 IN IF 2 \in S THEN 2 ELSE 1

(* ---------------------------- judgement ------------------------------- *)
TolV(p) == IF p = 2 THEN 5000000 ELSE 1000      \* units of 1e-9, relative
TolI(p) == IF p = 2 THEN 1000000 ELSE 1000      \* isometry deviation

(* floating point type that holds the entries of all local tensors          *)
CommonType(S) ==
  LET cplx == S \cap {"c8", "c16"} # {}
      single == S \subseteq {"f4", "c8"}
  IN IF cplx THEN (IF single THEN "c8" ELSE "c16") ELSE IF single THEN "f4" ELSE "f8"

(* consistency of an observed MPA by itself *)
SelfBad(o, p) ==
  LET n == Len(o.lr) l == o.cf[1] r == o.cf[2]
  IN UNION {
    IF n = Len(o.sh) /\ n = o.len THEN {} ELSE {"length"},
    IF \A i \in 1..(n - 1) : o.lr[i][2] = o.lr[i + 1][1] THEN {} ELSE {"bond-mismatch"},
    IF o.lr[1][1] = 1 /\ o.lr[n][2] = 1 THEN {} ELSE {"boundary-rank"},
    IF \A i \in 1..n : o.lr[i][2] >= 1 THEN {} ELSE {"rank-zero"},
    IF o.rk = [i \in 1..(n - 1) |-> o.lr[i][2]] THEN {} ELSE {"ranks-attribute"},
    IF o.size = SumS([i \in 1..n |-> o.lr[i][1] * o.psz[i] * o.lr[i][2]]) THEN {} ELSE {"size-attribute"},
    IF o.nd = [i \in 1..n |-> Len(o.osh[i])] THEN {} ELSE {"ndims-attribute"},
    IF o.dt = CommonType(Range(o.ldt)) THEN {} ELSE {"dtype-attribute"},
    IF 0 <= l /\ l <= n /\ 0 <= r /\ r <= n THEN {} ELSE {"canonical-form-range"},
    IF \A i \in 1..n : i <= l => o.ld[i] <= TolI(p) THEN {} ELSE {"left-canonical-claim"},
    IF \A i \in 1..n : i > r => o.rd[i] <= TolI(p) THEN {} ELSE {"right-canonical-claim"} }

ValBad(c, o) ==
  UNION {
    IF o.sh = c.sh THEN {} ELSE {"shape"},
    IF o.sh = c.sh /\ ~CloseVal(T(c.t.s, o.re, o.im), c.t, c.p) THEN {"value"} ELSE {},
    IF o.res <= TolV(c.p) THEN {} ELSE {"precision"} }

ObsBad(c, o) == ValBad(c, o) \cup SelfBad(o, c.p)

DenseBad(v, o, p) ==
  UNION {
    IF o.s = v.s THEN {} ELSE {"result-shape"},
    IF o.s = v.s /\ ~CloseVal(T(v.s, o.re, o.im), v, p) THEN {"result-value"} ELSE {},
    IF o.res <= TolV(p) THEN {} ELSE {"result-precision"} }

RankLE(rk, bd) == \A i \in 1..Len(bd) : i <= Len(rk) => rk[i] <= bd[i]

(* documented guarantees on rank / canonical form beyond the value *)
Extra(e, h, chgOf) ==
  LET op == e.op IN
  CASE op = "canonicalize" /\ e.exc = "" /\ ~(e.a.l.k = "none" /\ e.a.r.k = "none") ->
         LET N == Len(h[e.in[1]].sh) tl == TgtL(e.a.l, N) tr == TgtR(e.a.r, N) o == e.post
         IN UNION {
              IF o.cf[1] >= tl /\ o.cf[2] <= tr THEN {} ELSE {"requested-form-not-claimed"},
              IF \A i \in 1..N : (i <= tl => o.ld[i] <= TolI(h[e.in[1]].p))
                               /\ (i > tr => o.rd[i] <= TolI(h[e.in[1]].p))
              THEN {} ELSE {"requested-form-not-reached"},
              IF RankLE(o.rk, e.irk[1]) THEN {} ELSE {"rank-increased"} }
    [] op = "canonicalize" /\ e.exc = "" ->     \* canonicalize(): all sites but one
         IF e.post.cf[1] = Len(h[e.in[1]].sh) - 1 \/ e.post.cf[2] = 1 THEN {} ELSE {"not-fully-canonical"}
    [] op \in {"from_array", "from_array_global"} /\ e.exc = "" ->
         LET o == e.outs[1] n == Len(o.lr)
         IN UNION { IF \A i \in 1..(n - 1) : o.ld[i] <= TolI(e.p) THEN {} ELSE {"not-left-canonical"},
                    IF RankLE(o.rk, FullRank(o.sh)) THEN {} ELSE {"rank-exceeds-full-rank"} }
    [] op \in {"from_kron"} /\ e.exc = "" ->
         IF \A k \in 1..Len(e.outs[1].rk) : e.outs[1].rk[k] = 1 THEN {} ELSE {"rank-not-one"}
    [] op \in {"add", "sub", "sumup"} /\ e.exc = "" ->
         IF \A k \in 1..Len(e.outs[1].rk) :
              e.outs[1].rk[k] <= SumS([i \in 1..Len(e.irk) |-> e.irk[i][k]])
         THEN {} ELSE {"rank-exceeds-sum"}
    [] op = "special_sumup" /\ e.exc = "" ->
         IF \A k \in 1..Len(e.outs[1].rk) : e.outs[1].rk[k] <= e.a.rank
         THEN {} ELSE {"rank-bound"}
    [] op = "dot" /\ e.exc = "" ->
         IF \A k \in 1..Len(e.outs[1].rk) : e.outs[1].rk[k] <= e.irk[1][k] * e.irk[2][k]
         THEN {} ELSE {"rank-exceeds-product"}
    [] op \in {"mul", "div", "neg", "conj", "T", "adj", "transpose", "copy", "reshape", "ravel"}
       /\ e.exc = "" ->
         IF e.outs[1].rk = e.irk[1] THEN {} ELSE {"rank-changed"}
    [] op = "eye" /\ e.exc = "" ->
         IF \A k \in 1..Len(e.outs[1].rk) : e.outs[1].rk[k] = 1 THEN {} ELSE {"rank-not-one"}
    [] op = "zero" /\ e.exc = "" ->
         LET fr == FullRank(e.a.sh)
         IN IF e.outs[1].rk = [k \in 1..Len(e.a.rank) |-> IF e.a.force THEN e.a.rank[k] ELSE Min2(e.a.rank[k], fr[k])]
            THEN {} ELSE {"ranks"}
    [] op = "diagonal" /\ e.exc = "" ->
         IF e.outs[1].rk = Rep(e.a.t.s[1], e.a.n - 1) THEN {} ELSE {"ranks"}
    [] op = "pad_ranks" /\ e.exc = "" ->
         LET rk == e.irk[1]
             tgt == IF e.a.rank = 0
                    THEN (LET S == {1} \cup Range(rk)
                              M == CHOOSE m \in S : \A k \in S : k <= m IN M)
                    ELSE e.a.rank
             fr == FullRank(h[e.in[1]].sh)
             want == [k \in 1..Len(rk) |-> Max2(rk[k], IF e.a.force THEN tgt ELSE Min2(fr[k], tgt))]
         IN IF e.outs[1].rk = want THEN {} ELSE {"padded-ranks"}
    [] op = "local_sum" /\ e.exc = "" /\ e.a.regular ->
         LET D == LET S == {1} \cup UNION {Range(e.irk[i]) : i \in 1..Len(e.irk)}
                  IN CHOOSE m \in S : \A k \in S : k <= m
         IN IF \A k \in 1..Len(e.outs[1].rk) : e.outs[1].rk[k] <= e.a.width * D + 1
            THEN {} ELSE {"local-sum-rank"}
    [] op = "vleg2leg" /\ e.exc = "" ->
         IF e.outs[1].rk[e.a.v + 1] = 1 /\ e.outs[1].open = <<e.irk[1][e.a.v + 1], e.irk[1][e.a.v + 1]>>
         THEN {} ELSE {"vleg-dimension"}
    [] op \in {"compress_bpp", "compression_bpp"} /\ e.exc = "" ->
         LET d == e.a.d
             o == IF op = "compress_bpp" THEN e.post ELSE e.outs[1]
             x == h[e.in[1]]
             ks == KeepKs(d, e.a.rank, e.a.rel)
         IN UNION {
              IF SameVal(BTensor(d, FullKs(d), x.t.s), x.t) THEN {} ELSE {"harness-input"},
              IF e.a.rank > 0 /\ \E b \in 1..Len(o.rk) : o.rk[b] > e.a.rank THEN {"rank-bound"} ELSE {},
              IF e.a.rel # <<>> /\ \E b \in 1..Len(o.rk) : o.rk[b] > KsAt(d, ks, b) THEN {"rank-for-relerr"} ELSE {},
              IF RankLE(o.rk, e.irk[1]) THEN {} ELSE {"rank-increased"} }
    [] op \in {"compress_exact", "compression_exact"} /\ e.exc = "" /\ "rank" \in DOMAIN e.a ->
         LET o == IF op = "compress_exact" THEN e.post ELSE e.outs[1]
         IN IF e.a.rank = 0 \/ \A b \in 1..Len(o.rk) : o.rk[b] <= e.a.rank THEN {} ELSE {"rank-bound"}
    [] op = "split" /\ e.exc = "" ->
         UNION { SelfBad(e.parts[k], h[e.in[1]].p) : k \in 1..Len(e.parts) }
    [] op \in {"dumpload", "load"} /\ e.exc = "" ->
         (IF e.outs[1].rk = e.irk[1] THEN {} ELSE {"rank-changed"})
         \cup (IF e.outs[1].cf = e.icf THEN {} ELSE {"canonical-form-not-restored"})
         \cup (IF e.a.same THEN {} ELSE {"local-tensors-not-restored"})
    [] OTHER -> {}

(* All clauses violated by event e in heap h, and the next heap.           *)
Judge(e, h) ==
  LET oc == TLCEval(Outcome(e, h))
      p == OutPrec(e, h)
      op == OutOpen(e, h)
      updId(k) == e.in[k]
      h1 == IF oc.ok THEN [i \in DOMAIN h |->
                 IF \E k \in 1..Len(oc.upd) : updId(k) = i
                 THEN LET k == CHOOSE k \in 1..Len(oc.upd) : updId(k) = i
                      IN Cell(oc.upd[k], Max2(p, h[i].p), h[i].o)
                 ELSE h[i]] ELSE h
      good == oc.ok /\ e.exc = ""
      nout == IF good THEN Min2(Len(e.outs), Len(oc.objs)) ELSE 0
      h2 == [i \in DOMAIN h1 \cup {e.outs[k].id : k \in 1..nout} |->
               IF i \in DOMAIN h1 THEN h1[i]
               ELSE LET k == CHOOSE k \in 1..nout : e.outs[k].id = i
                    IN Cell(oc.objs[k], p, op)]
      chgIds == {e.chg[k].id : k \in 1..Len(e.chg)}
      bads == UNION {
        IF oc.ok /\ e.exc # "" THEN {"unexpected-exception"} ELSE {},
        IF ~oc.ok /\ e.exc = "" THEN {"missing-exception"} ELSE {},
        IF ~oc.ok /\ e.exc # "" /\ "*" \notin oc.exc /\ e.exc \notin oc.exc THEN {"wrong-exception"} ELSE {},
        IF good /\ Len(e.outs) # Len(oc.objs) THEN {"number-of-results"} ELSE {},
        IF good /\ Len(e.vals) # Len(oc.vals) THEN {"number-of-results"} ELSE {},
        UNION { ObsBad(Cell(oc.objs[k], p, op), e.outs[k]) : k \in 1..nout },
        IF good /\ Len(e.vals) = Len(oc.vals)
        THEN UNION { DenseBad(oc.vals[k], e.vals[k], p) : k \in 1..Len(oc.vals) } ELSE {},
        (* every live object that changed must have the specified value *)
        UNION { LET o == e.chg[k]
                    B == ObsBad(h1[o.id], o)
                    tgt == \E j \in 1..Len(e.in) : e.in[j] = o.id
                IN IF e.exc # "" /\ ~oc.ok /\ B = {} THEN {}
                   ELSE IF tgt THEN B
                   ELSE {"other-object:" \o b : b \in B}
                : k \in 1..Len(e.chg) },
        (* a target whose value was to change but which did not *)
        IF good THEN { "not-updated" : k \in {k \in 1..Len(oc.upd) :
                         /\ updId(k) \notin chgIds
                         /\ ~SameVal(oc.upd[k].t, h[updId(k)].t)} } ELSE {},
        IF good THEN Extra(e, h, chgIds) ELSE {},
        (* type of the result *)
        IF good /\ "ty" \in DOMAIN e.a /\ \E k \in 1..nout : e.outs[k].ty # e.a.ty
        THEN {"result-type"} ELSE {} }
      h3 == CASE e.op = "free" -> [i \in DOMAIN h2 \ Range(e.in) |-> h2[i]]
              [] e.op = "dump" -> [i \in DOMAIN h2 \cup {e.a.loc} |-> IF i = e.a.loc THEN h[e.in[1]] ELSE h2[i]]
              [] OTHER -> h2
  IN [bad |-> bads, heap |-> h3]
=============================================================================
