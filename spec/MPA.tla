--------------------------------- MODULE MPA ---------------------------------
(***************************************************************************)
(* Abstract semantics of the MPArray interface.                            *)
(*                                                                         *)
(* An abstract MPA is [sh |-> <<shape of site 1, ...>>, t |-> tensor] with *)
(* t in local form, i.e. t.s = Concat(sh).  How the tensor is factorised   *)
(* into local tensors (ranks, gauge, canonical form) is not part of the    *)
(* abstract value: this is exactly what a user may rely on.                *)
(*                                                                         *)
(* Apply(op, a, x) gives, for a call of interface operation op with        *)
(* decoded arguments a on the operand values x, the documented outcome:    *)
(*   [ok   |-> TRUE:  the call must return; FALSE: it must raise,          *)
(*    exc  |-> set of admissible exception names when ok = FALSE,          *)
(*    objs |-> values of returned MPAs, vals |-> values of returned dense  *)
(*    arrays / scalars, upd |-> new values of the operands (in-place ops)] *)
(* Axis and site numbers in a are Python's (from 0, negative = from end).  *)
(***************************************************************************)
EXTENDS Tensor

Obj(sh, t) == [sh |-> sh, t |-> t]
ObjOf(sh, t) == Obj(sh, Reshape(t, Concat(sh)))
Sites(x) == Len(x.sh)
NLegs(x, i) == Len(x.sh[i])

(* first tensor axis of site i, minus one *)
RECURSIVE LegOff(_, _)
LegOff(sh, i) == IF i = 1 THEN 0 ELSE LegOff(sh, i - 1) + Len(sh[i - 1])
PyAx(ax, n) == IF ax >= 0 THEN ax + 1 ELSE n + ax + 1
AxisOf(sh, i, ax) == LegOff(sh, i) + PyAx(ax, Len(sh[i]))
SiteAxes(sh, i) == Ascending(LegOff(sh, i) + 1, LegOff(sh, i) + Len(sh[i]))

MapS(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

(* ------------------------------------------------------------------ *)
(* per-site leg permutation; p(i) = new order (1-based) of the legs    *)
SitePerm(x, p) ==
  LET n == Sites(x)
      full == Concat([i \in 1..n |-> [k \in 1..Len(p[i]) |-> LegOff(x.sh, i) + p[i][k]]])
      nsh == [i \in 1..n |-> [k \in 1..Len(p[i]) |-> x.sh[i][p[i][k]]]]
  IN Obj(nsh, Perm(x.t, full))
Transp(x) == SitePerm(x, [i \in 1..Sites(x) |-> Rev(Iota(NLegs(x, i)))])
TransposeAx(x, axes) ==
  SitePerm(x, [i \in 1..Sites(x) |-> [k \in 1..Len(axes) |-> PyAx(axes[k], NLegs(x, i))]])
ConjO(x) == Obj(x.sh, Conj(x.t))
AddO(x, y) == Obj(x.sh, Add(x.t, y.t))
SubO(x, y) == Obj(x.sh, Sub(x.t, y.t))
ScaleO(x, re, im) == Obj(x.sh, Scale(x.t, re, im))
(* exact division by the Gaussian integer re + i*im *)
DivT(A, re, im) ==
  LET S == Scale(A, re, -im)
      d == re * re + im * im
      Q(v) == v \div d
  IN T(A.s, MapS(Q, S.re), MapS(Q, S.im))
DivO(x, re, im) == Obj(x.sh, DivT(x.t, re, im))

RECURSIVE SumW(_, _)
SumW(xs, ws) == IF Len(xs) = 1 THEN ScaleO(xs[1], ws[1][1], ws[1][2])
                ELSE AddO(ScaleO(xs[1], ws[1][1], ws[1][2]), SumW(Tail(xs), Tail(ws)))

(* ---- sum over legs: a = [k |-> "none"|"int"|"ints"|"per", v |-> ...] - *)
SumAxesAt(x, a, i) ==
  CASE a.k = "none" -> Iota(NLegs(x, i))
    [] a.k = "int"  -> <<PyAx(a.v, NLegs(x, i))>>
    [] a.k = "ints" -> [k \in 1..Len(a.v) |-> PyAx(a.v[k], NLegs(x, i))]
    [] a.k = "per"  -> IF a.v[i].k = "none" THEN Iota(NLegs(x, i))
                       ELSE [k \in 1..Len(a.v[i].v) |-> PyAx(a.v[i].v[k], NLegs(x, i))]
DropLegs(sh, drop) ==   \* drop[i]: sequence of 1-based legs removed at site i
  [i \in 1..Len(sh) |-> LET Q(k) == k \notin Range(drop[i]) IN Sel(sh[i], Q)]
SumO(x, a) ==
  LET n == Sites(x)
      ax == [i \in 1..n |-> SumAxesAt(x, a, i)]
      all == Concat([i \in 1..n |-> [k \in 1..Len(ax[i]) |-> LegOff(x.sh, i) + ax[i][k]]])
  IN Obj(DropLegs(x.sh, ax), SumAxes(x.t, all))

(* ---- reshape: a = [k |-> "prune"|"one"|"per", v |-> shape(s) with -1] - *)
Resolve(old, new) ==
  LET known == Prod([k \in 1..Len(new) |-> IF new[k] = -1 THEN 1 ELSE new[k]])
  IN [k \in 1..Len(new) |-> IF new[k] = -1 THEN Prod(old) \div known ELSE new[k]]
ReshapeO(x, a) ==
  LET n == Sites(x)
      nsh == [i \in 1..n |->
               CASE a.k = "prune" -> (LET Q(k) == x.sh[i][k] > 1 IN Sel(x.sh[i], Q))
                 [] a.k = "one" -> Resolve(x.sh[i], a.v)
                 [] a.k = "per" -> Resolve(x.sh[i], a.v[i])]
  IN Obj(nsh, Reshape(x.t, Concat(nsh)))

GroupO(x, k) == Obj([i \in 1..(Sites(x) \div k) |->
                       Concat(SubSeq(x.sh, (i - 1) * k + 1, i * k))], x.t)
SplitSitesO(x, k) ==
  Obj(Concat([i \in 1..Sites(x) |->
        LET m == NLegs(x, i) \div k
        IN [j \in 1..k |-> SubSeq(x.sh[i], (j - 1) * m + 1, j * m)]]), x.t)
ReverseO(x) ==
  LET n == Sites(x)
      p == Concat([i \in 1..n |-> SiteAxes(x.sh, n + 1 - i)])
  IN Obj(Rev(x.sh), Perm(x.t, p))

(* first leg of site i fixed to idx[i] (0-based) for all sites *)
RECURSIVE FixLegs(_, _, _)
FixLegs(x, axes, idx) ==  \* axes[i]: Python leg number at site i
  LET RECURSIVE F(_, _, _)
      F(t, sh, i) ==
        IF i > Len(sh) THEN [t |-> t, sh |-> sh]
        ELSE LET ax == AxisOf(sh, i, axes[i])
                 leg == PyAx(axes[i], Len(sh[i]))
                 Q(k) == k # leg
             IN F(Index(t, ax, idx[i]), [sh EXCEPT ![i] = Sel(sh[i], Q)], i + 1)
      r == F(x.t, x.sh, 1)
  IN Obj(r.sh, r.t)
(* row-major list of all multi-indices below dims *)
RECURSIVE MultiIdx(_)
MultiIdx(dims) ==
  IF dims = <<>> THEN << <<>> >>
  ELSE LET rest == MultiIdx(Tail(dims)) M == Len(rest)
       IN [k \in 1..(Head(dims) * M) |-> <<(k - 1) \div M>> \o rest[((k - 1) % M) + 1]]
AxisIterO(x, axes) ==
  LET dims == [i \in 1..Sites(x) |-> x.sh[i][PyAx(axes[i], NLegs(x, i))]]
      ix == MultiIdx(dims)
  IN [k \in 1..Len(ix) |-> FixLegs(x, axes, ix[k])]
DiagO(x, axis) ==
  [k \in 1..x.sh[1][PyAx(axis, NLegs(x, 1))] |->
     FixLegs(x, Rep(axis, Sites(x)), Rep(k - 1, Sites(x)))]

(* ---- dot on all sites; axes ax/ay: sequences of Python leg numbers ---- *)
DotO(x, ax, y, ay) ==
  LET n == Sites(x)
      xa(i) == [k \in 1..Len(ax) |-> PyAx(ax[k], NLegs(x, i))]
      ya(i) == [k \in 1..Len(ay) |-> PyAx(ay[k], NLegs(y, i))]
      ca == Concat([i \in 1..n |-> [k \in 1..Len(ax) |-> LegOff(x.sh, i) + xa(i)[k]]])
      cb == Concat([i \in 1..n |-> [k \in 1..Len(ay) |-> LegOff(y.sh, i) + ya(i)[k]]])
      shx == DropLegs(x.sh, [i \in 1..n |-> xa(i)])
      shy == DropLegs(y.sh, [i \in 1..n |-> ya(i)])
      raw == Contract(x.t, ca, y.t, cb)
      nx == Len(Concat(shx))
      p == Concat([i \in 1..n |-> SiteAxes(shx, i)
                     \o [k \in 1..Len(shy[i]) |-> nx + LegOff(shy, i) + k]])
  IN Obj([i \in 1..n |-> shx[i] \o shy[i]], Perm(raw, p))
LocalOuterO(x, y) == DotO(x, <<>>, y, <<>>)
(* sites [b+1 .. b+Len] of the longer object are multiplied by the shorter *)
PartialDotO(x, y, start, ax, ay) ==
  LET longx == Sites(x) >= Sites(y)
      L == IF longx THEN x ELSE y
      S == IF longx THEN y ELSE x
      n == Sites(L)
      in(i) == i > start /\ i <= start + Sites(S)
      la == IF longx THEN ax ELSE ay
      sa == IF longx THEN ay ELSE ax
      lax(i) == IF in(i) THEN [k \in 1..Len(la) |-> PyAx(la[k], NLegs(L, i))] ELSE <<>>
      sax(j) == [k \in 1..Len(sa) |-> PyAx(sa[k], NLegs(S, j))]
      ca == Concat([i \in 1..n |-> [k \in 1..Len(lax(i)) |-> LegOff(L.sh, i) + lax(i)[k]]])
      cb == Concat([j \in 1..Sites(S) |-> [k \in 1..Len(sa) |-> LegOff(S.sh, j) + sax(j)[k]]])
      shl == DropLegs(L.sh, [i \in 1..n |-> lax(i)])
      shs == DropLegs(S.sh, [j \in 1..Sites(S) |-> sax(j)])
      raw == Contract(L.t, ca, S.t, cb)
      nl == Len(Concat(shl))
      lg(i) == SiteAxes(shl, i)
      sg(i) == IF in(i) THEN [k \in 1..Len(shs[i - start]) |->
                                nl + LegOff(shs, i - start) + k] ELSE <<>>
      nsh == [i \in 1..n |-> IF ~in(i) THEN shl[i]
                             ELSE IF longx THEN shl[i] \o shs[i - start]
                                  ELSE shs[i - start] \o shl[i]]
      p == Concat([i \in 1..n |-> IF longx THEN lg(i) \o sg(i) ELSE sg(i) \o lg(i)])
  IN Obj(nsh, Perm(raw, p))

ChainO(x, y) == Obj(x.sh \o y.sh, Outer(x.t, y.t))
RECURSIVE ChainAll(_)
ChainAll(xs) == IF Len(xs) = 1 THEN xs[1] ELSE ChainO(xs[1], ChainAll(Tail(xs)))

(* contract every site without legs; a scalar remains as one legless site *)
PruneSh(sh) == LET Q(i) == sh[i] # <<>> IN LET s == Sel(sh, Q) IN IF s = <<>> THEN << <<>> >> ELSE s
PruneO(x, singletons) ==
  LET sh1 == IF singletons THEN [i \in 1..Sites(x) |-> IF Prod(x.sh[i]) = 1 THEN <<>> ELSE x.sh[i]]
             ELSE x.sh
      nsh == PruneSh(sh1)
  IN Obj(nsh, Reshape(x.t, Concat(nsh)))
(* axes[i] = <<>> (leave) or <<a, b>> *)
PTraceO(x, axes) ==
  LET RECURSIVE F(_, _, _)
      F(t, sh, i) ==
        IF i > Len(sh) THEN [t |-> t, sh |-> sh]
        ELSE IF axes[i] = <<>> THEN F(t, sh, i + 1)
        ELSE LET l1 == PyAx(axes[i][1], Len(sh[i]))
                 l2 == PyAx(axes[i][2], Len(sh[i]))
                 Q(k) == k # l1 /\ k # l2
             IN F(TracePair(t, LegOff(sh, i) + l1, LegOff(sh, i) + l2),
                  [sh EXCEPT ![i] = Sel(sh[i], Q)], i + 1)
      r == F(x.t, x.sh, 1)
      nsh == PruneSh(r.sh)
  IN Obj(nsh, Reshape(r.t, Concat(nsh)))

(* insert dense tensors ins (sequence) before site number pos (0-based) *)
InsertO(x, pos, ins) ==
  LET k == Len(ins)
      n == Sites(x)
      RECURSIVE Out(_)
      Out(j) == IF j > k THEN ScalarT(1, 0) ELSE Outer(ins[j], Out(j + 1))
      raw == Outer(x.t, Out(1))
      ish == [j \in 1..k |-> ins[j].s]
      nx == Ndim(x.t)
      left == Ascending(1, LegOff(x.sh, pos + 1))
      midl == Ascending(nx + 1, nx + Len(Concat(ish)))
      right == Ascending(LegOff(x.sh, pos + 1) + 1, nx)
  IN Obj(SubSeq(x.sh, 1, pos) \o ish \o SubSeq(x.sh, pos + 1, n),
         Perm(raw, left \o midl \o right))
(* several positions, ascending, all relative to x *)
InsertMany(x, poss, inss) ==
  LET RECURSIVE F(_, _)
      F(y, j) == IF j = 0 THEN y ELSE F(InsertO(y, poss[j], inss[j]), j - 1)
  IN F(x, Len(poss))
InjectIns(x, pos, num, tens) ==   \* num >= 0 copies; tens = <<>>: identity
  LET d == IF pos = Sites(x) THEN x.sh[pos][1] ELSE x.sh[pos + 1][1]
      ten == IF tens = <<>> THEN Eye(d) ELSE tens[1]
  IN Rep(ten, num)
EmbedO(length, start, x, emb) ==
  LET e == IF emb = <<>> THEN Eye(x.sh[1][1]) ELSE emb[1]
  IN InsertMany(x, <<0, Sites(x)>>, <<Rep(e, start), Rep(e, length - start - Sites(x))>>)
RECURSIVE AddAll(_)
AddAll(xs) == IF Len(xs) = 1 THEN xs[1] ELSE AddO(xs[1], AddAll(Tail(xs)))

FullRank(sh) == [i \in 1..(Len(sh) - 1) |->
                  Min2(Prod(Concat(SubSeq(sh, 1, i))), Prod(Concat(SubSeq(sh, i + 1, Len(sh)))))]

(* global form: legs grouped by leg number; all sites have p legs *)
GlobalPerm(n, p) == Concat([j \in 1..p |-> [i \in 1..n |-> (i - 1) * p + j]])
ToGlobal(x) == IF x.sh[1] = <<>> THEN x.t ELSE Perm(x.t, GlobalPerm(Sites(x), NLegs(x, 1)))
FromGlobal(t, n) == LET p == Ndim(t) \div n
                    IN Perm(t, Concat([i \in 1..n |-> [j \in 1..p |-> (j - 1) * n + i]]))

(* canonicalization targets, documented: None / 'afull' / integers *)
TgtL(a, n) == CASE a.k = "none" -> 0 [] a.k = "afull" -> n - 1
                [] a.k = "int" -> IF a.v < 0 THEN a.v + n ELSE a.v
TgtR(a, n) == CASE a.k = "none" -> n [] a.k = "afull" -> 1
                [] a.k = "int" -> IF a.v < 0 THEN a.v + n ELSE a.v

InnerO(x, y) == Inner(x.t, y.t)
(* ---- states: MPS (one leg), PMPS (system, ancilla), MPO (row, column) - *)
AddAnc(x) == Obj([i \in 1..Sites(x) |-> <<x.sh[i][1], 1>>], Reshape(x.t, Concat([i \in 1..Sites(x) |-> <<x.sh[i][1], 1>>])))
DropAnc(x) == Obj([i \in 1..Sites(x) |-> <<x.sh[i][1]>>], Reshape(x.t, [i \in 1..Sites(x) |-> x.sh[i][1]]))
Rho(x) == DotO(x, <<-1>>, ConjO(Transp(x)), <<0>>)       \* density matrix of a PMPS
(* reduced operator on sites start+1..stop of an MPO *)
RedO(x, start, stop) ==
  PTraceO(x, [i \in 1..Sites(x) |-> IF i <= start \/ i > stop THEN <<0, 1>> ELSE <<>>])
(* reduced state on a set of sites; sites traced out in between stay as 1 x 1 *)
RedSet(x, S) ==
  LET lo == CHOOSE m \in S : \A k \in S : m <= k
      hi == CHOOSE m \in S : \A k \in S : m >= k
      y == PTraceO(x, [i \in 1..Sites(x) |-> IF i - 1 \in S THEN <<>> ELSE <<0, 1>>])
      nsh == [i \in 1..(hi - lo + 1) |-> IF lo + i - 1 \in S THEN x.sh[lo + i] ELSE <<1, 1>>]
  IN Obj(nsh, Reshape(y.t, Concat(nsh)))
DropOnes(x) == LET Q(k) == x.t.s[k] > 1 IN Reshape(x.t, Sel(x.t.s, Q))

(* ---- measurements: legs (outcome, row, column) ------------------------ *)
(* probabilities tr(M_k rho), one leg per site *)
PmfO(pv, rho) == DotO(pv, <<1, 2>>, rho, <<1, 0>>)
StRho(x, mode) == CASE mode = "mps" -> Rho(AddAnc(x)) [] mode = "pmps" -> Rho(x) [] mode = "mpdo" -> x
EyeOut(d) == LET e == Eye(d) IN Reshape(e, <<1, d, d>>)
PovmEmbed(x, n, start, dims) ==
  InsertMany(x, <<0, Sites(x)>>,
    << [i \in 1..start |-> EyeOut(dims[i])],
       [i \in 1..(n - start - Sites(x)) |-> EyeOut(dims[start + Sites(x) + i])] >>)
(* entries of the identity on several sites, legs (row, column) per site *)
PTraceEye(dd) == ChainAll([i \in 1..Len(dd) |-> Obj(<< <<dd[i], dd[i]>> >>, Eye(dd[i]))]).t.re
(* first k sites of a POVM that factorizes there (elements sum to identity) *)
PovmPart(x, k) ==
  LET n == Sites(x)
      outs == [j \in 1..(n - k) |-> LegOff(x.sh, k + j) + 1]
      sh1 == [i \in 1..n |-> IF i <= k THEN x.sh[i] ELSE SubSeq(x.sh[i], 2, 3)]
      y == PTraceO(Obj(sh1, SumAxes(x.t, outs)), [i \in 1..n |-> IF i <= k THEN <<>> ELSE <<0, 1>>])
  IN DivO(y, Prod([i \in 1..(n - k) |-> x.sh[k + i][2]]), 0)
PovmRepeat(x, n) ==
  LET r == n \div Sites(x) k == n % Sites(x)
  IN ChainAll(Rep(x, r) \o (IF k = 0 THEN <<>> ELSE <<PovmPart(x, k)>>))

(* vector/matrix product of all sites with (row, column) legs *)
MatVec(m, v) == DotO(m, <<-1>>, v, <<0>>)

=============================================================================
