------------------------------ MODULE SpecLaws ------------------------------
(***************************************************************************)
(* Laws the reference semantics (Tensor, MPA) must itself obey, checked by *)
(* TLC: a mistake in an operator that the conformance checks compare the   *)
(* implementation with would otherwise go unnoticed or raise false alarms. *)
(* All laws are polynomial identities of degree at most four in the        *)
(* entries, so a few pseudo-random integer values per shape decide them.   *)
(***************************************************************************)
EXTENDS MPA, FiniteSets
CONSTANTS Seeds, MaxSites, Dims, Faulty

VARIABLES ds, seed      \* dimensions of the sites, seed of the entries
Init == /\ seed \in 1..Seeds
        /\ \E n \in 1..MaxSites : ds \in [1..n -> Dims]
Next == UNCHANGED <<ds, seed>>

(* entries in -3..3 *)
Ent(k, j, s) == (((k * 37 + j * 101 + s * 59 + ((k * k * (s + 3)) % 89)) % 7) - 3)
Rand(sh, j) == LET N == Prod(Concat(sh))
               IN Obj(sh, T(Concat(sh), TLCEval([k \in 1..N |-> Ent(k, j, seed)]),
                            IF seed % 2 = 0 THEN <<>> ELSE TLCEval([k \in 1..N |-> Ent(k, j + 7, seed)])))
n == Len(ds)
one == [i \in 1..n |-> <<ds[i]>>]
two == [i \in 1..n |-> <<ds[i], ds[i]>>]
rect == [i \in 1..n |-> <<ds[i], 3 - (ds[i] % 2)>>]
tri == [i \in 1..n |-> <<ds[i], 2, 1 + (i % 2)>>]
x == Rand(two, 1)
y == Rand(two, 2)
z == Rand(two, 3)
v == Rand(one, 4)
r == Rand(rect, 5)
t == Rand(tri, 6)
Eq(a, b) == a.sh = b.sh /\ SameVal(a.t, b.t)
Dot(a, b) == DotO(a, <<-1>>, b, <<0>>)
Adj(a) == IF Faulty THEN Transp(a) ELSE ConjO(Transp(a))     \* faulty: to be refuted
I2 == Obj(two, ChainAll([i \in 1..n |-> Obj(<< <<ds[i], ds[i]>> >>, Eye(ds[i]))]).t)
TrAll(a) == PTraceO(a, Rep(<<0, 1>>, Sites(a))).t
TMul(A, B) == Contract(A, <<>>, B, <<>>)
SSum(a) == SumO(a, [k |-> "none", v |-> 0]).t

Arithmetic ==
  /\ Eq(AddO(x, y), AddO(y, x))
  /\ Eq(AddO(AddO(x, y), z), AddO(x, AddO(y, z)))
  /\ IsZero(SubO(x, x).t)
  /\ Eq(ScaleO(ScaleO(x, 2, 1), 1, -3), ScaleO(x, 5, -5))
  /\ Eq(DivO(ScaleO(x, 2, 1), 2, 1), x)
  /\ Eq(ScaleO(AddO(x, y), 2, -1), AddO(ScaleO(x, 2, -1), ScaleO(y, 2, -1)))
  /\ Eq(SumW(<<x, y, z>>, << <<1, 0>>, <<2, 0>>, <<0, 1>> >>), AddO(x, AddO(ScaleO(y, 2, 0), ScaleO(z, 0, 1))))

Involutions ==
  /\ Eq(Transp(Transp(t)), t)
  /\ Eq(ConjO(ConjO(t)), t)
  /\ Eq(ReverseO(ReverseO(t)), t)
  /\ Eq(TransposeAx(TransposeAx(t, <<1, 2, 0>>), <<2, 0, 1>>), t)
  /\ Eq(TransposeAx(t, <<2, 1, 0>>), Transp(t))
  /\ Eq(Transp(ReverseO(t)), ReverseO(Transp(t)))
  /\ SameVal(FromGlobal(ToGlobal(t), n), t.t)
  /\ Eq(GroupO(SplitSitesO(x, 2), 2), x)
  /\ Eq(GroupO(x, n), Obj(<<Concat(x.sh)>>, x.t))
  /\ Eq(ReshapeO(ReshapeO(t, [k |-> "one", v |-> <<-1>>]), [k |-> "per", v |-> t.sh]), t)
  /\ (n > 1 => Eq(ChainO(Obj(<<t.sh[1]>>, Rand(<<t.sh[1]>>, 1).t), Rand(Tail(t.sh), 2)),
                  ReverseO(ChainO(ReverseO(Rand(Tail(t.sh), 2)), Obj(<<t.sh[1]>>, Rand(<<t.sh[1]>>, 1).t)))))

Products ==
  /\ Eq(Dot(Dot(x, y), z), Dot(x, Dot(y, z)))
  /\ Eq(Dot(x, AddO(y, z)), AddO(Dot(x, y), Dot(x, z)))
  /\ Eq(Dot(I2, r), r) /\ Eq(Dot(x, I2), x)
  /\ Eq(Adj(Dot(x, r)), Dot(Adj(r), Adj(x)))
  /\ Eq(ConjO(Dot(x, y)), Dot(ConjO(x), ConjO(y)))
  /\ Eq(ReverseO(Dot(x, y)), Dot(ReverseO(x), ReverseO(y)))
  /\ Eq(DotO(x, <<0, 1>>, y, <<1, 0>>), Obj(Rep(<<>>, n), TrAll(Dot(x, y))))
  /\ Eq(PartialDotO(x, y, 0, <<-1>>, <<0>>), Dot(x, y))
  /\ Eq(LocalOuterO(v, ConjO(v)), Dot(AddAnc(v), Adj(AddAnc(v))))
  /\ SameVal(TrAll(Dot(x, y)), TrAll(Dot(y, x)))
  /\ SameVal(InnerO(x, y), TrAll(Dot(Adj(x), y)))
  /\ SameVal(InnerO(x, y), Conj(InnerO(y, x)))
  /\ SameVal(InnerO(v, Dot(x, v)), InnerO(Dot(Adj(x), v), v))
  /\ InnerO(x, x).re = <<Norm2(x.t)>>

Legs ==
  /\ SameVal(SSum(t), Conj(SSum(ConjO(t))))
  /\ SameVal(SSum(SumO(t, [k |-> "ints", v |-> <<0, -1>>])), SSum(t))
  /\ Eq(SumO(SumO(t, [k |-> "int", v |-> 2]), [k |-> "int", v |-> 0]), SumO(t, [k |-> "ints", v |-> <<0, 2>>]))
  (* summing the slices along a leg is summing over that leg *)
  /\ Eq(AddAll(AxisIterO(t, Rep(1, n))), SumO(t, [k |-> "int", v |-> 1]))
  /\ AxisIterO(t, Rep(0, n))[1] = FixLegs(t, Rep(0, n), Rep(0, n))
  /\ \A k \in 1..2 : DiagO(t, 1)[k] = FixLegs(t, Rep(1, n), Rep(k - 1, n))
  (* trace = sum of the diagonal elements *)
  /\ SameVal(TrAll(x), Inner(I2.t, x.t))
  /\ Eq(PTraceO(x, Rep(<<-2, -1>>, n)), PTraceO(x, Rep(<<1, 0>>, n)))

Chains ==
  /\ Eq(ChainO(ChainO(v, x), t), ChainO(v, ChainO(x, t)))
  /\ SameVal(TrAll(ChainO(x, y)), TMul(TrAll(x), TrAll(y)))
  /\ Eq(Dot(ChainO(x, y), ChainO(y, z)), ChainO(Dot(x, y), Dot(y, z)))
  /\ Eq(InsertO(v, 0, <<Eye(2)>>), ChainO(Obj(<< <<2, 2>> >>, Eye(2)), v))
  /\ Eq(InsertO(v, n, <<Eye(2)>>), ChainO(v, Obj(<< <<2, 2>> >>, Eye(2))))
  /\ Eq(EmbedO(n + 2, 1, x, <<Eye(2)>>),
        ChainAll(<<Obj(<< <<2, 2>> >>, Eye(2)), x, Obj(<< <<2, 2>> >>, Eye(2))>>))
  /\ Eq(PTraceO(EmbedO(n + 2, 1, x, <<Eye(2)>>), << <<0, 1>> >> \o Rep(<<>>, n) \o << <<0, 1>> >>), ScaleO(x, 4, 0))
  /\ Eq(PruneO(SumO(t, [k |-> "none", v |-> 0]), FALSE), Obj(<< <<>> >>, SSum(t)))

States ==
  LET rho == Rho(r)
  IN /\ Eq(Adj(rho), rho)
     /\ TrAll(rho).re = <<Norm2(r.t)>>
     /\ \A a \in 0..(n - 1), b \in 1..n : a < b =>
          /\ SameVal(TrAll(RedO(rho, a, b)), TrAll(rho))
          /\ Eq(RedSet(rho, a..(b - 1)), RedO(rho, a, b))
          /\ \A c \in a..(b - 1) : Eq(RedO(RedO(rho, a, b), c - a, c + 1 - a), RedO(rho, c, c + 1))
     (* a complete measurement in the computational basis *)
     /\ LET ob(d) == T(<<d, d, d>>, [k \in 1..(d * d * d) |-> IF (k - 1) % (d * d + d + 1) = 0 THEN 1 ELSE 0], <<>>)
            pv == ChainAll([i \in 1..n |-> Obj(<< <<ds[i], ds[i], ds[i]>> >>, ob(ds[i]))])
            p == PmfO(pv, rho)
        IN /\ SameVal(SSum(p), TrAll(rho))
           /\ \A k \in DOMAIN p.t.re : p.t.re[k] >= 0
           /\ IsReal(Norml(p.t))
           (* restricting first and measuring then = marginal probabilities *)
           /\ n > 1 => Eq(PmfO(Obj(<<pv.sh[1]>>, ob(ds[1])), RedO(rho, 0, 1)),
                          PruneO(SumO(p, [k |-> "per", v |-> [i \in 1..n |-> [k |-> "ints", v |-> IF i = 1 THEN <<>> ELSE <<0>>]]]), FALSE))
           /\ Eq(PovmRepeat(pv, 2 * n), ChainO(pv, pv))
           /\ Eq(PovmPart(pv, 1), Obj(<<pv.sh[1]>>, ob(ds[1])))
RanksOK == LET f == FullRank(two)
           IN /\ Len(f) = n - 1
              /\ \A k \in 1..(n - 1) : f[k] >= 1 /\ (k > 1 => f[k] <= f[k - 1] * Prod(two[k]))
=============================================================================
