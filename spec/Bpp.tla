--------------------------------- MODULE Bpp ---------------------------------
(***************************************************************************)
(* Families of tensors whose singular value decompositions over all cuts   *)
(* are known exactly, used to specify compression.                         *)
(*                                                                         *)
(* d = [kind, lam, perm, ph]                                               *)
(* kind "pairs": one entangled pair with coefficients lam[b] per bond b;   *)
(*   basis state x of site i carries the pair halves (a, c), encoded as    *)
(*   perm[i][x] = (a - 1) * Len(lam[i]) + c, or 0 if it is not used.       *)
(*   The normalised spectrum over cut b is proportional to lam[b].         *)
(* kind "ghz": sum_k lam[1][k] |k k ... k>; perm[i][x] = k or 0.           *)
(* ph[i][x] = 0..3: local phase i^ph.                                      *)
(***************************************************************************)
EXTENDS Tensor

CMulS(c, seq) ==      \* c = <<re, im>>, seq of <<re, im>>
  [k \in 1..Len(seq) |-> <<c[1] * seq[k][1] - c[2] * seq[k][2], c[1] * seq[k][2] + c[2] * seq[k][1]>>]
Phase(p) == CASE p = 0 -> <<1, 0>> [] p = 1 -> <<0, 1>> [] p = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
PScale(p, z) == <<Phase(p)[1] * z, Phase(p)[2] * z>>

BSites(d) == Len(d.perm)
RestLen(d, i) == Prod([j \in 1..(BSites(d) - i + 1) |-> Len(d.perm[i + j - 1])])

(* coefficients of sites i..n given the left pair half a; ks: number of    *)
(* coefficients kept on each bond                                          *)
RECURSIVE BCoef(_, _, _, _)
BCoef(d, ks, i, a) ==
  LET n == BSites(d)
      rr == IF d.kind = "ghz" THEN 1 ELSE IF i = n THEN 1 ELSE Len(d.lam[i])
      M == RestLen(d, i + 1)
      z == [k \in 1..M |-> <<0, 0>>]
      F(x) ==
        LET q == d.perm[i][x] IN
        IF q = 0 THEN z
        ELSE IF d.kind = "ghz"
        THEN IF i > 1 /\ q # a THEN z
             ELSE IF q > ks[1] THEN z
             ELSE CMulS(PScale(d.ph[i][x], IF i = 1 THEN d.lam[1][q] ELSE 1),
                        IF i = n THEN <<<<1, 0>>>> ELSE BCoef(d, ks, i + 1, q))
        ELSE LET aa == ((q - 1) \div rr) + 1
                 c == ((q - 1) % rr) + 1
             IN IF aa # a THEN z
                ELSE IF i = n THEN CMulS(PScale(d.ph[i][x], 1), <<<<1, 0>>>>)
                ELSE IF c > ks[i] THEN z
                ELSE CMulS(PScale(d.ph[i][x], d.lam[i][c]), BCoef(d, ks, i + 1, c))
      RECURSIVE G(_)
      G(x) == IF x > Len(d.perm[i]) THEN <<>> ELSE TLCEval(F(x)) \o G(x + 1)
  IN TLCEval(G(1))

BTensor(d, ks, s) ==
  LET c == TLCEval(BCoef(d, ks, 1, 1))
  IN Norml(T(s, [k \in 1..Len(c) |-> c[k][1]], [k \in 1..Len(c) |-> c[k][2]]))

NBonds(d) == BSites(d) - 1
LamOf(d, b) == IF d.kind = "ghz" THEN d.lam[1] ELSE d.lam[b]
FullKs(d) == IF d.kind = "ghz" THEN <<Len(d.lam[1])>> ELSE [b \in 1..NBonds(d) |-> Len(d.lam[b])]

(* number of singular values to keep: rank = 0 no bound;                   *)
(* rel = <<>> none, <<p, q>>: discard at most the fraction p/q of the sum  *)
RelKeep(lam, rel) ==
  LET S(k) == SumS(SubSeq(lam, 1, k))
      Q == {k \in 1..Len(lam) : S(k) * rel[2] >= S(Len(lam)) * (rel[2] - rel[1])}
  IN CHOOSE k \in Q : \A j \in Q : k <= j
Keep(lam, rank, rel) ==
  LET k1 == IF rank = 0 THEN Len(lam) ELSE Min2(rank, Len(lam))
  IN IF rel = <<>> THEN k1 ELSE Min2(k1, RelKeep(lam, rel))
KeepKs(d, rank, rel) ==
  IF BSites(d) = 1 THEN FullKs(d)          \* no bond, nothing to truncate
  ELSE IF d.kind = "ghz" THEN <<Keep(d.lam[1], rank, rel)>>
  ELSE [b \in 1..NBonds(d) |-> Keep(d.lam[b], rank, rel)]
KsAt(d, ks, b) == IF d.kind = "ghz" THEN ks[1] ELSE ks[b]

SqSum(s) == SumS([k \in 1..Len(s) |-> s[k] * s[k]])
(* squared singular values over cut b, descending *)
SvSq(d, b) ==
  IF d.kind = "ghz" THEN [k \in 1..Len(d.lam[1]) |-> d.lam[1][k] * d.lam[1][k]]
  ELSE LET w == Prod([c \in 1..NBonds(d) |-> IF c = b THEN 1 ELSE SqSum(d.lam[c])])
       IN [k \in 1..Len(d.lam[b]) |-> d.lam[b][k] * d.lam[b][k] * w]
=============================================================================
