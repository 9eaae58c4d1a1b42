------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Group-wise conditional sampling of the outcomes on a chain: the sites   *)
(* are visited in groups of g; the outcomes of a group are drawn with the  *)
(* probabilities conditioned on everything drawn before, i.e. the ratio of *)
(* two marginals.  w[o] / total is the joint distribution; num / den the   *)
(* probability of the choices made so far.                                 *)
(*                                                                         *)
(* Exact: the product of the conditional probabilities is the probability  *)
(* of the prefix, so complete samples occur with the joint distribution    *)
(* for every group size, and a choice of zero weight is never offered.     *)
(* Fault # "none" are wrong designs that TLC refutes:                      *)
(*   "stale"  the marginal of the previous group is used as denominator    *)
(*   "indep"  groups are drawn from their own marginals, unconditioned     *)
(*   "short"  only complete groups are drawn                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxW, Fault, Emit
DimSeqs == {<<2>>, <<3, 2>>, <<2, 3>>, <<1, 2, 2>>, <<2, 2, 2>>}

RECURSIVE Tuples(_)
Tuples(ds) == IF ds = <<>> THEN {<<>>}
              ELSE { <<a>> \o t : a \in 0..(Head(ds) - 1), t \in Tuples(Tail(ds)) }
VARIABLES dims, w, g, pre, num, den, last
vars == <<dims, w, g, pre, num, den, last>>
n == Len(dims)
IsPre(p, o) == Len(p) <= Len(o) /\ SubSeq(o, 1, Len(p)) = p
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN w[o] + SumOf(S \ {o})
Marg(p) == SumOf({o \in DOMAIN w : IsPre(p, o)})
Total == Marg(<<>>)
RECURSIVE Lex(_, _)
Lex(o, k) == IF k = 0 THEN 0 ELSE Lex(o, k - 1) * dims[k] + o[k]
Flat == [k \in 1..Cardinality(DOMAIN w) |-> w[CHOOSE o \in DOMAIN w : Lex(o, n) = k - 1]]

Init == /\ dims \in DimSeqs
        /\ w \in [Tuples(dims) -> 0..MaxW]
        /\ w # [o \in Tuples(dims) |-> 0]
        /\ g \in 1..(Len(dims) + 1)
        /\ pre = <<>> /\ num = 1 /\ den = 1 /\ last = <<>>
        /\ (Emit => PrintT("@@" \o ToJson([dims |-> dims, w |-> Flat, g |-> g])))

Width == IF Len(pre) + g <= n THEN g ELSE n - Len(pre)
(* marginal of the outcomes x on the next sites alone *)
Own(x) == SumOf({o \in DOMAIN w : SubSeq(o, Len(pre) + 1, Len(pre) + Len(x)) = x})
Draw(x) ==
  LET cond == Fault # "indep"
      a == IF cond THEN Marg(pre \o x) ELSE Own(x)
      b == IF Fault = "stale" THEN Marg(last) ELSE IF cond THEN Marg(pre) ELSE Total
  IN /\ a > 0
     /\ num' = num * a /\ den' = den * b
     /\ pre' = pre \o x /\ last' = pre
     /\ UNCHANGED <<dims, w, g>>
Done == IF Fault = "short" THEN Len(pre) + g > n ELSE Len(pre) = n
Next == /\ ~Emit /\ ~Done
        /\ \E x \in Tuples(SubSeq(dims, Len(pre) + 1, Len(pre) + Width)) : Draw(x)

Exact == num * Total = den * Marg(pre)
Possible == Len(pre) = n => w[pre] > 0
Complete == Done => Len(pre) = n
(* the offered probabilities sum to one *)
Proper == ~Done /\ Fault = "none" =>
   LET X == Tuples(SubSeq(dims, Len(pre) + 1, Len(pre) + Width))
       RECURSIVE S(_)
       S(Y) == IF Y = {} THEN 0 ELSE LET y == CHOOSE y \in Y : TRUE IN Marg(pre \o y) + S(Y \ {y})
   IN S(X) = Marg(pre)
=============================================================================
