------------------------------- MODULE CFProof -------------------------------
(***************************************************************************)
(* The bookkeeping of CFCore is sound for chains of every length and after *)
(* every history: Inv is inductive (checked by tlapm; run by hand,         *)
(* tlapm CFProof.tla, see DESIGN.md).                                      *)
(***************************************************************************)
EXTENDS CFCore, NaturalsInduction, TLAPS

ASSUME NType == N \in Nat \ {0}
ASSUME NoFault == Fault = "none"

CoreNext ==
  \/ \E i \in sites, k \in Kinds : CUpdate(i, k)
  \/ \E i \in sites : \E j \in i..N : \E ks \in [i..j -> Kinds] : \E F : CSlice(i, j, ks, F)
  \/ CMul \/ CNorm
  \/ \E a \in 0..(N - 1), b \in 1..N : CCanonicalize(a, b)
  \/ \E d \in {"left", "right"} : CCompress(d)
  \/ CKeep \/ CForget
  \/ \E k \in sites : COpen(k)
  \/ CClose

(* what Inv says of a claim c = <<a, b>> and truths A, B *)
Good(a, b, A, B) ==
  /\ a \in 0..(N - 1) /\ b \in 1..N
  /\ A \in [sites -> BOOLEAN] /\ B \in [sites -> BOOLEAN]
  /\ \A m \in sites : m <= a => A[m]
  /\ \A m \in sites : m > b => B[m]

LEMMA Initially == CoreInit => Inv
BY NType DEF CoreInit, Inv, TypeOK, InRange, Sound, sites

LEMMA OneSite ==
  ASSUME NEW a, NEW b, NEW A, NEW B, Good(a, b, A, B), NEW i \in sites, NEW k \in Kinds
  PROVE /\ Claim(<<a, b>>, i, k) = <<Claim(<<a, b>>, i, k)[1], Claim(<<a, b>>, i, k)[2]>>
        /\ Good(Claim(<<a, b>>, i, k)[1], Claim(<<a, b>>, i, k)[2],
                [A EXCEPT ![i] = (k = "left")], [B EXCEPT ![i] = (k = "right")])
<1> DEFINE c == Claim(<<a, b>>, i, k)
<1>1. CASE k = "left" /\ a >= i - 1
  <2>1. c = <<Min(N - 1, Max(i, a)), Max(i, b)>>
    BY <1>1, NoFault DEF Claim
  <2> QED BY <2>1, <1>1, NType DEF Good, sites, Min, Max
<1>2. CASE k = "right" /\ i - 1 >= b - 1
  <2>1. c = <<Min(i - 1, a), Max(1, Min(i - 1, b))>>
    BY <1>2, NoFault DEF Claim
  <2> QED BY <2>1, <1>2, NType DEF Good, sites, Min, Max
<1>3. CASE ~(k = "left" /\ a >= i - 1) /\ ~(k = "right" /\ i - 1 >= b - 1)
  <2>1. c = <<Min(i - 1, a), Max(i, b)>>
    BY <1>3 DEF Claim
  <2> QED BY <2>1, <1>3, NType DEF Good, sites, Min, Max
<1> QED BY <1>1, <1>2, <1>3

LEMMA Right ==
  ASSUME NEW a, NEW b, NEW A, NEW B, Good(a, b, A, B), NEW t \in 0..(N - 1)
  PROVE LET c == SweepRight(<<a, b, A, B>>, t)
        IN c = <<c[1], c[2], c[3], c[4]>> /\ Good(c[1], c[2], c[3], c[4])
BY NType DEF Good, SweepRight, sites, Min, Max

LEMMA Left ==
  ASSUME NEW a, NEW b, NEW A, NEW B, Good(a, b, A, B), NEW t \in 1..N
  PROVE LET c == SweepLeft(<<a, b, A, B>>, t)
        IN c = <<c[1], c[2], c[3], c[4]>> /\ Good(c[1], c[2], c[3], c[4])
BY NType, NoFault DEF Good, SweepLeft, sites, Min, Max

LEMMA InvGood == Inv => Good(l, r, L, R) /\ open \in 0..(N - 1)
BY DEF Inv, TypeOK, InRange, Sound, Good

LEMMA GoodInv == Good(l', r', L', R') /\ open' \in 0..(N - 1) => Inv'
BY DEF Inv, TypeOK, InRange, Sound, Good, sites

LEMMA Slice ==
  ASSUME Inv, NEW i \in sites, NEW j \in i..N, NEW ks \in [i..j -> Kinds], NEW F, CSlice(i, j, ks, F)
  PROVE Inv'
<1> DEFINE A(m) == [x \in sites |-> IF x >= i /\ x <= m THEN ks[x] = "left" ELSE L[x]]
           B(m) == [x \in sites |-> IF x >= i /\ x <= m THEN ks[x] = "right" ELSE R[x]]
           P(n) == i - 1 + n <= j => /\ F[i - 1 + n] = <<F[i - 1 + n][1], F[i - 1 + n][2]>>
                                     /\ Good(F[i - 1 + n][1], F[i - 1 + n][2], A(i - 1 + n), B(i - 1 + n))
<1>a. Good(l, r, L, R) /\ open \in 0..(N - 1)
  BY InvGood
<1>1. P(0)
  <2>1. A(i - 1) = L /\ B(i - 1) = R
    BY <1>a, NType DEF Good, sites
  <2>2. F[i - 1] = <<l, r>>
    BY DEF CSlice
  <2> QED BY <2>1, <2>2, <1>a, NType DEF sites
<1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
  <2> SUFFICES ASSUME i - 1 + (n + 1) <= j
      PROVE /\ F[i + n] = <<F[i + n][1], F[i + n][2]>>
            /\ Good(F[i + n][1], F[i + n][2], A(i + n), B(i + n))
    <3>1. i - 1 + (n + 1) = i + n
      BY NType DEF sites
    <3> QED BY <3>1
  <2> DEFINE m == i + n
             c == F[m - 1]
  <2>1. m \in i..j /\ m \in sites /\ m - 1 = i - 1 + n /\ i - 1 + n <= j
    BY NType DEF sites
  <2>2. c = <<c[1], c[2]>> /\ Good(c[1], c[2], A(m - 1), B(m - 1))
    BY <1>2, <2>1
  <2>3. F[m] = Claim(c, m, ks[m])
    BY <2>1 DEF CSlice
  <2>4. ks[m] \in Kinds
    BY <2>1
  <2>5. Claim(c, m, ks[m]) = Claim(<<c[1], c[2]>>, m, ks[m])
    BY <2>2
  <2>6. A(m) = [A(m - 1) EXCEPT ![m] = (ks[m] = "left")] /\ B(m) = [B(m - 1) EXCEPT ![m] = (ks[m] = "right")]
    BY <2>1, NType DEF sites
  <2> HIDE DEF A, B, c
  <2>7. /\ Claim(<<c[1], c[2]>>, m, ks[m]) = <<Claim(<<c[1], c[2]>>, m, ks[m])[1], Claim(<<c[1], c[2]>>, m, ks[m])[2]>>
        /\ Good(Claim(<<c[1], c[2]>>, m, ks[m])[1], Claim(<<c[1], c[2]>>, m, ks[m])[2],
                [A(m - 1) EXCEPT ![m] = (ks[m] = "left")], [B(m - 1) EXCEPT ![m] = (ks[m] = "right")])
    BY <2>1, <2>2, <2>4, OneSite
  <2>8. F[m] = Claim(<<c[1], c[2]>>, m, ks[m])
    BY <2>3, <2>5
  <2> QED BY <2>7, <2>8, <2>6
<1>3. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4. Good(F[j][1], F[j][2], A(j), B(j))
  <2>1. j - i + 1 \in Nat /\ i - 1 + (j - i + 1) = j
    BY NType DEF sites
  <2>2. P(j - i + 1)
    BY <2>1, <1>3
  <2> QED BY <2>1, <2>2
<1>5. l' = F[j][1] /\ r' = F[j][2] /\ L' = A(j) /\ R' = B(j) /\ open' = open
  BY DEF CSlice
<1> QED BY <1>4, <1>5, <1>a, GoodInv

THEOREM Inductive == Inv /\ CoreNext => Inv'
<1> SUFFICES ASSUME Inv, CoreNext PROVE Inv'
  OBVIOUS
<1>a. Good(l, r, L, R) /\ open \in 0..(N - 1)
  BY InvGood
<1>1. ASSUME NEW i \in sites, NEW k \in Kinds, CUpdate(i, k) PROVE Inv'
  BY <1>1, <1>a, OneSite, GoodInv DEF CUpdate
<1>2. ASSUME CMul PROVE Inv'
  BY <1>2, <1>a, GoodInv, NType DEF CMul, Good, Max, sites
<1>3. ASSUME NEW a \in 0..(N - 1), NEW b \in 1..N, CCanonicalize(a, b) PROVE Inv'
  <2> DEFINE c == SweepRight(Now, a)
             d == SweepLeft(c, b)
  <2>1. c = <<c[1], c[2], c[3], c[4]>> /\ Good(c[1], c[2], c[3], c[4])
    BY <1>a, Right DEF Now
  <2>2. d = SweepLeft(<<c[1], c[2], c[3], c[4]>>, b)
    BY <2>1
  <2> HIDE DEF c
  <2>3. Good(d[1], d[2], d[3], d[4])
    BY <2>1, <2>2, Left
  <2>4. l' = d[1] /\ r' = d[2] /\ L' = d[3] /\ R' = d[4] /\ open' = open
    BY <1>3 DEF CCanonicalize, Becomes, c
  <2> QED BY <2>3, <2>4, <1>a, GoodInv
<1>4. ASSUME CNorm PROVE Inv'
  <2>1. CASE l < N - r
    <3> DEFINE d == SweepLeft(Now, 1)
    <3>1. Good(d[1], d[2], d[3], d[4])
      BY <1>a, Left, NType DEF Now
    <3>2. l' = d[1] /\ r' = d[2] /\ L' = d[3] /\ R' = d[4] /\ open' = open
      BY <1>4, <2>1 DEF CNorm, Becomes
    <3> QED BY <3>1, <3>2, <1>a, GoodInv
  <2>2. CASE ~(l < N - r)
    <3> DEFINE d == SweepRight(Now, N - 1)
    <3>1. Good(d[1], d[2], d[3], d[4])
      BY <1>a, Right, NType DEF Now
    <3>2. l' = d[1] /\ r' = d[2] /\ L' = d[3] /\ R' = d[4] /\ open' = open
      BY <1>4, <2>2 DEF CNorm, Becomes
    <3> QED BY <3>1, <3>2, <1>a, GoodInv
  <2> QED BY <2>1, <2>2
<1>5. ASSUME NEW q \in {"left", "right"}, CCompress(q) PROVE Inv'
  <2>0. 1 \in 1..N /\ N - 1 \in 0..(N - 1)
    BY NType
  <2>1. CASE q = "right"
    <3> DEFINE c == SweepLeft(Now, 1)
               d == SweepRight(c, N - 1)
    <3>1. c = <<c[1], c[2], c[3], c[4]>> /\ Good(c[1], c[2], c[3], c[4])
      BY <1>a, <2>0, Left DEF Now
    <3>2. d = SweepRight(<<c[1], c[2], c[3], c[4]>>, N - 1)
      BY <3>1
    <3> HIDE DEF c
    <3>3. Good(d[1], d[2], d[3], d[4])
      BY <3>1, <3>2, <2>0, Right
    <3>4. l' = d[1] /\ r' = d[2] /\ L' = d[3] /\ R' = d[4] /\ open' = open
      BY <1>5, <2>1 DEF CCompress, Becomes, c
    <3> QED BY <3>3, <3>4, <1>a, GoodInv
  <2>2. CASE q = "left"
    <3> DEFINE c == SweepRight(Now, N - 1)
               d == SweepLeft(c, 1)
    <3>1. c = <<c[1], c[2], c[3], c[4]>> /\ Good(c[1], c[2], c[3], c[4])
      BY <1>a, <2>0, Right DEF Now
    <3>2. d = SweepLeft(<<c[1], c[2], c[3], c[4]>>, 1)
      BY <3>1
    <3> HIDE DEF c
    <3>3. Good(d[1], d[2], d[3], d[4])
      BY <3>1, <3>2, <2>0, Left
    <3>4. l' = d[1] /\ r' = d[2] /\ L' = d[3] /\ R' = d[4] /\ open' = open
      BY <1>5, <2>2 DEF CCompress, Becomes, c
    <3> QED BY <3>3, <3>4, <1>a, GoodInv
  <2> QED BY <2>1, <2>2
<1>6. ASSUME CKeep PROVE Inv'
  BY <1>6, <1>a, GoodInv DEF CKeep, form
<1>7. ASSUME CForget PROVE Inv'
  BY <1>7, <1>a, GoodInv, NType DEF CForget, Good, sites
<1>8. ASSUME NEW k \in sites, COpen(k) PROVE Inv'
  BY <1>8, <1>a, GoodInv, NType DEF COpen, Good, Min, Max, sites
<1>9. ASSUME CClose PROVE Inv'
  BY <1>9, <1>a, GoodInv, NType, NoFault DEF CClose, Good, Min, Max, sites
<1>10. ASSUME NEW i \in sites, NEW j \in i..N, NEW ks \in [i..j -> Kinds], NEW F, CSlice(i, j, ks, F) PROVE Inv'
  BY <1>10, Slice
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10 DEF CoreNext

THEOREM Always == CoreInit /\ [][CoreNext]_form => []Inv
<1>1. Inv /\ UNCHANGED form => Inv'
  BY DEF Inv, TypeOK, InRange, Sound, form, sites
<1> QED BY Initially, Inductive, <1>1, PTL
=============================================================================
