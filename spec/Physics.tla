------------------------------- MODULE Physics -------------------------------
(***************************************************************************)
(* Cyclic nearest-neighbour Hamiltonians: terms[i] acts on sites i, i+1,   *)
(* the last term on the first and the last site.  The XY model and its     *)
(* ground state energy.                                                    *)
(***************************************************************************)
EXTENDS Factory

(* operators are tensors with legs (row, column) per site *)
EyeChain(d, n) == ChainAll([i \in 1..n |-> Obj(<< <<d, d>> >>, Eye(d))])
TermObj(t, d) == Obj(<< <<d, d>>, <<d, d>> >>, t)
CycTerm(t, d, n) ==
  IF n = 2 THEN TermObj(t, d)
  ELSE LET mid == EyeChain(d, n - 2)
           o == TLCEval(Outer(t, mid.t))
           m == 2 * (n - 2)
       IN Obj(Rep(<<d, d>>, n), Perm(o, <<1, 2>> \o Ascending(5, 4 + m) \o <<3, 4>>))
CyclicH(ts, d) ==
  LET n == Len(ts)
      lin == [i \in 1..(n - 1) |-> EmbedO(n, i - 1, TermObj(ts[i], d), <<>>)]
  IN AddAll(lin \o << CycTerm(ts[n], d, n) >>)

CycBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET H == TLCEval(CyclicH(e.terms, e.d))
           n == Len(e.terms)
           D == Prod(Rep(e.d, n))
           w == Reshape(ToGlobal(H), <<D, D>>)
       IN UNION { {"sparse:" \o b : b \in IF e.sparse = [z |-> 0] THEN {} ELSE DenseBad(w, e.sparse, 1)},
                  {"mpo:" \o b : b \in IF e.mpo = [z |-> 0] THEN {} ELSE DenseBad(H.t, e.mpo, 1)},
                  IF e.kept THEN {} ELSE {"argument-changed"} }

(* 4 ((1 + g)/4 XX + (1 - g)/4 YY), g an integer; only four matrix elements *)
(* per parity: <00|..|11> and <01|..|10>                                    *)
XYTerm(g) == LET el(k) == CASE k \in {4, 13} -> (1 + g) - (1 - g)   \* |00><11|
                             [] k \in {7, 10} -> (1 + g) + (1 - g)  \* |01><10|
                             [] OTHER -> 0
             IN Perm(Reshape(T(<<4, 4>>, [k \in 1..16 |-> el(k)], <<>>), <<2, 2, 2, 2>>), <<1, 3, 2, 4>>)
XYBad(e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE UNION { IF Len(e.got) = e.n THEN {} ELSE {"number-of-results"},
               UNION { DenseBad(XYTerm(e.g), e.got[k], 1) : k \in 1..Len(e.got) } }

(* ground state energy in units of 1e-7; asymmetry p/q with |p| <= q; low:   *)
(* smallest eigenvalue of the Hamiltonian built from the local terms         *)
XYE0Bad(e) ==
  IF e.n % 4 # 2 THEN (IF e.exc = "ValueError" THEN {} ELSE {"missing-exception"})
  ELSE IF e.exc # "" THEN {"unexpected-exception"}
  ELSE LET sq == e.q * e.q + 3 * e.p * e.p r == Sqrt(sq) unit == 10000000 IN UNION {
         IF e.low # <<>> /\ Abs(e.e0 - e.low[1]) > 20 THEN {"not-lowest-eigenvalue"} ELSE {},
         IF e.n = 2 /\ Abs(e.e0 + unit) > 20 THEN {"exact-value"} ELSE {},
         IF Abs(e.p) = e.q /\ Abs(e.e0 + e.n * (unit \div 2)) > 20 THEN {"exact-value"} ELSE {},
         (* six sites: -(1 + sqrt(q^2 + 3 p^2) / q) *)
         IF e.n = 6 /\ r * r = sq /\ Abs((e.e0 + unit) * e.q + r * unit) > 20 * e.q THEN {"exact-value"} ELSE {} }
=============================================================================
