---------------------------- MODULE CanonicalForm ----------------------------
(***************************************************************************)
(* Histories of interface calls on the bookkeeping of CFCore.tla.          *)
(* Every action is an interface call; EMIT makes TLC print every explored  *)
(* transition (path to the source state + call), and the harness replays   *)
(* all of them on the real code.                                           *)
(***************************************************************************)
EXTENDS CFCore, TLC, Json

CONSTANTS Emit

VARIABLES hist
vars == <<form, hist>>

Log(c) == /\ hist' = Append(hist, c)
          /\ (Emit => PrintT("@@" \o ToJson([path |-> hist', n |-> N, l |-> l', r |-> r'])))

Init == CoreInit /\ hist = <<>>

Update(i, k, neg) ==
  CUpdate(i, k) /\ Log([op |-> "update", i |-> IF neg THEN i - 1 - N ELSE i - 1, k |-> k])

(* sites i..j, one kind for all of them or a pair *)
UpdateSlice(i, j, ks, single) ==
  LET kk == [m \in i..j |-> ks[m - i + 1]]
      F[m \in (i - 1)..j] == IF m = i - 1 THEN <<l, r>> ELSE Claim(F[m - 1], m, kk[m])
  IN CSlice(i, j, kk, F) /\ Log([op |-> "slice", i |-> i - 1, j |-> j, ks |-> ks, single |-> single])
Slices == \/ \E i \in sites : \E j \in i..N : \E k \in Kinds :
                UpdateSlice(i, j, [m \in 1..(j - i + 1) |-> k], TRUE)
          \/ \E i \in 1..(N - 1) : \E a, b \in Kinds : UpdateSlice(i, i + 1, <<a, b>>, FALSE)

Mul == CMul /\ Log([op |-> "mul"])
IMul == CMul /\ Log([op |-> "imul"])
Canonicalize(a, b) == CCanonicalize(a, b) /\ Log([op |-> "canonicalize", a |-> a, b |-> b])
Norm == CNorm /\ Log([op |-> "norm"])
Compress(d) == CCompress(d) /\ Log([op |-> "compress", d |-> d])

(* operations on legs keep the form (and return a new object)              *)
Keep(o) == CKeep /\ Log([op |-> o])
KeepOps == {"copy", "conj", "T", "reshape"}
(* transposing/reshaping the legs of an opened object would move the opened
   legs; the model applies only leg-wise trivial operations there          *)
Forget(o) == CForget /\ Log([op |-> o])
Open(k) == COpen(k) /\ Log([op |-> "vleg2leg", i |-> k - 1])
Close == CClose /\ Log([op |-> "leg2vleg", i |-> open - 1])

Next == \/ \E i \in sites, k \in Kinds, neg \in BOOLEAN : Update(i, k, neg)
        \/ Slices
        \/ Mul \/ IMul \/ Norm
        \/ \E a \in 0..(N - 1), b \in 1..N : Canonicalize(a, b)
        \/ \E d \in {"left", "right"} : Compress(d)
        \/ \E o \in (IF open = 0 THEN KeepOps ELSE {"copy", "conj"}) : Keep(o)
        \/ open = 0 /\ Forget("adj")
        \/ \E k \in sites : Open(k)
        \/ Close

(* a canonicalised object can be evaluated at a single site               *)
NormWellDefined == (hist # <<>> /\ hist[Len(hist)].op \in {"norm"}) => (r = 1 \/ l = N - 1)

View == <<l, r, L, R, open>>
ViewSmall == <<l, r, open>>
=============================================================================
