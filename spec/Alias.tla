-------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* Ownership of memory.  Objects refer to buffers; operations that derive  *)
(* a new object may share buffers with their operands ("view") or not.     *)
(* Operations that modify an object in place must rebind it to new buffers *)
(* and never write into a buffer, because other objects may refer to it.   *)
(* (WriteThrough = TRUE is the faulty design; TLC refutes NoInterference   *)
(* for it.)                                                                *)
(*                                                                         *)
(* want[i] is the value object i must have: the one it was given when it   *)
(* was created, changed only by operations on object i itself.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxSteps, MaxObjs, Emit, WriteThrough

Derives == {"copy", "neg", "mul", "conj", "T", "adj", "transpose", "reshape", "ravel", "prune_reshape",
            "group_sites", "split_sites", "vleg2leg", "vleg2leg_leg2vleg", "split_l", "split_r", "reverse", "get",
            "axis_iter", "diag", "add", "sub", "iadd", "sumup", "sumup1", "special_sumup", "chain", "chain1",
            "inject", "inject_id", "embed_slice", "embed_same", "local_sum", "local_sum1", "pad_ranks", "pad_same",
            "dot", "partialdot", "localouter", "partialtrace", "partialtrace_none", "prune", "sum_part", "sum_nothing",
            "compression_svd", "compression_var_big", "dumpload"}
InPlaces == {"imul", "idiv", "canon_left", "canon_right", "canon_mid", "canon_none", "norm", "compress_l",
             "compress_r", "compress_var", "compress_nocanon", "svals", "svals_partial", "setlt", "setlt_neg", "setslice",
             "write_lt", "poke_array", "poke_global", "poke_diag", "poke_sum", "poke_sv", "iter_then_set"}

VARIABLES objs, content, want, hist
vars == <<objs, content, want, hist>>

(* content : buffer -> value stored;  objs : sequence of buffer numbers    *)
Init == /\ objs = <<1>> /\ content = <<0>> /\ want = <<0>> /\ hist = <<>>

Log(c) == /\ hist' = Append(hist, c)
          /\ ((Emit /\ Len(hist') = MaxSteps /\ c.k = "inplace") => PrintT("@@" \o ToJson(hist')))

Derive(op, i, fresh) ==
  /\ Len(hist) < MaxSteps - 1 /\ Len(objs) < MaxObjs
  /\ IF fresh
     THEN /\ content' = Append(content, content[objs[i]])
          /\ objs' = Append(objs, Len(content'))
     ELSE /\ content' = content /\ objs' = Append(objs, objs[i])
  /\ want' = Append(want, content[objs[i]])
  /\ Log([k |-> "derive", op |-> op, i |-> i])

InPlace(op, j) ==
  /\ Len(hist) < MaxSteps
  /\ IF WriteThrough
     THEN content' = [content EXCEPT ![objs[j]] = @ + 1] /\ objs' = objs
     ELSE content' = Append(content, content[objs[j]] + 1) /\ objs' = [objs EXCEPT ![j] = Len(content')]
  /\ want' = [want EXCEPT ![j] = @ + 1]
  /\ Log([k |-> "inplace", op |-> op, i |-> j])

Next == \/ \E op \in Derives, i \in DOMAIN objs : Derive(op, i, IF Emit THEN FALSE ELSE op \in {"copy", "dumpload"})
        \/ \E op \in InPlaces, j \in DOMAIN objs : InPlace(op, j)

NoInterference == \A i \in DOMAIN objs : content[objs[i]] = want[i]
View == <<objs, content, want, Len(hist)>>
=============================================================================
