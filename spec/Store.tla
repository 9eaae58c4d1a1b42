-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Arrays written to and read from files.  A file has a root location      *)
(* (0) and named groups; writing to a path replaces the whole file, and    *)
(* writing to a group adds that location.  What is read is what was last   *)
(* written there (value and internal form), whatever happened to the       *)
(* written object, to objects read before, or to other locations.          *)
(* Objects carry a version, changed only in place.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Files, Groups, MaxSteps, MaxObjs, Emit, Fault
(* Fault = "merge" (writing to a path keeps the old groups) is refuted *)

VARIABLES objs, file, want, hist
(* objs[i]: version;  file[f]: location -> version;                         *)
(* want: loaded objects' expected versions, from the history                *)
vars == <<objs, file, want, hist>>

Init == /\ objs = <<1>> /\ file = [f \in Files |-> << >>] /\ want = <<1>> /\ hist = <<>>

Log(c) == /\ hist' = Append(hist, c)
          /\ ((Emit /\ Len(hist') = MaxSteps /\ c.k = "load") => PrintT("@@" \o ToJson(hist')))

Change(i) == /\ objs' = [objs EXCEPT ![i] = @ + 1] /\ want' = [want EXCEPT ![i] = @ + 1]
             /\ UNCHANGED file /\ Log([k |-> "change", i |-> i, f |-> 0, g |-> 0])

(* last thing written to a location according to the history *)
RECURSIVE LastWrite(_, _, _)
LastWrite(h, f, g) ==
  IF h = <<>> THEN 0
  ELSE LET c == h[Len(h)] IN
       IF c.f = f /\ c.k = "dump" /\ c.g = g THEN c.v
       ELSE IF c.f = f /\ c.k = "dump" /\ c.g = 0 THEN 0
       ELSE LastWrite(SubSeq(h, 1, Len(h) - 1), f, g)

Dump(i, f, g) ==
  /\ g # 0 => g \notin DOMAIN file[f]
  /\ file' = [file EXCEPT ![f] = IF g = 0 /\ Fault # "merge" THEN (0 :> objs[i]) ELSE (g :> objs[i]) @@ @]
  /\ UNCHANGED <<objs, want>>
  /\ Log([k |-> "dump", i |-> i, f |-> f, g |-> g, v |-> objs[i]])

Load(f, g) ==
  /\ g \in DOMAIN file[f] /\ Len(objs) < MaxObjs
  /\ objs' = Append(objs, file[f][g])
  /\ want' = Append(want, LastWrite(hist, f, g))
  /\ UNCHANGED file
  /\ Log([k |-> "load", i |-> Len(objs) + 1, f |-> f, g |-> g])

Next == /\ Len(hist) < MaxSteps
        /\ \/ \E i \in DOMAIN objs : Change(i)
           \/ \E i \in DOMAIN objs, f \in Files, g \in Groups \cup {0} : Dump(i, f, g)
           \/ \E f \in Files, g \in Groups \cup {0} : Load(f, g)

RoundTrip == objs = want
=============================================================================
