-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: the events recorded from the real code (JSON file     *)
(* named by the environment variable TRACE) are run through the heap       *)
(* machine; the verdict (violated clauses per event) goes to file OUT.     *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

VARIABLES i, heap, bad

Events == TLCEval(JsonDeserialize(IOEnv.TRACE))

Init == i = 1 /\ heap = << >> /\ bad = <<>>

Note(e, B) == IF B = {} THEN bad
              ELSE Append(bad, [i |-> i, op |-> e.op, clauses |-> B])

Step == /\ i <= Len(Events)
        /\ LET e == Events[i] IN
             IF e.op = "reset"
             THEN heap' = << >> /\ bad' = bad
             ELSE IF e.op = "abort"
             THEN heap' = heap /\ bad' = Note(e, {"aborted"})
             ELSE IF "fam" \in DOMAIN e
             THEN heap' = heap /\ bad' = Note(e, TLCEval(FamBad(e)))
             ELSE LET j == TLCEval(Judge(e, heap))
                  IN heap' = j.heap /\ bad' = Note(e, j.bad)
        /\ i' = i + 1

Done == /\ i = Len(Events) + 1
        /\ JsonSerialize(IOEnv.OUT, [events |-> Len(Events), bad |-> bad])
        /\ i' = i + 1 /\ UNCHANGED <<heap, bad>>

Next == Step \/ Done
=============================================================================
