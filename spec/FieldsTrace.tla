---------------------------- MODULE FieldsTrace ----------------------------
(* Judges heaps recorded from the implementation: every field well typed.   *)
EXTENDS Fields, Json, IOUtils
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == IllTyped(Log[l].h)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> {x[2] : x \in bad}]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
