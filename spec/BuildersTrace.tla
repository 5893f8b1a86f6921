--------------------------- MODULE BuildersTrace ---------------------------
(* Judges builder calls recorded from the implementation.                  *)
EXTENDS Builders, Json, IOUtils
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Judge(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
