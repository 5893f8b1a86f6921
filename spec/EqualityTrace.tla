--------------------------- MODULE EqualityTrace ---------------------------
(* Judges comparisons recorded from the implementation: an event carries a  *)
(* heap and the answers a == b and b == a for some of its pairs.            *)
EXTENDS Equality, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Clauses(e) ==
    LET E == Equal(e.h)
        pair(p) == <<p[1], p[2]>>
    IN  {c \in {"symmetric", "sees_differences", "equals_copies", "model"} :
           ~ CASE c = "symmetric" -> \A i \in DOMAIN e.pairs : e.pairs[i][3] = e.pairs[i][4]
               [] c = "sees_differences" -> \A i \in DOMAIN e.pairs :
                                              e.pairs[i][3] = "yes" => pair(e.pairs[i]) \in E
               [] c = "equals_copies" -> \A i \in DOMAIN e.pairs :
                                              pair(e.pairs[i]) \in E => e.pairs[i][3] = "yes"
               [] OTHER -> WellBehaved(e.h)}

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Clauses(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
