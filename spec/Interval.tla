------------------------------ MODULE Interval ------------------------------
(* A bounded interval object whose endpoints and unit can be re-assigned.   *)
(* Numbers are ranks 0..MaxRank, mapped monotonically by the harness.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxRank, Integral, HasUnits

Rank == 0..MaxRank
\* What is never an endpoint; "frac" (between ranks) is none only for integers.
Bad == {"none", "nan", "inf", "neginf", "text", "list"} \cup (IF Integral THEN {"frac"} ELSE {})
Unit == IF HasUnits THEN {"u", "v"} ELSE {"u"}
BadUnit == IF HasUnits THEN {"none", "unknown", "malformed"} ELSE {}

VARIABLE st   \* [lo, hi, u]
Well(s) == s.lo \in Rank /\ s.hi \in Rank /\ s.lo <= s.hi /\ s.u \in Unit

Try(s, new) == IF Well(new) THEN [out |-> "ok", st |-> new] ELSE [out |-> "rejected", st |-> s]
\* endpoints are tagged so that TLC compares like with like: [r |-> rank] or [bad |-> name]
IsRank(e) == "r" \in DOMAIN e
Step(s, op) ==
    CASE op.op = "lower" -> IF IsRank(op.x) THEN Try(s, [s EXCEPT !.lo = op.x.r]) ELSE [out |-> "rejected", st |-> s]
      [] op.op = "upper" -> IF IsRank(op.x) THEN Try(s, [s EXCEPT !.hi = op.x.r]) ELSE [out |-> "rejected", st |-> s]
      [] op.op = "units" -> Try(s, [s EXCEPT !.u = op.u])
      [] op.op = "construct" -> IF IsRank(op.x) /\ IsRank(op.y)
                                THEN Try(s, [lo |-> op.x.r, hi |-> op.y.r, u |-> op.u])
                                ELSE [out |-> "rejected", st |-> s]
End == {[r |-> x] : x \in Rank} \cup {[bad |-> b] : b \in Bad}
Ops == {[op |-> o, x |-> x] : o \in {"lower", "upper"}, x \in End}
       \cup (IF HasUnits THEN {[op |-> "units", u |-> u] : u \in Unit \cup BadUnit} ELSE {})
       \cup {[op |-> "construct", x |-> x, y |-> y, u |-> u] : x \in End, y \in End, u \in Unit \cup BadUnit}

Init == st = [lo |-> 0, hi |-> MaxRank, u |-> "u"]
Next == \E op \in Ops : LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
Spec == Init /\ [][Next]_st
InvWell == Well(st)
\* Widening first, any interval can be reached from any other by assignments.
InvReach == \A s \in [lo : Rank, hi : Rank, u : {st.u}] : Well(s) =>
              LET a == Step(Step(st, [op |-> "lower", x |-> [r |-> 0]]).st, [op |-> "upper", x |-> [r |-> MaxRank]]).st
                  b == Step(Step(a, [op |-> "lower", x |-> [r |-> s.lo]]).st, [op |-> "upper", x |-> [r |-> s.hi]])
              IN  b.out = "ok" /\ b.st = s
=============================================================================
