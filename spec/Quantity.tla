------------------------------ MODULE Quantity ------------------------------
(* One quantity field of an ingredient (a fraction or the absolute one).    *)
(* A value is an interval in thousandths of its unit; a unit has a          *)
(* dimension and, if dimensionless, a scale (per million).                  *)
EXTENDS Validation

CONSTANT Absolute     \* TRUE: absolute quantity; FALSE: a fraction

Unit == [one |-> [dim |-> "none", ppm |-> 1000000], pct |-> [dim |-> "none", ppm |-> 10000],
         gkg |-> [dim |-> "none", ppm |-> 1000], kg |-> [dim |-> "mass", ppm |-> 0],
         L |-> [dim |-> "length3", ppm |-> 0], mol |-> [dim |-> "amount", ppm |-> 0],
         rad |-> [dim |-> "angle", ppm |-> 0], cnt |-> [dim |-> "count", ppm |-> 0]]

V(lo, hi, u) == [lo |-> lo, hi |-> hi, u |-> u]
\* lo and hi in thousandths of the unit
Vals == { V(n, n, "one") : n \in {-1, 0, 1, 500, 1000, 1001, 2000} }
        \cup { V(0, 1000, "one"), V(500, 1500, "one"), V(-500, 500, "one"), V(250, 750, "one"),
               V(1500, 2500, "one"), V(-3, -2, "one") }
        \cup { V(n, n, "pct") : n \in {-1000, 0, 50000, 100000, 101000} }
        \cup { V(0, 100000, "pct"), V(99000, 101000, "pct") }
        \cup { V(n, n, "gkg") : n \in {1000, 1000000, 1001000, -2000} }
        \cup { V(n, n, u) : n \in {-1000, 0, 500, 1000, 2500}, u \in {"kg", "L", "mol", "rad", "cnt"} }
        \cup { V(0, 1000, "kg"), V(-1000, 1000, "kg"), V(1000, 9000, "L"), V(-2000, -1000, "mol") }

Dimless(v) == Unit[v.u].dim = "none"
\* lo/1000 * ppm/10^6 in [0, 1]
InUnit(v) == v.lo >= 0 /\ (v.hi * (Unit[v.u].ppm \div 1000)) <= 1000000
Sensible(v) == IF Absolute THEN v.lo >= 0 /\ ~Dimless(v) ELSE Dimless(v) /\ InUnit(v)

VARIABLE st     \* [lvl, cur]  cur = a value, or <<>> for nothing
Nothing == V(0, 0, "nothing")
Junk    == V(0, 0, "junk")

Put(s, v) == IF v = Junk THEN [out |-> "rejected", st |-> s]
             ELSE IF v = Nothing THEN [out |-> "ok", st |-> [s EXCEPT !.cur = v]]
             ELSE LET o == Verdict(s.lvl, Sensible(v))
                  IN  [out |-> o, st |-> IF Accepted(o) THEN [s EXCEPT !.cur = v] ELSE s]
Step(s, op) == IF op.op = "level" THEN [out |-> "ok", st |-> [s EXCEPT !.lvl = op.l]]
               ELSE Put(s, op.v)
Ops == {[op |-> "level", l |-> l] : l \in Level}
       \cup {[op |-> o, v |-> v] : o \in {"assign", "construct"}, v \in Vals \cup {Nothing, Junk}}

Init == st = [lvl |-> Warning, cur |-> Nothing]
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
Spec == Init /\ [][Next]_st
InvRejected == \A op \in Ops : Step(st, op).out = "rejected" => Step(st, op).st = st
InvFatal == \A v \in Vals : LET r == Step([st EXCEPT !.lvl = Fatal], [op |-> "assign", v |-> v])
                            IN (r.out = "ok") <=> Sensible(v)
=============================================================================
