----------------------------- MODULE Attribute -----------------------------
(* One attribute: its value, its template, and the validation level.        *)
(* Templates "T1" (bounds admit value a, or only b after they are changed), *)
(* "T2" (admits a and b), "T3" (admits neither), "link" and "none".         *)
EXTENDS Validation

Values == {"none", "a", "b"}
Tmpls  == {"none", "link", "T1", "T2", "T3"}
Junk   == "junk"

\* The values the template's bounds admit; tb = the current bounds of T1
Admits(t, tb) == CASE t = "T1" -> {tb} [] t = "T2" -> {"a", "b"} [] t = "T3" -> {}
                   [] OTHER -> Values
Consistent(v, t, tb) == v = "none" \/ t \in {"none", "link"} \/ v \in Admits(t, tb)

VARIABLE st    \* [lvl, val, tmpl, tb]

\* The attribute would hold v and t
Try(s, v, t) ==
    IF v = Junk \/ t = Junk THEN [out |-> "rejected", st |-> s]
    ELSE LET o == Verdict(s.lvl, Consistent(v, t, s.tb))
         IN  [out |-> o, st |-> IF Accepted(o) THEN [s EXCEPT !.val = v, !.tmpl = t] ELSE s]

Step(s, op) ==
    CASE op.op = "level"  -> [out |-> "ok", st |-> [s EXCEPT !.lvl = op.l]]
      [] op.op = "bounds" -> [out |-> "ok", st |-> [s EXCEPT !.tb = op.b]]
      [] op.op = "value"  -> IF op.v = "none" THEN [out |-> "ok", st |-> [s EXCEPT !.val = "none"]]
                             ELSE Try(s, op.v, s.tmpl)
      [] op.op = "template" -> IF op.t \in {"none", "link"}
                               THEN [out |-> "ok", st |-> [s EXCEPT !.tmpl = op.t]]
                               ELSE Try(s, s.val, op.t)
      [] op.op = "construct" -> Try(s, op.v, op.t)

Ops == {[op |-> "level", l |-> l] : l \in Level}
       \cup {[op |-> "bounds", b |-> b] : b \in {"a", "b"}}
       \cup {[op |-> "value", v |-> v] : v \in Values \cup {Junk}}
       \cup {[op |-> "template", t |-> t] : t \in Tmpls \cup {Junk}}
       \cup {[op |-> "construct", v |-> v, t |-> t] : v \in Values \cup {Junk}, t \in Tmpls \cup {Junk}}

Init == st = [lvl |-> Warning, val |-> "none", tmpl |-> "none", tb |-> "a"]
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
Spec == Init /\ [][Next]_st

InvRejected == \A op \in Ops : Step(st, op).out = "rejected" => Step(st, op).st = st
\* At the fatal level nothing inconsistent can be made (only carried over).
InvFatal == \A op \in Ops : LET r == Step(st, op) IN
              (st.lvl = Fatal /\ op.op \in {"value", "template", "construct"} /\ r.out = "ok"
               /\ <<r.st.val, r.st.tmpl>> # <<st.val, st.tmpl>>)
              => Consistent(r.st.val, r.st.tmpl, r.st.tb)
\* Value first or template first: the same outcome and the same attribute
InvOrder == \A v \in Values \ {"none"}, t \in Tmpls \ {"none"} :
              LET s0 == [st EXCEPT !.val = "none", !.tmpl = "none"]
                  a  == Step(Step(s0, [op |-> "value", v |-> v]).st, [op |-> "template", t |-> t])
                  b  == Step(Step(s0, [op |-> "template", t |-> t]).st, [op |-> "value", v |-> v])
              IN  a.out = b.out /\ (Accepted(a.out) => a.st = b.st)
=============================================================================
