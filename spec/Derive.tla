------------------------------- MODULE Derive -------------------------------
(* What a run shows of its spec.  An ingredient run shows its spec's name   *)
(* and labels, remembering the last ones; every run shows its spec's        *)
(* template.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Ingredient   \* TRUE: ingredient run (name, labels); FALSE: other runs (template)
Specs  == {"S1", "S2"}
Names  == {"p", "q"}
Labels == {"e", "x"}             \* no labels / one label
Tmpls  == {"none", "link", "T1", "T2"}
Real(t) == t \in Specs

VARIABLE st   \* [spec, nm, lb, tm, kn, kl]: kn, kl what is remembered ("-" while a spec is there)

View(s) == IF Ingredient
           THEN [name |-> IF Real(s.spec) THEN s.nm[s.spec] ELSE s.kn,
                 labels |-> IF Real(s.spec) THEN s.lb[s.spec] ELSE s.kl,
                 template |-> "none"]
           ELSE [name |-> "run", labels |-> "-",
                 template |-> IF Real(s.spec) THEN s.tm[s.spec] ELSE "none"]

SetSpec(s, t) ==
    LET v == View(s) IN
    [s EXCEPT !.spec = t, !.kn = IF Real(t) \/ ~Ingredient THEN "-" ELSE v.name,
                          !.kl = IF Real(t) \/ ~Ingredient THEN "-" ELSE v.labels]
Fresh(s, t) == [s EXCEPT !.spec = t, !.kn = IF Real(t) \/ ~Ingredient THEN "-" ELSE "none",
                                     !.kl = IF Real(t) \/ ~Ingredient THEN "-" ELSE "none"]
Ok(s)     == [out |-> "ok", st |-> s]
Refuse(s) == [out |-> "rejected", st |-> s]
Step(s, op) ==
    CASE op.op = "spec" -> IF op.t = "junk" THEN Refuse(s) ELSE Ok(SetSpec(s, op.t))
      [] op.op = "construct" -> IF op.t = "junk" THEN Refuse(s) ELSE Ok(Fresh(s, op.t))
      [] op.op = "rename"  -> Ok([s EXCEPT !.nm[op.s] = op.n])
      [] op.op = "relabel" -> Ok([s EXCEPT !.lb[op.s] = op.l])
      [] op.op = "template" -> Ok([s EXCEPT !.tm[op.s] = op.t])
      [] op.op = "reload"  -> Ok(s)
      [] op.op = "copy"    -> Ok(s)
      [] op.op = "set_on_run" -> Refuse(s)

Targets == Specs \cup {"none", "link", "junk"}
Ops == {[op |-> o, t |-> t] : o \in {"spec", "construct"}, t \in Targets}
       \cup {[op |-> o] : o \in {"reload", "copy"}}
       \cup (IF Ingredient
             THEN {[op |-> "rename", s |-> x, n |-> n] : x \in Specs, n \in Names}
                  \cup {[op |-> "relabel", s |-> x, l |-> l, via |-> v] :
                           x \in Specs, l \in Labels, v \in {"assign", "in_place"}}
                  \cup {[op |-> "set_on_run", f |-> f] : f \in {"name", "labels", "template"}}
             ELSE {[op |-> "template", s |-> x, t |-> t] : x \in Specs, t \in Tmpls}
                  \cup {[op |-> "set_on_run", f |-> "template"]})

Init == st = [spec |-> "none", nm |-> [S1 |-> "p", S2 |-> "q"], lb |-> [S1 |-> "e", S2 |-> "x"],
              tm |-> [S1 |-> "none", S2 |-> "none"],
              kn |-> IF Ingredient THEN "none" ELSE "-", kl |-> IF Ingredient THEN "none" ELSE "-"]
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> [s |-> st, v |-> View(st)], op |-> op, out |-> r.out,
                                       to |-> [s |-> r.st, v |-> View(r.st)]]))
Spec == Init /\ [][Next]_st
\* losing the spec never changes what is shown
InvKept == \A t \in {"none", "link"} : View(SetSpec(st, t)).name = View(st).name
                                       /\ View(SetSpec(st, t)).labels = View(st).labels
=============================================================================
