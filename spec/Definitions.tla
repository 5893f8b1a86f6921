---------------------------- MODULE Definitions ----------------------------
(* Which unit definitions are in force.  Files: "default" (the library's),  *)
(* F1 (its content can be edited: version 1 or 2), F2 (imports a second     *)
(* file), and files that cannot be used.  Meaning[f][v] gives, per probe,   *)
(* the canonical name and the factor to the base length (0: not known).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Probe == {"m", "meter", "metre", "zed", "only1", "only2", "inch", "zorkmid"}
K(n, x) == [name |-> n, fac |-> x]       \* fac in units of 1/10000 base units
No == K("", 0)
Meaning == [
  default |-> <<[m |-> K("meter", 10000), meter |-> K("meter", 10000), metre |-> K("meter", 10000),
                 zed |-> No, only1 |-> No, only2 |-> No, inch |-> K("inch", 254), zorkmid |-> No]>>,
  F1 |-> <<[m |-> K("meter", 10000), meter |-> K("meter", 10000), metre |-> No,
            zed |-> K("zed", 20000), only1 |-> K("only1", 70000), only2 |-> No, inch |-> No,
            zorkmid |-> No],
           [m |-> K("meter", 10000), meter |-> K("meter", 10000), metre |-> No,
            zed |-> K("zed", 30000), only1 |-> No, only2 |-> No, inch |-> K("inch", 40000),
            zorkmid |-> No]>>,
  F2 |-> <<[m |-> K("metre", 10000), meter |-> No, metre |-> K("metre", 10000),
            zed |-> K("zed", 50000), only1 |-> No, only2 |-> K("only2", 60000), inch |-> No,
            zorkmid |-> No]>> ]
Usable == {"default", "F1", "F2"}
Unusable == {"missing", "malformed", "broken_import", "directory", "unbalanced"}

VARIABLE st   \* [cur, ver: version loaded, f1: version of F1 on disk]
Step(s, op) ==
    CASE op.op = "edit" -> [out |-> "ok", st |-> [s EXCEPT !.f1 = op.v]]
      [] op.op = "switch" ->
           IF op.to \in Unusable THEN [out |-> "rejected", st |-> s]
           ELSE [out |-> "ok", st |-> [s EXCEPT !.cur = op.to,
                                                !.ver = IF op.to = "F1" THEN s.f1 ELSE 1]]
View(s) == Meaning[s.cur][s.ver]
Ops == {[op |-> "edit", v |-> v] : v \in {1, 2}}
       \cup {[op |-> "switch", to |-> "default", via |-> "none"]}
       \cup {[op |-> "switch", to |-> f, via |-> v] : f \in (Usable \cup Unusable) \ {"default"},
                                                      v \in {"absolute", "relative", "path", "link"}}
Init == st = [cur |-> "default", ver |-> 1, f1 |-> 1]
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> [s |-> st, v |-> View(st)], op |-> op, out |-> r.out,
                                       to |-> [s |-> r.st, v |-> View(r.st)]]))
Spec == Init /\ [][Next]_st
\* what is in force depends on the last successful switch alone
InvFresh == \A a, b \in Usable :
              LET x == Step(Step(st, [op |-> "switch", to |-> a]).st, [op |-> "switch", to |-> b]).st
              IN  View(x) = View(Step(st, [op |-> "switch", to |-> b]).st)
=============================================================================
