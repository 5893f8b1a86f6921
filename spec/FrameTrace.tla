----------------------------- MODULE FrameTrace -----------------------------
(* Validates a recorded history of changes to a graph of objects: what each  *)
(* operation may change.  Entry l of the log is the heap after operation l   *)
(* (an entry with op = "start" begins a history).                            *)
(*   n      the object operated on (0: a new one, or a part of objects)      *)
(*   field  the field that is assigned or whose list is changed              *)
(*   paths  <<node, path>> of all content that belongs to that field, and    *)
(*          of content that is shown from elsewhere (names and labels of     *)
(*          ingredient runs come from their specs)                           *)
(*   args   are the containers passed as arguments as they were              *)
(*   want   <<field, content>> of plain fields that n has been given         *)
EXTENDS Heap, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TwoWayField(k, f) == \/ f = "process" /\ k \in {"IngredientRun", "IngredientSpec", "MaterialRun", "MaterialSpec"}
                     \/ f = "material" /\ k = "MeasurementRun"
TargetOf(n, f) == IF f \in DOMAIN n.f /\ n.f[f].t = "ref" THEN {n.f[f].r} ELSE {}
Content(n) == {<<p, n.f[p]>> : p \in DOMAIN n.f}
\* paths whose content differs
Diff(a, b) == {x[1] : x \in (Content(a) \ Content(b)) \cup (Content(b) \ Content(a))}

\* nodes whose reverse references may change, and materials that may lose their process
Joined(pre, post, S, fields) == UNION {UNION {
      (IF i \in DOMAIN pre THEN TargetOf(pre[i], f) ELSE {}) \cup TargetOf(post[i], f)
    : f \in {g \in fields : TwoWayField(post[i].k, g)}} : i \in S}
Displaced(pre, post, S) == UNION {IF post[i].k \in {"MaterialRun", "MaterialSpec"}
      THEN UNION {Elems(pre[t].b.output_material) : t \in TargetOf(post[i], "process") \cap DOMAIN pre}
      ELSE {} : i \in S}

Step(pre, e) ==
    LET post == e.h
        N    == DOMAIN pre
        new  == DOMAIN post \ N
        S    == IF e.op = "construct" THEN {e.n} ELSE IF e.n > 0 THEN {e.n} ELSE {}
        fs   == IF e.op = "construct" THEN {"process", "material"} ELSE {e.field}
        joined == Joined(pre, post, S, fs)
        lost == IF "process" \in fs THEN Displaced(pre, post, S) ELSE {}
        may  == Elems(e.paths)
    IN  IF e.out = "refused"
        THEN (IF \E i \in N : post[i] # pre[i] THEN {"refused_unchanged"} ELSE {})
             \cup (IF e.args THEN {} ELSE {"arguments_unchanged"})
        ELSE {c \in {"fields", "ids", "reverse", "kinds", "as_given", "arguments_unchanged"} :
               ~ CASE c = "fields" -> \A i \in N : \A p \in Diff(pre[i], post[i]) :
                                        \/ <<i, p>> \in may
                                        \/ i \in lost /\ p = "process"
                   [] c = "ids"    -> \A i \in N : pre[i].u # post[i].u => i = e.n /\ e.field = "uids"
                   [] c = "reverse" -> \A i \in N : pre[i].b # post[i].b => i \in joined
                   [] c = "kinds"  -> \A i \in N : pre[i].k = post[i].k
                   [] c = "as_given" -> \A w \in Elems(e.want) : post[e.n].f[w[1]] = w[2]
                   [] OTHER -> e.args}

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == IF Log[l].op = "start" THEN {} ELSE Step(Log[l - 1].h, Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
