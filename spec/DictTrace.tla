----------------------------- MODULE DictTrace -----------------------------
(* Judges recorded events: node n of heap h was written as a dictionary with *)
(* everything it refers to inside it, and an object was built from that      *)
(* dictionary alone; it is node 1 of heap h2.  The new object is a tree that *)
(* has at every path what the original has there; what it refers to knows it *)
(* (two-way links hold) but nothing that the original does not refer to.     *)
EXTENDS Heap, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* node i of h and node j of g have the same content, all the way down: failing clauses
RECURSIVE Same(_, _, _, _)
Same(h, i, g, j) ==
    LET m == h[i]
        n == g[j]
        refs == {p \in DOMAIN m.f : m.f[p].t = "ref"}
    IN  (IF m.k = n.k THEN {} ELSE {"kind"})
        \cup (IF Uids(m) = Uids(n) THEN {} ELSE {"ids"})
        \cup (IF /\ DOMAIN m.f = DOMAIN n.f
                 /\ \A p \in DOMAIN m.f : m.f[p] = n.f[p] \/ (m.f[p].t = "ref" /\ n.f[p].t = "ref")
              THEN UNION {Same(h, m.f[p].r, g, n.f[p].r) : p \in refs} ELSE {"content"})

Check(e) == Same(e.h, e.n, e.h2, 1)
            \cup (IF TwoWay(e.h2) THEN {} ELSE {"two_way"})
            \cup (IF Reach(e.h2, {1}) = DOMAIN e.h2 THEN {} ELSE {"nothing_else"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Check(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
