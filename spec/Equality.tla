----------------------------- MODULE Equality -----------------------------
(* When two objects of a heap are equal: the greatest relation under which *)
(* related objects have the same kind, the same ids and the same content,  *)
(* lists matched element by element in any order, objects matched by the   *)
(* relation itself.  Being a greatest fixed point it is defined for cyclic *)
(* and shared graphs alike.                                                *)
(*                                                                         *)
(* A node has k, u as in Heap, and c: field -> [rev, items] where items is *)
(* a sequence of maps path -> atom (one map for a field that is no list)   *)
(* and rev marks a reverse-link list.                                      *)
EXTENDS Heap

\* a link stands for the object that has its id
AtomEq(h, E, a, b) ==
    CASE a.t = "ref" /\ b.t = "ref"   -> <<a.r, b.r>> \in E
      [] a.t = "ref" /\ b.t = "link"  -> b.s \in Keys(h[a.r])
      [] a.t = "link" /\ b.t = "ref"  -> a.s \in Keys(h[b.r])
      [] OTHER                        -> a.t = b.t /\ a.v = b.v
ItemEq(h, E, m1, m2) == /\ DOMAIN m1 = DOMAIN m2
                        /\ \A p \in DOMAIN m1 : AtomEq(h, E, m1[p], m2[p])
\* some one-to-one matching of q1[i..] with the elements `free' of q2
RECURSIVE Matches(_, _, _, _, _, _)
Matches(h, E, q1, q2, i, free) ==
    IF i > Len(q1) THEN TRUE
    ELSE \E j \in free : ItemEq(h, E, q1[i], q2[j]) /\ Matches(h, E, q1, q2, i + 1, free \ {j})
FieldEq(h, E, a, b, x) ==
    LET p == a.c[x].items q == b.c[x].items
    IN  IF Len(p) # Len(q) THEN a.c[x].rev /\ a.u # <<>> /\ (p = <<>> \/ q = <<>>)
        ELSE Matches(h, E, p, q, 1, DOMAIN q)
NodeEq(h, E, a, b) == \A x \in DOMAIN a.c : FieldEq(h, E, a, b, x)
Static(h) == {e \in (DOMAIN h) \X (DOMAIN h) :
                /\ h[e[1]].k = h[e[2]].k
                /\ Uids(h[e[1]]) = Uids(h[e[2]])
                /\ DOMAIN h[e[1]].c = DOMAIN h[e[2]].c}
RECURSIVE Shrink(_, _)
Shrink(h, E) == LET F == {e \in E : NodeEq(h, E, h[e[1]], h[e[2]])}
                IN  IF F = E THEN E ELSE Shrink(h, F)
Equal(h) == Shrink(h, Static(h))

\* the relation is reflexive and symmetric on every heap
WellBehaved(h) == LET E == Equal(h)
                  IN  /\ \A i \in DOMAIN h : <<i, i>> \in E
                      /\ \A e \in E : <<e[2], e[1]>> \in E
=============================================================================
