----------------------------- MODULE CopyTrace -----------------------------
(* Validates recorded histories of originals, their copies and their twins.  *)
(* A twin was built by the same steps as the original and never copied: it   *)
(* is what the copy has to behave like, whatever becomes of the original.    *)
(* Every entry of the log carries the heap h of all objects there are, and   *)
(* three parallel sequences of nodes: c originals, b copies of them, and a   *)
(* twins (objects made later on one side are appended to that side).         *)
(*   copy    the copies have just been made; ids: ids may have been given    *)
(*   wreck   an operation was applied to the originals only (side "c")       *)
(*   first   an operation was applied to one of the sides "a" and "b"        *)
(*   second  the same operation was applied to the other                     *)
(* A copy is faithful when the correspondence preserves everything, separate *)
(* when the sides have no object in common and an operation on one leaves    *)
(* the others alone, and equivalent when every operation has the same        *)
(* outcome on it as on the twin and leaves them alike.                       *)
EXTENDS Heap, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* the nodes that are not on side s
Others(e, s) == (IF s = "a" THEN {} ELSE Elems(e.a)) \cup (IF s = "b" THEN {} ELSE Elems(e.b))
                \cup (IF s = "c" THEN {} ELSE Elems(e.c))

\* the objects x and y of heap h, two parallel sequences, are separate and alike
Alike(h, x, y) ==
    IF \/ Len(x) # Len(y)
       \/ Cardinality(Elems(x)) # Len(x)
       \/ Cardinality(Elems(y)) # Len(y)
    THEN {"one_copy_per_object"}
    ELSE IF \/ ~ Conn(h, Elems(x)) \subseteq Elems(x)
            \/ ~ Conn(h, Elems(y)) \subseteq Elems(y)
            \/ Elems(x) \cap Elems(y) # {}
    THEN {"separate"}
    ELSE LET phi == [j \in Elems(y) |-> x[CHOOSE i \in DOMAIN y : y[i] = j]]
             id  == Self(Elems(x))
         IN  {c \in {"kinds", "ids", "content", "reverse"} :
               ~ \A i \in DOMAIN x : LET m == h[x[i]]
                                      n == h[y[i]] IN
                   CASE c = "kinds"   -> m.k = n.k
                     [] c = "ids"     -> Uids(m) = Uids(n)
                     [] c = "content" -> Norm(m.f, <<>>, id) = Norm(n.f, <<>>, phi)
                     [] OTHER         -> BackBag(m, id) = BackBag(n, phi)}

\* the nodes of S are as they were
Kept(pre, post, S, ids) ==
    \A i \in S \cap DOMAIN pre : /\ pre[i].k = post[i].k
                                 /\ pre[i].f = post[i].f
                                 /\ pre[i].b = post[i].b
                                 /\ pre[i].u = post[i].u \/ (ids /\ pre[i].u = <<>>)

Check(l) ==
    LET e   == Log[l]
        pre == Log[l - 1].h
        moved(s) == IF Kept(pre, e.h, Others(e, s), FALSE) THEN {} ELSE {"independent"}
    IN
    CASE e.op = "start"  -> {}
      [] e.op = "copy"   -> Alike(e.h, e.c, e.b)
                            \cup (IF Kept(pre, e.h, DOMAIN pre, e.ids) THEN {} ELSE {"original_unchanged"})
      [] e.op = "ready"  -> Alike(e.h, e.a, e.b)
      [] e.op = "second" -> moved(e.side)
                            \cup (IF e.out = Log[l - 1].out THEN Alike(e.h, e.a, e.b) ELSE {"same_outcome"})
      [] OTHER -> moved(e.side)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Check(l)
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
