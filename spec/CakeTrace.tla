----------------------------- MODULE CakeTrace -----------------------------
(* The demonstration cake (gemd.demo.cake): a baked cake is an instance of   *)
(* its recipe, everything in it can be told apart by ids in the scopes that  *)
(* were set, and baking again with the same seed gives the same cake.        *)
(*   cake    h: the heap of a cake, root: the cake, run / tmpl: the scopes   *)
(*   again   h, h2: the heaps of two cakes baked alike                       *)
(*   other   key, key2: what tells the runs of two different cakes apart     *)
(*   photo   h2 is h with one file link more, on a measurement               *)
(*   kept    what was passed in before (h) and after (h2)                    *)
EXTENDS Heap, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Templates == {"PropertyTemplate", "ConditionTemplate", "ParameterTemplate",
              "ProcessTemplate", "MaterialTemplate", "MeasurementTemplate"}
Made == {"MaterialRun", "ProcessRun", "IngredientRun"}
Get(n, p) == IF p \in DOMAIN n.f THEN IF n.f[p].t = "ref" THEN n.f[p].r ELSE 0 ELSE 0
SpecOf(h, i) == Get(h[i], "spec")
IdOf(n) == n.u[1][2]
\* the entries of a list of primitives
Listed(n, p) == IF n.f[p].t = "seq" THEN [i \in 1..Cardinality({q \in DOMAIN n.f : \E x \in 1..20 : q = p \o "." \o ToString(x)})
                                            |-> n.f[p \o "." \o ToString(i)].v] ELSE <<"?">>
Basis == {"mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"}

Cake(e) ==
    LET h == e.h
        N == DOMAIN h
        runs == {i \in N : h[i].k \in Made}
        own == {i \in N : h[i].k \notin Templates}
        ingr(p) == Elems(h[p].b.ingredients)
    IN  {c \in {"two_way", "acyclic", "whole", "ids_in_scope", "ids_unique", "specified", "ids_of_runs", "mirrors",
                "one_run_per_spec", "tags", "quantities", "measured"} :
           ~ CASE c = "two_way" -> TwoWay(h)
               [] c = "acyclic" -> Acyclic(h)
               [] c = "whole"   -> Conn(h, {e.root}) = N
               [] c = "ids_in_scope" -> \A i \in N : Len(h[i].u) = 1
                                           /\ h[i].u[1][1] = (IF i \in own THEN e.run ELSE e.tmpl)
               [] c = "ids_unique" -> UniqueIds(h, N)
               [] c = "specified" -> \A i \in runs \cup {x \in N : h[x].k = "MeasurementRun"} : SpecOf(h, i) # 0
               [] c = "ids_of_runs" -> \A i \in runs : IdOf(h[i]) = IdOf(h[SpecOf(h, i)]) \o "-" \o e.key
               [] c = "mirrors" -> \A i \in runs :
                     CASE h[i].k = "MaterialRun" -> SpecOf(h, Get(h[i], "process")) = Get(h[SpecOf(h, i)], "process")
                       [] h[i].k = "ProcessRun" -> {SpecOf(h, x) : x \in ingr(i)} = ingr(SpecOf(h, i))
                       [] OTHER -> /\ SpecOf(h, Get(h[i], "process")) = Get(h[SpecOf(h, i)], "process")
                                   /\ SpecOf(h, Get(h[i], "material")) = Get(h[SpecOf(h, i)], "material")
               [] c = "one_run_per_spec" -> /\ \A i, j \in runs : i # j => SpecOf(h, i) # SpecOf(h, j)
                                            /\ {SpecOf(h, i) : i \in runs}
                                               = {i \in N : h[i].k \in {"MaterialSpec", "ProcessSpec", "IngredientSpec"}}
               [] c = "tags" -> \A i \in runs : Listed(h[i], "tags") = Listed(h[SpecOf(h, i)], "tags")
               [] c = "quantities" -> \A i \in {x \in runs : h[x].k = "IngredientRun"} : \A b \in Basis :
                                        LET s == h[SpecOf(h, i)].f[b]
                                        IN  /\ (h[i].f[b].t = "part") <=> (s.t = "part")
                                            /\ s.t = "part" => h[i].f[b \o ".units"] = h[SpecOf(h, i)].f[b \o ".units"]
               [] OTHER -> \A i \in {x \in N : h[x].k = "MeasurementRun"} :
                             IdOf(h[i]) = IdOf(h[SpecOf(h, i)]) \o "--" \o IdOf(h[SpecOf(h, Get(h[i], "material"))]) \o "-" \o e.key}

Photo(e) ==
    LET D == {i \in DOMAIN e.h : e.h[i] # e.h2[i]}
    IN  IF Len(e.h) = Len(e.h2) /\ Cardinality(D) = 1
        THEN \A i \in D : /\ e.h[i].k = "MeasurementRun"
                          /\ e.h[i].f.file_links.v = "0" /\ e.h2[i].f.file_links.v = "1"
                          /\ e.h2[i].f["file_links.1.url"].v = e.url
                          /\ \A p \in DOMAIN e.h[i].f \ {"file_links"} : e.h[i].f[p] = e.h2[i].f[p]
        ELSE FALSE

Check(e) == CASE e.op = "cake"  -> Cake(e)
              [] e.op = "again" -> IF e.h = e.h2 THEN {} ELSE {"same_seed_same_cake"}
              [] e.op = "other" -> IF e.key # e.key2 THEN {} ELSE {"told_apart"}
              [] e.op = "photo" -> IF Photo(e) THEN {} ELSE {"only_the_photo"}
              [] e.op = "kept"  -> IF e.h = e.h2 THEN {} ELSE {"recipe_unchanged"}

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Check(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
