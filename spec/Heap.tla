------------------------------- MODULE Heap -------------------------------
(* Graphs of GEMD objects as heaps, and what the graph operations of the   *)
(* library (serialising, loading, flattening, substituting, traversing,    *)
(* comparing, instantiating) must do to them.                              *)
(*                                                                         *)
(* A heap is a sequence of nodes, one per object or template:              *)
(*   k  class                                                              *)
(*   u  ids: a sequence of <<scope, id, "folded scope|id", folded scope>>  *)
(*   f  own content: path -> atom                                          *)
(*   b  reverse references: field -> sequence of node numbers              *)
(* An atom is [t, v, r, s]: t = "ref" refers to node r; t = "link" is a    *)
(* link by id (v as written, s case-folded); otherwise <<t, v>> is the     *)
(* shape or primitive at that path.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Elems(q)   == {q[i] : i \in DOMAIN q}
Keys(n)    == {x[3] : x \in Elems(n.u)}
Uids(n)    == {<<x[1], x[2]>> : x \in Elems(n.u)}
RefsOf(m)  == {m[p].r : p \in {q \in DOMAIN m : m[q].t = "ref"}}
LinksOf(m) == {m[p].v : p \in {q \in DOMAIN m : m[q].t = "link"}}
BackOf(n)  == UNION {Elems(n.b[x]) : x \in DOMAIN n.b} \ {0}

\* ------------------------------------------------------------ reachability
RECURSIVE Close(_, _, _)
Close(F, done, todo) ==
    IF todo = {} THEN done
    ELSE LET nd == done \cup todo IN Close(F, nd, (UNION {F[i] : i \in todo}) \ nd)
\* reachable in the writable direction only / in either direction
Reach(h, S) == Close([i \in DOMAIN h |-> RefsOf(h[i].f)], {}, S)
Conn(h, S)  == Close([i \in DOMAIN h |-> RefsOf(h[i].f) \cup BackOf(h[i])], {}, S)
\* nothing refers, directly or indirectly, to itself in the writable direction
Acyclic(h)  == \A i \in DOMAIN h : i \notin Reach(h, RefsOf(h[i].f))
Deps(n)     == [refs |-> RefsOf(n.f), links |-> LinksOf(n.f)]

\* ------------------------------------------------------------ ids and content
\* node of D that has an id, for every id used in D (ids are unique)
Index(h, D) == [s \in UNION {Keys(h[i]) : i \in D} |-> CHOOSE i \in D : s \in Keys(h[i])]
UniqueIds(h, D) == \A i, j \in D : i # j => Keys(h[i]) \cap Keys(h[j]) = {}

\* Content with every reference, direct or by a link into D, named by its target;
\* phi renames the nodes that are referred to directly.
Norm(m, idx, phi) ==
    [p \in DOMAIN m |->
        CASE m[p].t = "ref"  -> <<"obj", IF m[p].r \in DOMAIN phi THEN ToString(phi[m[p].r]) ELSE "?">>
          [] m[p].t = "link" -> IF m[p].s \in DOMAIN idx THEN <<"obj", ToString(idx[m[p].s])>>
                                ELSE <<"link", m[p].v>>
          [] OTHER           -> <<m[p].t, m[p].v>>]
Self(D) == [i \in D |-> i]

\* phi: nodes of D2 to the node of D1 that has the same ids (0: none)
Match(h, idx, D2) ==
    [j \in D2 |-> LET c == {idx[s] : s \in Keys(h[j]) \cap DOMAIN idx}
                  IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE]
BackBag(n, phi) == [x \in DOMAIN n.b |->
                      [i \in {phi[y] : y \in Elems(n.b[x]) \ {0}} |->
                         Cardinality({y \in DOMAIN n.b[x] : n.b[x][y] # 0 /\ phi[n.b[x][y]] = i})]]

\* D2 (roots r2) is a faithful copy of D1 (roots r1): failing clauses
Copied(h, r1, r2) ==
    LET D1  == Conn(h, RefsOf(r1))
        D2  == Conn(h, RefsOf(r2))
        idx == Index(h, D1)
        phi == Match(h, idx, D2)
        ok  == /\ \A j \in D2 : phi[j] # 0
               /\ {phi[j] : j \in D2} = D1
               /\ Cardinality(D1) = Cardinality(D2)
    IN  IF ~ ok THEN {"one_loaded_object_per_original"}
        ELSE {c \in {"structure", "kinds", "ids", "content", "reverse", "separate"} :
               ~ CASE c = "structure" -> Norm(r1, idx, Self(D1)) = Norm(r2, idx, phi)
                   [] c = "kinds"     -> \A j \in D2 : h[j].k = h[phi[j]].k
                   [] c = "ids"       -> \A j \in D2 : Uids(h[j]) = Uids(h[phi[j]])
                   [] c = "content"   -> \A j \in D2 : Norm(h[j].f, idx, phi)
                                                     = Norm(h[phi[j]].f, idx, Self(D1))
                   [] c = "reverse"   -> \A j \in D2 : BackBag(h[j], phi)
                                                     = BackBag(h[phi[j]], Self(D1))
                   [] OTHER           -> D1 \cap D2 = {}}

\* ------------------------------------------------------------ flattened records
\* recs: a sequence of records (nodes that belong to no heap) said to be the
\* objects of D, each with links only
Flattened(h, D, recs, ordered) ==
    LET idx  == Index(h, D)
        orig == [i \in DOMAIN recs |->
                   LET c == {idx[s] : s \in Keys(recs[i]) \cap DOMAIN idx}
                   IN  IF c = {} THEN 0 ELSE CHOOSE x \in c : TRUE]
        ok   == /\ \A i \in DOMAIN recs : orig[i] # 0
                /\ {orig[i] : i \in DOMAIN recs} = D
                /\ Len(recs) = Cardinality(D)
        pos  == [x \in D |-> CHOOSE i \in DOMAIN recs : orig[i] = x]
        tgt(m) == {idx[m[p].s] : p \in {q \in DOMAIN m : m[q].t = "link" /\ m[q].s \in DOMAIN idx}}
    IN  IF ~ ok THEN {"every_object_once"}
        ELSE {c \in {"kinds", "ids", "content", "links_only", "no_reverse", "dependencies_first"} :
               ~ CASE c = "kinds"   -> \A i \in DOMAIN recs : recs[i].k = h[orig[i]].k
                   [] c = "ids"     -> \A i \in DOMAIN recs : Uids(recs[i]) = Uids(h[orig[i]])
                   [] c = "content" -> \A i \in DOMAIN recs : Norm(recs[i].f, idx, <<>>)
                                                            = Norm(h[orig[i]].f, idx, Self(D))
                   [] c = "links_only" -> \A i \in DOMAIN recs : RefsOf(recs[i].f) = {}
                   [] c = "no_reverse" -> \A i \in DOMAIN recs :
                                            \A x \in DOMAIN recs[i].b : recs[i].b[x] = <<>>
                   [] OTHER -> ordered => \A i \in DOMAIN recs : \A x \in tgt(recs[i].f) : pos[x] < i}

\* ------------------------------------------------------------ what serialising may change
Unchanged(pre, post) == \A i \in DOMAIN pre : pre[i] = post[i]
\* need: nodes that must have an id afterwards; may: nodes that may be given one
OnlyIds(pre, post, need, may, scope) ==
    LET N     == DOMAIN pre
        given == {i \in N : pre[i].u = <<>> /\ post[i].u # <<>>}
        fresh == UNION {Uids(post[i]) : i \in given}
    IN  {c \in {"content_unchanged", "ids_kept", "ids_given", "one_under_scope", "unique"} :
          ~ CASE c = "content_unchanged" -> \A i \in N : /\ pre[i].k = post[i].k
                                                         /\ pre[i].f = post[i].f
                                                         /\ pre[i].b = post[i].b
              [] c = "ids_kept"  -> \A i \in N : pre[i].u # <<>> => pre[i].u = post[i].u
              [] c = "ids_given" -> /\ \A i \in need : post[i].u # <<>>
                                    /\ given \subseteq may
              [] c = "one_under_scope" -> \A i \in given : Len(post[i].u) = 1 /\ post[i].u[1][1] = scope
              [] OTHER -> /\ Cardinality(fresh) = Cardinality(given)
                          /\ \A i \in given : \A j \in N \ {i} : Keys(post[i]) \cap Keys(post[j]) = {}}

\* ------------------------------------------------------------ two-way links
Family == [ProcessSpec |-> <<"IngredientSpec", "MaterialSpec">>, ProcessRun |-> <<"IngredientRun", "MaterialRun">>,
           MaterialRun |-> <<"MeasurementRun", "">>]
RefTo(h, kind, field, n) == {i \in DOMAIN h : /\ h[i].k = kind
                                              /\ field \in DOMAIN h[i].f
                                              /\ h[i].f[field].t = "ref" /\ h[i].f[field].r = n}
Once(q, S) == Elems(q) = S /\ Len(q) = Cardinality(S)
TwoWay(h) == \A n \in DOMAIN h :
    CASE h[n].k \in {"ProcessSpec", "ProcessRun"} ->
            /\ Once(h[n].b.ingredients, RefTo(h, Family[h[n].k][1], "process", n))
            /\ Once(h[n].b.output_material, RefTo(h, Family[h[n].k][2], "process", n))
      [] h[n].k = "MaterialRun" -> Once(h[n].b.measurements, RefTo(h, "MeasurementRun", "material", n))
      [] OTHER -> TRUE

\* ------------------------------------------------------------ substitution
\* m2 is m with every reference replaced by a link with one of the target's ids, the one
\* under the case-folded scope sc where it has that ("" for any); D: the nodes in play
LinkFor(n, sc, a) == LET c == {x[3] : x \in {y \in Elems(n.u) : y[4] = sc}}
                     IN  a.t = "link" /\ a.s \in (IF sc = "" \/ c = {} THEN Keys(n) ELSE c)
Linked(h, m, m2, idx, D, sc) ==
    {c \in {"nothing_else", "all_replaced", "right_link"} :
       ~ CASE c = "nothing_else" -> Norm(m2, idx, Self(D)) = Norm(m, idx, Self(D))
           [] c = "all_replaced" -> RefsOf(m2) = {}
           [] OTHER -> \A p \in DOMAIN m \cap DOMAIN m2 : m[p].t = "ref" => LinkFor(h[m[p].r], sc, m2[p])}

\* only node n changed (reverse references aside), or nothing if n = 0
OthersKept(pre, post, n) == \A i \in DOMAIN pre :
    /\ pre[i].u = post[i].u
    /\ i # n => pre[i].f = post[i].f
    /\ n = 0 => pre[i] = post[i]

\* m2 is m with every link that the index has (K: its keys) replaced by an object with that
\* id; phi names the nodes of the result by the objects of the index they stand for
Resolved(m, m2, idx, phi, K) ==
    {c \in {"nothing_else", "all_resolved"} :
       ~ CASE c = "nothing_else" -> Norm(m2, idx, phi) = Norm(m, idx, phi)
           [] OTHER -> \A p \in DOMAIN m2 : ~ (m2[p].t = "link" /\ m2[p].s \in K)}

\* ------------------------------------------------------------ instances of specs
RunOf == [ProcessSpec |-> "ProcessRun", MaterialSpec |-> "MaterialRun",
          IngredientSpec |-> "IngredientRun", MeasurementSpec |-> "MeasurementRun"]
Ref(n, x) == IF x \in DOMAIN n.f /\ n.f[x].t = "ref" THEN {n.f[x].r} ELSE {}
\* what a spec is made from: a material from its process, a process from its ingredients,
\* an ingredient from its material
Sources(n) == CASE n.k = "MaterialSpec"   -> Ref(n, "process")
                [] n.k = "ProcessSpec"    -> Elems(n.b.ingredients)
                [] n.k = "IngredientSpec" -> Ref(n, "material")
                [] OTHER                  -> {}
History(h, n) == Close([i \in DOMAIN h |-> Sources(h[i])], {}, {n})

\* res is the instance of spec n: failing clauses
Instance(pre, post, n, res) ==
    LET H    == History(pre, n)
        new  == DOMAIN post \ DOMAIN pre
        spec == [r \in new |-> IF Ref(post[r], "spec") = {} THEN 0 ELSE CHOOSE x \in Ref(post[r], "spec") : TRUE]
        ok   == /\ {spec[r] : r \in new} = H
                /\ Cardinality(new) = Cardinality(H)
        rho  == [x \in H |-> CHOOSE r \in new : spec[r] = x]
        img(S) == {rho[x] : x \in S \cap H}
        same(f) == \A x \in H : Ref(post[rho[x]], f) = img(Ref(pre[x], f))
    IN  (IF Unchanged(pre, post) THEN {} ELSE {"specs_unchanged"}) \cup
        IF ~ ok THEN {"one_run_per_spec"}
        ELSE {c \in {"kinds", "names", "processes", "materials", "ingredients", "output", "result"} :
               ~ CASE c = "kinds" -> \A x \in H : post[rho[x]].k = RunOf[pre[x].k]
                   [] c = "names" -> \A x \in H : post[rho[x]].f.name = pre[x].f.name
                   [] c = "processes" -> same("process")
                   [] c = "materials" -> same("material")
                   [] c = "ingredients" -> \A x \in H : pre[x].k = "ProcessSpec" =>
                                             /\ Elems(post[rho[x]].b.ingredients) = img(Elems(pre[x].b.ingredients))
                                             /\ Len(post[rho[x]].b.ingredients) = Len(pre[x].b.ingredients)
                   [] c = "output" -> \A x \in H : pre[x].k = "ProcessSpec" =>
                                        Elems(post[rho[x]].b.output_material) = img(Elems(pre[x].b.output_material))
                   [] OTHER -> res = rho[n]}
=============================================================================
