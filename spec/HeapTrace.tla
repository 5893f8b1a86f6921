----------------------------- MODULE HeapTrace -----------------------------
(* Judges graph operations recorded from the implementation.  Each event    *)
(* carries complete heaps around one public operation and its result.       *)
EXTENDS Heap, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* ------------------------------------------------------------ the operations
\* dump to JSON and load again: r1 what was dumped, r2 what came back.  Objects are shared as they
\* were; nothing else that came back is: e.alias lists the sets of places <<node, path>> that hold
\* one and the same part (node 0 is what came back itself)
RoundTrip(e) == Copied(e.h, e.r1, e.r2) \cup
    LET new == {0} \cup Conn(e.h, RefsOf(e.r2))
    IN  IF \E g \in Elems(e.alias) : \E p \in Elems(g) : p[1] \in new THEN {"parts_separate"} ELSE {}

\* serialise, flatten or compare: what it may do to its argument
Serialise(e) ==
    LET D == Conn(e.pre, RefsOf(e.root))
    IN  OnlyIds(e.pre, e.post,
                IF e.mode = "all" THEN D ELSE {},
                IF e.mode = "none" THEN {} ELSE D, e.scope)
\* and its text: every list of records stands for exactly the objects of the graph
Texts(e) == LET D == Conn(e.post, RefsOf(e.root))
            IN  UNION {Flattened(e.post, D, e.texts[i], FALSE) : i \in DOMAIN e.texts}

\* ids given to different objects, whoever gave them: <<scope, id>> of each, in the order given
Fresh(e) == IF Cardinality(Elems(e.given)) = Len(e.given) THEN {} ELSE {"generated_ids_unique"}

Flat(e) == LET D == Conn(e.h, RefsOf(e.root)) IN Flattened(e.h, D, e.recs, e.ordered)

\* one object n written with links in place of the objects it refers to
Thin(e) == LET D == Conn(e.h, {e.n}) idx == Index(e.h, D)
           IN  {c \in {"kind", "ids", "content", "links_only"} :
                  ~ CASE c = "kind" -> e.rec.k = e.h[e.n].k
                      [] c = "ids"  -> Uids(e.rec) = Uids(e.h[e.n])
                      [] c = "content" -> Norm(e.rec.f, idx, <<>>) = Norm(e.h[e.n].f, idx, Self(D))
                      [] OTHER -> RefsOf(e.rec.f) = {}}

\* the set of dependencies of node n
Depend(e) == {c \in {"references", "links", "asking_changes_nothing"} :
                ~ CASE c = "references" -> Elems(e.refs) = RefsOf(e.pre[e.n].f)
                    [] c = "links"      -> Elems(e.links) = LinksOf(e.pre[e.n].f)
                    [] OTHER            -> Unchanged(e.pre, e.post)}

\* traversal: visits is the sequence of nodes the function was applied to, give what it
\* returned for each, got the accumulated result
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Visit(e) ==
    LET D    == IF e.uni THEN Reach(e.h, RefsOf(e.root)) ELSE Conn(e.h, RefsOf(e.root))
        Full == UNION {{<<i, j>> : j \in DOMAIN e.give[i]} : i \in DOMAIN e.give}
    IN  {c \in {"exactly_reachable", "once", "accumulates"} :
           ~ CASE c = "exactly_reachable" -> Elems(e.visits) = D
               [] c = "once" -> Len(e.visits) = Cardinality(Elems(e.visits))
               [] OTHER -> e.acc => \A x \in Elems(e.got) \cup {e.give[p[1]][p[2]] : p \in Full} :
                             Count(e.got, x) = Cardinality({p \in Full : e.give[p[1]][p[2]] = x})}

\* links for objects.  copy form: r1 the argument, r2 the result, whose objects are not in pre;
\* in-place form: node n, or (n = 0) the container r1 that became r2
Tag(t, S) == {t \o "/" \o c : c \in S}
SubLinks(e) ==
    LET D == DOMAIN e.pre idx == Index(e.pre, D)
        m1 == IF e.n > 0 THEN e.pre[e.n].f ELSE e.r1
        m2 == IF e.inplace THEN (IF e.n > 0 THEN e.post[e.n].f ELSE e.r2) ELSE IF e.n > 0 THEN e.rec.f ELSE e.r2
    IN  Linked(e.pre, m1, m2, idx, D, e.scope)
        \cup (IF e.inplace THEN
               {c \in {"others_kept", "two_way"} :
                 ~ CASE c = "others_kept" -> OthersKept(e.pre, e.post, e.n)
                     [] OTHER -> TwoWay(e.post)}
             ELSE {c \in {"argument_untouched", "copy_ids"} :
                 ~ CASE c = "argument_untouched" -> Unchanged(e.pre, e.post)
                     [] OTHER -> e.n > 0 => Uids(e.rec) = Uids(e.pre[e.n]) /\ e.rec.k = e.pre[e.n].k})

\* the link substitution is refused exactly when some reference has no id under the only scope allowed
Refused(e) == LET m == IF e.n > 0 THEN e.pre[e.n].f ELSE e.r1
              IN  {c \in {"refused_only_if_missing", "argument_untouched"} :
                    ~ CASE c = "argument_untouched" -> Unchanged(e.pre, e.post)
                        [] OTHER -> \E i \in RefsOf(m) : \A x \in Elems(e.pre[i].u) : x[4] # e.scope}
HasScope(e) == LET m == IF e.n > 0 THEN e.pre[e.n].f ELSE e.r1
               IN  \A i \in RefsOf(m) : \E x \in Elems(e.pre[i].u) : x[4] = e.scope

\* objects for links.  K: the ids in the index; D: the indexed nodes
SubObjects(e) ==
    LET D   == Elems(e.indexed)
        idx == Index(e.pre, D)
        near == Index(e.pre, Reach(e.pre, D))
        K   == DOMAIN idx
        m1  == IF e.n > 0 THEN e.pre[e.n].f ELSE e.r1
        m2  == IF e.inplace /\ e.n > 0 THEN e.post[e.n].f ELSE e.r2
        all == Reach(e.post, RefsOf(m2))
        phi == IF e.inplace THEN Self(DOMAIN e.post)
               ELSE [i \in all |-> LET c == {near[s] : s \in Keys(e.post[i]) \cap DOMAIN near}
                                    IN  IF c = {} THEN i ELSE CHOOSE x \in c : TRUE]
        wide == Self(DOMAIN e.pre)
    IN  Tag("root", Resolved(m1, m2, idx, phi @@ wide, K))
        \cup (IF e.inplace THEN
               {c \in {"content_kept", "all_resolved", "ids_kept", "two_way"} :
                 ~ CASE c = "content_kept" -> \A i \in DOMAIN e.pre :
                                                Norm(e.pre[i].f, idx, wide) = Norm(e.post[i].f, idx, wide)
                     [] c = "all_resolved" -> \A i \in all : \A p \in DOMAIN e.post[i].f :
                                                ~ (e.post[i].f[p].t = "link" /\ e.post[i].f[p].s \in K)
                     [] c = "ids_kept" -> \A i \in DOMAIN e.pre : e.pre[i].u = e.post[i].u
                     [] OTHER -> TwoWay(e.post)}
             ELSE
               {c \in {"argument_untouched", "content_of_restored", "ids_of_restored"} :
                 ~ CASE c = "argument_untouched" -> Unchanged(e.pre, e.post)
                     [] c = "content_of_restored" -> \A i \in all :
                            Norm(e.post[i].f, idx, phi @@ wide) = Norm(e.pre[phi[i]].f, idx, phi @@ wide)
                     [] OTHER -> \A i \in all : /\ phi[i] \in DOMAIN e.pre
                                                 /\ Uids(e.post[i]) = Uids(e.pre[phi[i]])
                                                 /\ e.post[i].k = e.pre[phi[i]].k})

Clauses(e) == CASE e.op = "sublinks"   -> SubLinks(e)
                [] e.op = "sublinks_strict" -> SubLinks(e) \cup (IF HasScope(e) THEN {} ELSE {"missing_scope_accepted"})
                [] e.op = "sublinks_refused" -> Refused(e)
                [] e.op = "subobjects" -> SubObjects(e)
                [] e.op = "roundtrip" -> RoundTrip(e)
                [] e.op = "serialize" -> Serialise(e) \cup Texts(e)
                [] e.op = "fresh"     -> Fresh(e)
                [] e.op = "flatten"   -> Flat(e)
                [] e.op = "thin"      -> Thin(e)
                [] e.op = "deps"      -> Depend(e)
                [] e.op = "visit"     -> Visit(e)
                [] e.op = "instance"  -> Instance(e.pre, e.post, e.n, e.res)
                [] e.op = "unchanged" -> IF Unchanged(e.pre, e.post) THEN {} ELSE {"unchanged"}

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Clauses(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
