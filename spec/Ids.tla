-------------------------------- MODULE Ids --------------------------------
(* Ids of an object and links by id.  An object holds at most one id per    *)
(* scope, scopes being compared without regard to case; Ids(o) is the       *)
(* sequence of <<scope, id>> in the order they were given.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Scope == {"s", "S", "t", "T"}
Id    == {"1", "2"}
Fold(x) == CASE x \in {"s", "S"} -> "s" [] x \in {"t", "T"} -> "t" [] OTHER -> x
None  == "none"

One   == {<<>>} \cup {<< <<x, i>> >> : x \in Scope, i \in Id}
Two   == {<< <<x, i>>, <<y, j>> >> : x, y \in Scope, i, j \in Id}
Uids  == One \cup {q \in Two : Fold(q[1][1]) # Fold(q[2][1])}
Has(u, s)  == \E k \in DOMAIN u : Fold(u[k][1]) = Fold(s)
Get(u, s)  == (CHOOSE k \in DOMAIN u : Fold(u[k][1]) = Fold(s))
Folded(u)  == {<<Fold(u[k][1]), u[k][2]>> : k \in DOMAIN u}

\* ---------------------------------------------------------- single object
\* links: the <<folded scope, id>> the operation may answer with ({}: refused)
ToLink(u, s, fallback) ==
    IF s = None THEN Folded(u)
    ELSE IF Has(u, s) THEN {<<Fold(s), u[Get(u, s)][2]>>}
    ELSE IF fallback THEN Folded(u) ELSE {}
\* as above, but an object without ids is given one, under this scope
Entity(u, s) == LET w == IF s = None THEN "auto" ELSE s
                IN  IF Has(u, w) THEN {<<Fold(w), u[Get(u, w)][2]>>} ELSE Folded(u)
Equals(u, s, i) == Has(u, s) /\ u[Get(u, s)][2] = i
\* adding an id: the same scope in another case is refused, in the same case replaced
Clash(u, s) == Has(u, s) /\ u[Get(u, s)][1] # s
Add(u, s, i) == IF Clash(u, s) THEN u
                ELSE IF Has(u, s) THEN [u EXCEPT ![Get(u, s)] = <<s, i>>]
                ELSE Append(u, <<s, i>>)

Row(u, op, s, i, fb, out, links, post) ==
    [u |-> u, op |-> op, s |-> s, i |-> i, fb |-> fb, out |-> out, links |-> links, post |-> post]
Ask == Scope \cup {"x"}
Rows ==
    {Row(u, "to_link", s, "", fb, IF ToLink(u, s, fb) = {} THEN "rejected" ELSE "ok", ToLink(u, s, fb), u) :
        u \in Uids, s \in Ask \cup {None}, fb \in BOOLEAN}
    \cup {Row(u, "from_entity", s, "", FALSE, IF u = <<>> THEN "fresh" ELSE "ok", Entity(u, s), u) :
        u \in Uids, s \in Ask \cup {None}}
    \cup {Row(u, "equals", s, i, FALSE, IF Equals(u, s, i) THEN "yes" ELSE "no", {}, u) :
        u \in Uids, s \in Ask, i \in Id \cup {"3"}}
    \cup {Row(u, "add", s, i, FALSE, IF Clash(u, s) THEN "rejected" ELSE "ok", {}, Add(u, s, i)) :
        u \in Uids, s \in Ask, i \in Id}
    \cup {Row(u, "get", s, "", FALSE, IF Has(u, s) THEN u[Get(u, s)][2] ELSE None, {}, u) : u \in Uids, s \in Ask}
    \cup {Row(u, "assign", "", "", FALSE,
              IF Cardinality({Fold(u[k][1]) : k \in DOMAIN u}) < Len(u) THEN "rejected" ELSE "ok", {}, u) :
        u \in {q \in Two : q[1][1] # q[2][1]}}

\* ---------------------------------------------------------- two objects
\* Object 1 and object 2 have no id in common; the link is resolved to the one that has it.
Pairs == {<<u, v>> \in Uids \X Uids : Folded(u) \cap Folded(v) = {} /\ u # <<>>}
Resolve(u, v, s, i) == IF Equals(u, s, i) THEN 1 ELSE IF Equals(v, s, i) THEN 2 ELSE 0
Resolutions == {[u |-> p[1], v |-> p[2], s |-> s, i |-> i, to |-> Resolve(p[1], p[2], s, i)] :
                  p \in Pairs, s \in Scope, i \in Id}

\* ---------------------------------------------------------- what the tables guarantee
ASSUME \A u \in Uids : Cardinality({Fold(u[k][1]) : k \in DOMAIN u}) = Len(u)
ASSUME \A r \in Rows : /\ r.links \subseteq Folded(r.u)
                       /\ r.out = "rejected" => (r.post = r.u /\ r.links = {})
                       /\ r.op # "assign" => \A j, k \in DOMAIN r.post : j # k => Fold(r.post[j][1]) # Fold(r.post[k][1])
\* a link made for an object equals it, whatever the spelling of its scope
ASSUME \A r \in Rows : \A k \in r.links : \A s \in Scope : Fold(s) = k[1] => Equals(r.u, s, k[2])
ASSUME LET q == SetToSeq(Rows) IN ndJsonSerialize(IOEnv.OUT, q)
ASSUME LET q == SetToSeq(Resolutions) IN ndJsonSerialize(IOEnv.OUT2, q)
=============================================================================
