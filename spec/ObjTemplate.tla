---------------------------- MODULE ObjTemplate ----------------------------
(* How the template of an object governs the attributes added to it.        *)
(* Values a, b, c; bounds are the sets of values they admit.  Attribute     *)
(* templates T1 and T3 have the same name n1, T2 is n2.  A link-by-id to a  *)
(* template refers to that template.                                        *)
EXTENDS Validation, IOUtils, SequencesExt

Val == {"a", "b", "c"}
Nobody == {"-"}                       \* "no restricted bounds given"
TB == [T1 |-> {"a", "b"}, T2 |-> {"b", "c"}, T3 |-> {"c"}]     \* bounds of each template
TN == [T1 |-> "n1", T2 |-> "n2", T3 |-> "n1"]                  \* names
Real == DOMAIN TB
Refers == [T1 |-> "T1", T2 |-> "T2", T3 |-> "T3", L1 |-> "T1", L2 |-> "T2", LX |-> "X"]

Entry(r, b) == [ref |-> r, bnd |-> b]
\* a restriction of a real template must lie within the template's bounds
WellFormed(e) == e.bnd = Nobody \/ e.ref \notin Real \/ e.bnd \subseteq TB[e.ref]
Bnds == {Nobody, {}, {"a"}, {"b"}, {"c"}, {"a", "b"}, {"b", "c"}, {"a", "b", "c"}}

\* The first entry that governs the attribute, 0 if none
Governs(e, at) == IF at.tmpl = "none" THEN e.ref \in Real /\ TN[e.ref] = at.name
                  ELSE Refers[e.ref] = Refers[at.tmpl]
First(es, at) == IF \E i \in DOMAIN es : Governs(es[i], at)
                 THEN CHOOSE i \in DOMAIN es : Governs(es[i], at)
                                               /\ \A j \in 1..(i - 1) : ~Governs(es[j], at)
                 ELSE 0
Consistent(es, at) ==
    LET i == First(es, at) IN
    IF i = 0 THEN TRUE
    ELSE IF es[i].bnd # Nobody THEN at.val \in es[i].bnd
    ELSE IF es[i].ref \in Real THEN at.val \in TB[es[i].ref]
    ELSE TRUE
\* left open by the documentation: the entry is only a link, the attribute's own template is real
Open(es, at) == LET i == First(es, at) IN
    i # 0 /\ es[i].bnd = Nobody /\ es[i].ref \notin Real /\ at.tmpl \in Real
    /\ at.val \notin TB[at.tmpl]

Entries == {e \in {Entry(r, b) : r \in DOMAIN Refers \ {"LX"},
                                 b \in {Nobody, {"a"}, {"b"}, {"c"}}} : WellFormed(e)}
Empty   == {Entry(r, {}) : r \in DOMAIN Refers \ {"LX"}}      \* restricted to nothing at all
Bare    == {Entry(r, Nobody) : r \in DOMAIN Refers \ {"LX"}}
Templates == {<<>>} \cup {<<e>> : e \in Entries \cup Empty} \cup {<<e, f>> : e \in Entries, f \in Entries}
             \cup {<<e, f>> : e \in Empty, f \in Bare}
Attrs == {[tmpl |-> "none", name |-> n, val |-> v] : n \in {"n1", "n2", "zz"}, v \in Val}
         \cup {[tmpl |-> t, name |-> "zz", val |-> v] : t \in DOMAIN Refers, v \in Val}
         \cup {[tmpl |-> "T2", name |-> "n1", val |-> v] : v \in Val}

AddRows == {[kind |-> "add", es |-> es, attr |-> at, lvl |-> l, real |-> TRUE,
             out |-> Verdict(l, Consistent(es, at))] :
              es \in Templates, at \in Attrs, l \in Level}
UngovernedRows == {[kind |-> "add", es |-> <<e>>, attr |-> at, lvl |-> l, real |-> FALSE,
                    out |-> "ok"] : e \in Entries, at \in Attrs, l \in {Warning, Fatal}}
EntryRows == {[kind |-> "entry", ref |-> r, bnd |-> b, lvl |-> l,
               out |-> IF WellFormed(Entry(r, b)) THEN "ok" ELSE "rejected"] :
                r \in DOMAIN Refers, b \in Bnds, l \in Level}
Keep == {r \in AddRows : ~Open(r.es, r.attr)}
Rows == SetToSeq(Keep) \o SetToSeq(UngovernedRows) \o SetToSeq(EntryRows)

\* Sanity of the rule: an attribute that refers to a template is never governed by another one,
\* and adding entries at the end never changes the verdict once an entry governs.
ASSUME \A es \in Templates, at \in Attrs :
         LET i == First(es, at) IN i = 0 \/ Governs(es[i], at)
ASSUME \A es \in {<<e>> : e \in Entries}, f \in Entries, at \in Attrs :
         First(es, at) # 0 => Consistent(es, at) = Consistent(es \o <<f>>, at)
ASSUME ndJsonSerialize(IOEnv.OUT, Rows)
=============================================================================
