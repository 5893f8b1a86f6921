------------------------------ MODULE Fields ------------------------------
(* The typed fields of every class: which kinds of argument each accepts,   *)
(* by every way of supplying it, and what is stored.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Runs      == {"ProcessRun", "MaterialRun", "IngredientRun", "MeasurementRun"}
Specs     == {"ProcessSpec", "MaterialSpec", "IngredientSpec", "MeasurementSpec"}
AttrTpls  == {"PropertyTemplate", "ConditionTemplate", "ParameterTemplate"}
ObjTpls   == {"ProcessTemplate", "MaterialTemplate", "MeasurementTemplate"}
Cont      == {"NominalReal", "UniformReal", "NormalReal"}
Values    == Cont \cup {"NominalInteger", "UniformInteger", "NominalCategorical", "DiscreteCategorical",
                        "NominalComposition", "EmpiricalFormula", "Smiles", "InChI"}
BoundsK   == {"RealBounds", "IntegerBounds", "CategoricalBounds", "CompositionBounds", "MolecularStructureBounds"}
Attrs     == {"Property", "Condition", "Parameter"}
Plain     == {"str", "int", "float", "bool", "class", "object", "lookalike"}
Link      == "LinkByUID"
Pairs     == {"pair_none", "pair_bounds", "pair_link", "pair_link_none", "pair_out", "pair_second",
              "pair_wrong", "pair_wrong_none", "pair_swapped", "triple"}
Items     == Runs \cup Specs \cup AttrTpls \cup ObjTpls \cup Values \cup BoundsK \cup Attrs \cup Plain
             \cup {"PropertyAndConditions", "FileLink", "PerformedSource", Link, "none"}
Kinds     == Items \cup {"empty_list", "empty_tuple"}

\* ------------------------------------------------------------ field types
One(S)    == [card |-> "one", kinds |-> S, none |-> TRUE]
Must(S)   == [card |-> "one", kinds |-> S, none |-> FALSE]
Many(S)   == [card |-> "many", kinds |-> S, none |-> TRUE]
Entries(t) == [card |-> "entries", kinds |-> {t, Link}, none |-> TRUE]
Common    == [tags |-> Many({"str"})]
Obj       == Common @@ [file_links |-> Many({"FileLink"})]
Named     == Obj @@ [name |-> Must({"str"})]
Qty       == [mass_fraction |-> One(Cont), volume_fraction |-> One(Cont), number_fraction |-> One(Cont),
              absolute_quantity |-> One(Cont)]
CP        == [conditions |-> Many({"Condition"}), parameters |-> Many({"Parameter"})]
Attribute(t) == [value |-> One(Values), template |-> One({t, Link}), file_links |-> Many({"FileLink"})]
Type == [
  ProcessRun      |-> Named @@ CP @@ [spec |-> One({"ProcessSpec", Link}), source |-> One({"PerformedSource"})],
  ProcessSpec     |-> Named @@ CP @@ [template |-> One({"ProcessTemplate", Link})],
  MaterialRun     |-> Named @@ [spec |-> One({"MaterialSpec", Link}), process |-> One({"ProcessRun", Link})],
  MaterialSpec    |-> Named @@ [template |-> One({"MaterialTemplate", Link}), process |-> One({"ProcessSpec", Link}),
                                properties |-> Many({"PropertyAndConditions"})],
  IngredientRun   |-> Obj @@ Qty @@ [spec |-> One({"IngredientSpec", Link}), material |-> One({"MaterialRun", Link}),
                                     process |-> One({"ProcessRun", Link})],
  IngredientSpec  |-> Named @@ Qty @@ [material |-> One({"MaterialSpec", Link}), process |-> One({"ProcessSpec", Link}),
                                       labels |-> Many({"str"})],
  MeasurementRun  |-> Named @@ CP @@ [spec |-> One({"MeasurementSpec", Link}), material |-> One({"MaterialRun", Link}),
                                      source |-> One({"PerformedSource"}), properties |-> Many({"Property"})],
  MeasurementSpec |-> Named @@ CP @@ [template |-> One({"MeasurementTemplate", Link})],
  PropertyTemplate  |-> Common @@ [bounds |-> Must(BoundsK)],
  ConditionTemplate |-> Common @@ [bounds |-> Must(BoundsK)],
  ParameterTemplate |-> Common @@ [bounds |-> Must(BoundsK)],
  ProcessTemplate   |-> Common @@ [conditions |-> Entries("ConditionTemplate"), parameters |-> Entries("ParameterTemplate"),
                                   allowed_names |-> Many({"str"}), allowed_labels |-> Many({"str"})],
  MaterialTemplate  |-> Common @@ [properties |-> Entries("PropertyTemplate")],
  MeasurementTemplate |-> Common @@ [properties |-> Entries("PropertyTemplate"), conditions |-> Entries("ConditionTemplate"),
                                     parameters |-> Entries("ParameterTemplate")],
  Property  |-> Attribute("PropertyTemplate"),
  Condition |-> Attribute("ConditionTemplate"),
  Parameter |-> Attribute("ParameterTemplate"),
  PropertyAndConditions |-> [property |-> Must({"Property"}), conditions |-> Many({"Condition"})],
  PerformedSource |-> [performed_by |-> One({"str"}), performed_date |-> One({"str"})]]

\* ------------------------------------------------------------ ways of supplying an argument
\* x: the argument of the kind in question; g, h: proper items; a, b: what the list already has
Singles == {"set", "new", "set_listed", "new_listed"}
After == [set |-> <<"x">>, new |-> <<"x">>, set_bare |-> <<"x">>, new_bare |-> <<"x">>,
          set_list |-> <<"x">>, new_list |-> <<"x">>, set_tuple |-> <<"g", "x">>, new_tuple |-> <<"x", "g">>,
          set_iter |-> <<"g", "x", "h">>, new_iter |-> <<"x", "g", "h">>,
          append |-> <<"a", "b", "x">>, extend |-> <<"a", "b", "x">>, extend_iter |-> <<"a", "b", "g", "x">>,
          iadd |-> <<"a", "b", "x", "g">>, insert |-> <<"x", "a", "b">>, insert_mid |-> <<"a", "x", "b">>,
          setitem |-> <<"x", "b">>, setitem_last |-> <<"a", "x">>, slice |-> <<"x", "g", "b">>,
          slice_iter |-> <<"a", "x", "g">>]
Bare  == {"set_bare", "new_bare"}
Lists == DOMAIN After \ {"set", "new"}

IsList(k) == k \in {"empty_list", "empty_tuple"}
\* an entry of a template as given, for a list of entries of that template kind
EntryOk(ft, k) == k \in ft.kinds \cup {"pair_none", "pair_bounds", "pair_link", "pair_link_none"}
ItemOk(ft, k) == IF ft.card = "entries" THEN EntryOk(ft, k) ELSE k \in ft.kinds

\* accept, refuse, or (open) nothing is promised
Outcome(ft, k, route) ==
    CASE route \in {"set", "new"} -> IF k \in ft.kinds \/ (k = "none" /\ ft.none) THEN "accept" ELSE "refuse"
      [] route \in {"set_listed", "new_listed"} -> "refuse"
      [] route \in Bare /\ (k = "none" \/ IsList(k)) -> "empty"
      [] route \in Bare /\ k \in {"pair_none", "pair_link_none", "pair_wrong_none", "pair_swapped", "pair_second"} -> "open"
      \* <<template, bounds>> as a whole may be one entry
      [] route = "set_tuple" /\ ft.card = "entries" /\ k \in BoundsK -> "open"
      [] OTHER -> IF ItemOk(ft, k) THEN "accept" ELSE "refuse"
Stored(out, route) ==
    CASE out = "accept" -> After[route]
      [] out = "empty"  -> <<>>
      [] OTHER -> <<"a", "b">>

KindsFor(ft) == IF ft.card = "entries" THEN Kinds \cup Pairs ELSE Kinds
Routes(ft)   == IF ft.card = "one" THEN Singles ELSE Lists
\* one row for each class, field and kind: the outcome by every route
RowsOf(c, f) == LET ft == Type[c][f] IN
    {[class |-> c, field |-> f, card |-> ft.card, kind |-> k,
      outs |-> [r \in Routes(ft) |-> Outcome(ft, k, r)]] : k \in KindsFor(ft)}
StoredBy == [r \in Lists |-> [o \in {"accept", "empty", "refuse"} |-> IF r \in DOMAIN After THEN Stored(o, r) ELSE <<>>]]

\* ------------------------------------------------------------ what holds of every heap
\* kind of the atom of a content at a path
AtomKind(h, a) == CASE a.t = "ref"  -> h[a.r].k
                    [] a.t = "link" -> Link
                    [] a.t = "part" -> a.v
                    [] a.t = "prim" /\ a.v = "none" -> "none"
                    [] a.t = "prim" -> "str"
                    [] OTHER -> a.t
Size(a) == CHOOSE k \in 0 .. 200 : ToString(k) = a.v
\* paths of content m below prefix p conform to the type of class c: set of bad paths
RECURSIVE Bad(_, _, _, _)
Bad(h, m, c, p) ==
    UNION {LET ft == Type[c][f] q == p \o f
               one(x) == LET k == AtomKind(h, m[x]) IN
                   (IF k \in ft.kinds THEN {} ELSE {x})
                   \cup IF m[x].t = "part" /\ k \in DOMAIN Type THEN Bad(h, m, k, x \o ".") ELSE {}
           IN  IF q \notin DOMAIN m THEN {q}
               ELSE CASE ft.card = "one" ->
                           IF AtomKind(h, m[q]) = "none" THEN (IF ft.none THEN {} ELSE {q}) ELSE one(q)
                      [] ft.card = "many" ->
                           IF m[q].t # "seq" THEN {q}
                           ELSE UNION {one(q \o "." \o ToString(i)) : i \in 1 .. Size(m[q])}
                      [] OTHER ->
                           IF m[q].t # "seq" THEN {q}
                           ELSE UNION {LET e == q \o "." \o ToString(i) IN
                                  IF m[e].t # "seq" \/ m[e].v # "2" THEN {e}
                                  ELSE one(e \o ".1") \cup
                                       (IF AtomKind(h, m[e \o ".2"]) \in BoundsK \cup {"none"} THEN {} ELSE {e \o ".2"})
                                  : i \in 1 .. Size(m[q])}
           : f \in DOMAIN Type[c]}
IllTyped(h) == UNION {{<<n, p>> : p \in Bad(h, h[n].f, h[n].k, "")} : n \in DOMAIN h}
=============================================================================
