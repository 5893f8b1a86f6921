----------------------------- MODULE DictForm -----------------------------
(* Objects in dictionary form.  For every class: the fields a record must    *)
(* have, those it may leave out with what the object then has, and those     *)
(* this specification says nothing about when they are missing.  A row is a  *)
(* class and a set of fields missing from a record; it says whether an       *)
(* object can be made, and for each field whether it has the recorded        *)
(* content ("given") or which default.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Obj == [uids |-> "map", tags |-> "seq", notes |-> "none", file_links |-> "seq"]
Tpl == [uids |-> "map", tags |-> "seq", description |-> "none"]
Att == [template |-> "none", origin |-> "str:unknown", value |-> "none", notes |-> "none", file_links |-> "seq"]
Qty == [mass_fraction |-> "none", volume_fraction |-> "none", number_fraction |-> "none", absolute_quantity |-> "none"]
C   == [conditions |-> "seq"]
P   == [parameters |-> "seq"]
R   == [properties |-> "seq"]
N(S) == [f \in S |-> "none"]
None == <<>>

Class == [
   PropertyTemplate    |-> [req |-> {"name", "bounds"}, opt |-> Tpl, open |-> {}],
   ConditionTemplate   |-> [req |-> {"name", "bounds"}, opt |-> Tpl, open |-> {}],
   ParameterTemplate   |-> [req |-> {"name", "bounds"}, opt |-> Tpl, open |-> {}],
   MaterialTemplate    |-> [req |-> {"name"}, opt |-> Tpl @@ R, open |-> {}],
   ProcessTemplate     |-> [req |-> {"name"}, opt |-> Tpl @@ C @@ P, open |-> {"allowed_names", "allowed_labels"}],
   MeasurementTemplate |-> [req |-> {"name"}, opt |-> Tpl @@ R @@ C @@ P, open |-> {}],
   ProcessSpec         |-> [req |-> {"name"}, opt |-> Obj @@ C @@ P @@ N({"template"}), open |-> {}],
   MaterialSpec        |-> [req |-> {"name"}, opt |-> Obj @@ R @@ N({"template", "process"}), open |-> {}],
   IngredientSpec      |-> [req |-> {"name"}, opt |-> Obj @@ Qty @@ [labels |-> "seq"] @@ N({"material", "process"}),
                            open |-> {}],
   MeasurementSpec     |-> [req |-> {"name"}, opt |-> Obj @@ C @@ P @@ N({"template"}), open |-> {}],
   ProcessRun          |-> [req |-> {"name"}, opt |-> Obj @@ C @@ P @@ N({"spec", "source"}), open |-> {}],
   MaterialRun         |-> [req |-> {"name"}, opt |-> Obj @@ N({"spec", "process"}) @@ [sample_type |-> "str:unknown"],
                            open |-> {}],
   IngredientRun       |-> [req |-> {}, opt |-> Obj @@ Qty @@ N({"spec", "material", "process"}),
                            open |-> {"name", "labels"}],
   MeasurementRun      |-> [req |-> {"name"}, opt |-> Obj @@ R @@ C @@ P @@ N({"spec", "material", "source"}),
                            open |-> {}],
   Property            |-> [req |-> {"name"}, opt |-> Att, open |-> {}],
   Condition           |-> [req |-> {"name"}, opt |-> Att, open |-> {}],
   Parameter           |-> [req |-> {"name"}, opt |-> Att, open |-> {}],
   PropertyAndConditions |-> [req |-> {"property"}, opt |-> C, open |-> {}],
   FileLink            |-> [req |-> {"filename", "url"}, opt |-> None, open |-> {}],
   LinkByUID           |-> [req |-> {"scope", "id"}, opt |-> None, open |-> {}],
   PerformedSource     |-> [req |-> {}, opt |-> N({"performed_by", "performed_date"}), open |-> {}],
   RealBounds          |-> [req |-> {"lower_bound", "upper_bound", "default_units"}, opt |-> None, open |-> {}],
   IntegerBounds       |-> [req |-> {"lower_bound", "upper_bound"}, opt |-> None, open |-> {}],
   CategoricalBounds   |-> [req |-> {}, opt |-> [categories |-> "set"], open |-> {}],
   CompositionBounds   |-> [req |-> {}, opt |-> [components |-> "set"], open |-> {}],
   NominalReal         |-> [req |-> {"nominal", "units"}, opt |-> None, open |-> {}],
   NormalReal          |-> [req |-> {"units"}, opt |-> None, open |-> {"mean", "std"}],
   UniformReal         |-> [req |-> {"lower_bound", "upper_bound", "units"}, opt |-> None, open |-> {}],
   NominalInteger      |-> [req |-> {"nominal"}, opt |-> None, open |-> {}],
   UniformInteger      |-> [req |-> {"lower_bound", "upper_bound"}, opt |-> None, open |-> {}]
]

Opt(c) == IF Class[c].opt = None THEN {} ELSE DOMAIN Class[c].opt
Fields(c) == Class[c].req \cup Opt(c) \cup Class[c].open

\* what is missing: nothing, one or two fields, everything that may be, everything but one of that
Missing(c) == LET O == Opt(c)
                  F == Fields(c) \ Class[c].open
              IN  {{}, O} \cup {{f, g} : f \in F, g \in F} \cup {O \ {f} : f \in O}
                  \cup {O \cup {f} : f \in Class[c].req}

\* what is given as nothing: as good as missing where nothing is a default, an error where it is not;
\* for some required names this specification does not say
NoWord(c) == IF c \in {"FileLink", "LinkByUID"} THEN Class[c].req
             ELSE IF c \in {"MaterialTemplate", "ProcessTemplate", "MeasurementTemplate",
                            "Property", "Condition", "Parameter"} THEN {"name"} ELSE {}
Soft(c) == {f \in Opt(c) : Class[c].opt[f] # "str:unknown"}
Nulls(c) == LET O == (Opt(c) \cup Class[c].req) \ NoWord(c)
            IN  ({{f} : f \in O} \cup {{f, g} : f \in Class[c].req \ NoWord(c), g \in Opt(c)} \cup {Soft(c)}) \ {{}}

\* m: missing, z: given as nothing
Row(c, m, z) == [class |-> c, missing |-> m, nulls |-> z,
              out |-> IF m \cap Class[c].req = {} /\ z \subseteq Soft(c) THEN "ok" ELSE "refused",
              fields |-> [f \in Fields(c) |-> IF f \in m \cup z
                                              THEN (IF f \in Opt(c) THEN Class[c].opt[f] ELSE "open")
                                              ELSE "given"]]

\* every object can be made from the record of all its fields, and a record that makes an
\* object does so with fewer fields missing too
ASSUME \A c \in DOMAIN Class : Row(c, {}, {}).out = "ok"
ASSUME \A c \in DOMAIN Class : \A m \in Missing(c) : \A f \in m :
          Row(c, m, {}).out = "ok" => Row(c, m \ {f}, {}).out = "ok"

\* nothing can stand in for a missing field, and the object is the same one
ASSUME \A c \in DOMAIN Class : \A z \in Nulls(c) : Row(c, {}, z).out = "ok" =>
          Row(c, z, {}).fields = Row(c, {}, z).fields

Emit == \A c \in DOMAIN Class : /\ \A m \in Missing(c) : PrintT("ROW " \o ToJson(Row(c, m, {})))
                                /\ \A z \in Nulls(c) : PrintT("ROW " \o ToJson(Row(c, {}, z)))
ASSUME Emit
=============================================================================
