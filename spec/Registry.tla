------------------------------ MODULE Registry ------------------------------
(* The registry from type strings to classes.  A history is a sequence of   *)
(* class definitions, each with a parent (0: the base class), possibly a    *)
(* type it claims, and possibly a field its records leave out, in addition  *)
(* to those its ancestors leave out.  Also the fixed table of the library's own types.      *)
(* A class may have a second parent ("extra", 0: none), unrelated to the    *)
(* first by descent; of the two, what the second's own line says of the     *)
(* type yields to what the first's says, unless both have it from a common  *)
(* ancestor.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxDefs, Skips, \* Skips: fields a class may leave out ("none": no field)
          Mixes           \* whether classes may have two parents
Typs == {"t", "u"}
NoTyp == "none"
VARIABLE st    \* [defs: sequence of [parent, typ], own: [Typs -> class number or 0]]

\* The class and its ancestors, in the order in which they are asked (the parents of a class
\* with two parents have one each)
RECURSIVE Line(_, _)
Line(defs, c) ==
    IF c = 0 THEN <<>>
    ELSE LET p == Line(defs, defs[c].parent)
             e == Line(defs, defs[c].extra)
         IN <<c>> \o SelectSeq(p, LAMBDA a : ~Contains(e, a)) \o e
Descends(defs, c, a) == a = 0 \/ Contains(Line(defs, c), a)
\* The type an instance of class c records
TypOf(defs, c) == LET l == SelectSeq(Line(defs, c), LAMBDA a : defs[a].typ # NoTyp)
                  IN IF l = <<>> THEN NoTyp ELSE defs[l[1]].typ
SkippedOf(defs, c) == {defs[a].skip : a \in ToSet(Line(defs, c))} \ {"none"}
Fields == {"x", "y", "p", "q"}
Sorted(S) == SelectSeq(<<"p", "q", "x", "y">>, LAMBDA f : f \in S)

MayClaim(s, op, t) == s.own[t] = 0 \/ Descends(s.defs, op.parent, s.own[t])
                     \/ (op.extra # 0 /\ Descends(s.defs, op.extra, s.own[t]))

Step(s, op) ==
    IF op.op = "tamper" THEN [out |-> "ok", st |-> s]
    ELSE LET n == Len(s.defs) + 1 IN
    IF op.typ # NoTyp /\ ~MayClaim(s, op, op.typ) THEN [out |-> "rejected", st |-> s]
    ELSE [out |-> "ok",
          st |-> [defs |-> Append(s.defs, [parent |-> op.parent, extra |-> op.extra, typ |-> op.typ, skip |-> op.skip]),
                  own |-> IF op.typ = NoTyp THEN s.own ELSE [s.own EXCEPT ![op.typ] = n]]]

\* What loading gives: for each type its class; for each class the type its instances
\* record and the class they load as.
View(s) == [ own |-> s.own, n |-> Len(s.defs),
             inst |-> [c \in 1..Len(s.defs) |->
                        LET t == TypOf(s.defs, c)
                        IN [typ |-> t, fields |-> IF t = NoTyp THEN <<>> ELSE Sorted(Fields \ SkippedOf(s.defs, c)),
                            loads |-> IF t = NoTyp THEN 0 ELSE s.own[t]]] ]

Single(s, c) == \A a \in ToSet(Line(s.defs, c)) : s.defs[a].extra = 0
Extras(s, p) == {0} \cup {e \in 1..Len(s.defs) : /\ Mixes /\ p # 0 /\ Single(s, p) /\ Single(s, e)
                                                /\ ~Descends(s.defs, p, e) /\ ~Descends(s.defs, e, p)}
Ops(s) == UNION {{[op |-> "define", parent |-> p, extra |-> e, typ |-> t, skip |-> k] :
                     e \in Extras(s, p), t \in Typs \cup {NoTyp}, k \in Skips} : p \in 0..Len(s.defs)}
          \cup {[op |-> "tamper"]}
Init == st = [defs |-> <<>>, own |-> [t \in Typs |-> 0]]
Next == \E op \in Ops(st) :
          LET r == Step(st, op) IN
          /\ Len(r.st.defs) <= MaxDefs
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> [d |-> st.defs, v |-> View(st)], op |-> op,
                                       out |-> r.out, to |-> [d |-> r.st.defs, v |-> View(r.st)]]))
Spec == Init /\ [][Next]_st
\* whatever is registered for a type records that type, and descends from every class that
\* records the type and was registered for it before
InvOwner == \A t \in Typs : st.own[t] # 0 =>
              /\ TypOf(st.defs, st.own[t]) = t
              /\ \A c \in 1..Len(st.defs) : st.defs[c].typ = t => Descends(st.defs, st.own[t], c)

\* a class leaves out all that its parent leaves out
InvSkip == \A c \in 1..Len(st.defs) : SkippedOf(st.defs, st.defs[c].parent) \cup SkippedOf(st.defs, st.defs[c].extra)
                                      \subseteq SkippedOf(st.defs, c)

Library == [condition |-> "Condition", parameter |-> "Parameter", property |-> "Property",
   property_and_conditions |-> "PropertyAndConditions", categorical_bounds |-> "CategoricalBounds",
   composition_bounds |-> "CompositionBounds", integer_bounds |-> "IntegerBounds",
   molecular_structure_bounds |-> "MolecularStructureBounds", real_bounds |-> "RealBounds",
   material_run |-> "MaterialRun", measurement_run |-> "MeasurementRun",
   process_run |-> "ProcessRun", ingredient_run |-> "IngredientRun",
   material_spec |-> "MaterialSpec", measurement_spec |-> "MeasurementSpec",
   process_spec |-> "ProcessSpec", ingredient_spec |-> "IngredientSpec",
   performed_source |-> "PerformedSource", property_template |-> "PropertyTemplate",
   condition_template |-> "ConditionTemplate", parameter_template |-> "ParameterTemplate",
   material_template |-> "MaterialTemplate", measurement_template |-> "MeasurementTemplate",
   process_template |-> "ProcessTemplate", nominal_real |-> "NominalReal",
   normal_real |-> "NormalReal", uniform_real |-> "UniformReal",
   nominal_integer |-> "NominalInteger", uniform_integer |-> "UniformInteger",
   discrete_categorical |-> "DiscreteCategorical", nominal_categorical |-> "NominalCategorical",
   empirical_formula |-> "EmpiricalFormula", nominal_composition |-> "NominalComposition",
   inchi |-> "InChI", smiles |-> "Smiles", link_by_uid |-> "LinkByUID", file_link |-> "FileLink"]
ASSUME PrintT("LIB " \o ToJson(Library))
=============================================================================
