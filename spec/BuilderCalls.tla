---------------------------- MODULE BuilderCalls ----------------------------
(* Every combination of the builders' options, at the level of forms; the   *)
(* driver makes concrete arguments of each form and records what happens.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Names == {"none", "empty", "text"}
Tpls  == {"none", "right", "wrong", "nontemplate"}
Nodes == [op : {"make_node"}, name : {"empty", "text"}, pname : Names, ptpl : Tpls, mtpl : Tpls]
Edges == [op : {"add_edge"}, name : Names, ospec : {"none", "link", "bare", "linked", "full"},
          oproc : {"none", "link", "full"}, ispec : {"none", "link", "full"}, same : BOOLEAN]
Forms == {"none", "float", "zero", "value", "other"}
Qtys  == [op : {"quantities"}, mass_fraction : Forms, volume_fraction : Forms, number_fraction : Forms,
          absolute_quantity : Forms, units : {"none", "given"}]
AttrSeqs == UNION {[1 .. n -> {"Property", "Condition", "Parameter", "other"}] : n \in 0 .. 3}
Meas  == [op : {"add_measurement"}, name : Names, tpl : Tpls, attrs : AttrSeqs]
Kinds == {"PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "ProcessTemplate", "MaterialTemplate",
          "MeasurementTemplate", "ProcessSpec", "ProcessRun", "MaterialSpec", "MaterialRun", "IngredientSpec",
          "IngredientRun", "MeasurementSpec", "MeasurementRun"}
Values == {"int", "zero", "float", "fzero", "str", "estr", "inchi", "formula", "other", "value"}
BoundsKinds == {"RealBounds", "IntegerBounds", "CategoricalBounds", "CompositionBounds", "MolecularStructureBounds"}
Attrs == [op : {"add_attribute"}, target : Kinds, n : 0 .. 2,
          tpl : {"PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "wrong"},
          bounds : BoundsKinds, v : Values]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Nodes) \o SetToSeq(Edges) \o SetToSeq(Qtys) \o SetToSeq(Meas) \o SetToSeq(Attrs))
=============================================================================
