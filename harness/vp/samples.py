"""One instance of every serializable class of the library (fresh on each call)."""
import gemd.entity as E


def instances():
    b = E.RealBounds(0, 1, "m")
    return {
        "Condition": E.Condition("c", value=E.NominalReal(.5, "m")),
        "Parameter": E.Parameter("p", origin="specified", notes="n"),
        "Property": E.Property("q", value=E.NominalCategorical("x")),
        "PropertyAndConditions": E.PropertyAndConditions(E.Property("q"), [E.Condition("c")]),
        "CategoricalBounds": E.CategoricalBounds(["a", "b"]),
        "CompositionBounds": E.CompositionBounds(["a", "b"]),
        "IntegerBounds": E.IntegerBounds(-1, 5),
        "MolecularStructureBounds": E.MolecularStructureBounds(),
        "RealBounds": b,
        "MaterialRun": E.MaterialRun("m", sample_type="virtual", tags=["t"]),
        "MeasurementRun": E.MeasurementRun("m", notes="n"),
        "ProcessRun": E.ProcessRun("p", uids={"a": "1"}),
        "IngredientRun": E.IngredientRun(mass_fraction=E.NominalReal(.5, ""), notes="x"),
        "MaterialSpec": E.MaterialSpec("m", tags=["a::b"]),
        "MeasurementSpec": E.MeasurementSpec("m", notes="n"),
        "ProcessSpec": E.ProcessSpec("p", file_links=E.FileLink("f", "u")),
        "IngredientSpec": E.IngredientSpec("i", labels=["l"]),
        "PerformedSource": E.PerformedSource("me", "2020-01-01"),
        "PropertyTemplate": E.PropertyTemplate("t", bounds=b),
        "ConditionTemplate": E.ConditionTemplate("t", bounds=b, description="d"),
        "ParameterTemplate": E.ParameterTemplate("t", bounds=b),
        "MaterialTemplate": E.MaterialTemplate("t", description="d"),
        "MeasurementTemplate": E.MeasurementTemplate("t"),
        "ProcessTemplate": E.ProcessTemplate("t"),
        "NominalReal": E.NominalReal(1.25, "m"), "NormalReal": E.NormalReal(1, .5, "kg"),
        "UniformReal": E.UniformReal(1, 2, "s"), "NominalInteger": E.NominalInteger(3),
        "UniformInteger": E.UniformInteger(3, 4),
        "DiscreteCategorical": E.DiscreteCategorical({"a": .25, "b": .75}),
        "NominalCategorical": E.NominalCategorical("a"),
        "EmpiricalFormula": E.EmpiricalFormula("NaCl"),
        "NominalComposition": E.NominalComposition({"a": 1.5}),
        "InChI": E.InChI("InChI=1S/H2O/h1H2"), "Smiles": E.Smiles("CCO"),
        "LinkByUID": E.LinkByUID("s", "i"), "FileLink": E.FileLink("f", "u"),
    }
