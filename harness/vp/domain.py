"""Concrete families of bounds and values: a in A only, b in B only, both in AB, neither in X."""
from gemd.entity.bounds import (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger,
                               UniformInteger, NominalCategorical, DiscreteCategorical,
                               NominalComposition, EmpiricalFormula, Smiles, InChI)


def R(lo, hi, u=""):
    return RealBounds(lower_bound=lo, upper_bound=hi, default_units=u)


def families():
    """name -> dict(a, b, A, B, AB, X): fresh objects on each call."""
    cat = CategoricalBounds
    return {
        "nominal_real": dict(a=NominalReal(1.0, "cm"), b=NominalReal(2.0, "m"), A=R(0, .5, "m"),
                             B=R(100, 300, "cm"), AB=R(0, 5, "m"), X=R(0, 5, "kg")),
        "uniform_real": dict(a=UniformReal(0, 1, ""), b=UniformReal(0.5, 1.5, ""), A=R(0, 1),
                             B=R(.5, 2), AB=R(0, 2), X=R(5, 6)),
        "normal_real": dict(a=NormalReal(20, 1, "degC"), b=NormalReal(400, 5, "K"),
                            A=R(290, 300, "K"), B=R(399, 401, "K"), AB=R(0, 900, "K"), X=R(0, 1000, "Pa")),
        "nominal_int": dict(a=NominalInteger(3), b=NominalInteger(-3), A=IntegerBounds(0, 3),
                            B=IntegerBounds(-3, 0), AB=IntegerBounds(-9, 9), X=R(-9, 9)),
        "uniform_int": dict(a=UniformInteger(1, 2), b=UniformInteger(2, 9), A=IntegerBounds(1, 8),
                            B=IntegerBounds(2, 9), AB=IntegerBounds(1, 9), X=cat(["1"])),
        "nominal_cat": dict(a=NominalCategorical("red"), b=NominalCategorical("blue"),
                            A=cat(["red", "green"]), B=cat(["blue"]), AB=cat(["red", "blue"]),
                            X=cat(["Red", "Blue"])),
        "discrete_cat": dict(a=DiscreteCategorical({"p": .5, "q": .5}),
                             b=DiscreteCategorical({"p": .5, "s": .5}), A=cat(["p", "q"]),
                             B=cat(["p", "s"]), AB=cat(["p", "q", "s"]), X=cat(["p"])),
        "composition": dict(a=NominalComposition({"salt": 1, "water": 9}),
                            b=NominalComposition({"oil": 1}), A=CompositionBounds(["salt", "water"]),
                            B=CompositionBounds(["oil"]), AB=CompositionBounds(["salt", "water",
                                                                                 "oil"]),
                            X=cat(["salt", "water", "oil"])),
        "formula": dict(a=EmpiricalFormula("NaCl"), b=EmpiricalFormula("H2O"),
                        A=CompositionBounds(["Na", "Cl"]), B=CompositionBounds(["H", "O"]),
                        AB=CompositionBounds(["Na", "Cl", "H", "O"]), X=CompositionBounds(["Na"])),
        "molecular": dict(a=Smiles("CCO"), b=NominalCategorical("CCO"),
                          A=MolecularStructureBounds(), B=cat(["CCO"]), AB=None, X=R(0, 1)),
        "inchi": dict(a=InChI("InChI=1S/H2O/h1H2"), b=NominalReal(0, ""),
                      A=MolecularStructureBounds(), B=R(0, 0), AB=None, X=IntegerBounds(0, 1)),
    }
