------------------------------ MODULE MCLinks ------------------------------
(* Small instances of Links, one per cluster of related links, plus a mixed *)
(* one.  Objects of one kind are interchangeable names; the harness makes   *)
(* them equal-by-value twins.                                               *)
EXTENDS Links

KindOf(pairs) == [o \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = o)[2]]

IngRun  == {<<"P1","process_run">>, <<"P2","process_run">>, <<"I1","ingredient_run">>,
            <<"I2","ingredient_run">>, <<"I3","ingredient_run">>}
OutRun  == {<<"P1","process_run">>, <<"P2","process_run">>, <<"P3","process_run">>,
            <<"M1","material_run">>, <<"M2","material_run">>, <<"M3","material_run">>}
MeasRun == {<<"M1","material_run">>, <<"M2","material_run">>, <<"E1","measurement_run">>,
            <<"E2","measurement_run">>, <<"E3","measurement_run">>}
IngSpec == {<<"P1","process_spec">>, <<"P2","process_spec">>, <<"I1","ingredient_spec">>,
            <<"I2","ingredient_spec">>, <<"I3","ingredient_spec">>}
OutSpec == {<<"P1","process_spec">>, <<"P2","process_spec">>, <<"P3","process_spec">>,
            <<"M1","material_spec">>, <<"M2","material_spec">>, <<"M3","material_spec">>}
MixRun  == {<<"P1","process_run">>, <<"M1","material_run">>, <<"M2","material_run">>,
            <<"I1","ingredient_run">>, <<"E1","measurement_run">>}
\* run and spec side together: nothing may cross over
CrossI  == {<<"P1","process_run">>, <<"Q1","process_spec">>, <<"I1","ingredient_run">>,
            <<"J1","ingredient_spec">>, <<"F1","measurement_spec">>}
CrossM  == {<<"P1","process_run">>, <<"Q1","process_spec">>, <<"M1","material_run">>,
            <<"N1","material_spec">>, <<"E1","measurement_run">>, <<"F1","measurement_spec">>}
Mix2Run == {<<"P1","process_run">>, <<"P2","process_run">>, <<"M1","material_run">>,
            <<"I1","ingredient_run">>, <<"I2","ingredient_run">>, <<"E1","measurement_run">>}
MixSpec == {<<"P1","process_spec">>, <<"P2","process_spec">>, <<"M1","material_spec">>,
            <<"I1","ingredient_spec">>, <<"I2","ingredient_spec">>}
CONSTANT Which
Pairs == CASE Which = "ingrun" -> IngRun [] Which = "outrun" -> OutRun
           [] Which = "measrun" -> MeasRun [] Which = "ingspec" -> IngSpec
           [] Which = "outspec" -> OutSpec [] Which = "mixrun" -> MixRun
           [] Which = "crossi" -> CrossI [] Which = "crossm" -> CrossM
           [] Which = "mix2run" -> Mix2Run [] OTHER -> MixSpec
ObjDef  == {p[1] : p \in Pairs}
KindDef == KindOf(Pairs)
AllFields == {of \in ObjDef \X {"process", "material"} :
                LET k == KindDef[of[1]] IN
                IF of[2] = "process"
                THEN k \in {"ingredient_run", "ingredient_spec", "material_run", "material_spec"}
                ELSE k \in {"ingredient_run", "ingredient_spec", "measurement_run"}}
ExploreDef == CASE Which \in {"ingrun", "ingspec"} -> ObjDef \X {"process"} \cap AllFields
                [] OTHER -> AllFields
=============================================================================
