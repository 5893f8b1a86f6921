------------------------------- MODULE Links -------------------------------
(* The link structure of GEMD objects: forward links (process, material)    *)
(* that a user assigns, and the reverse links (ingredients, output          *)
(* material, measurements) that the library maintains.                      *)
(*                                                                          *)
(* One action = one assignment to a link field (or one construction with    *)
(* that link given).  The state holds forward and reverse links separately, *)
(* as the implementation does, so that their agreement (TwoWay) is a        *)
(* genuine invariant of the transitions.                                    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Obj,      \* names of the objects
          Kind,     \* [Obj -> kind]: "process_run", "material_spec", ...
          Explore   \* set of <<object, field>> that the behaviours assign

None == "none"
Link == "link"      \* a link-by-id
Junk == "junk"      \* something that is not an entity at all
NA   == "na"        \* the field does not exist for this kind

Side(k) == IF k \in {"process_run", "material_run", "ingredient_run", "measurement_run"}
           THEN "run" ELSE "spec"
Is(o, b) == Kind[o] \in {b \o "_run", b \o "_spec"}

HasProcess(o)  == Is(o, "ingredient") \/ Is(o, "material")
HasMaterial(o) == Is(o, "ingredient") \/ Kind[o] = "measurement_run"
HasField(o, f) == IF f = "process" THEN HasProcess(o) ELSE HasMaterial(o)

\* The kind a link field of an object may refer to.
TargetKind(o, f) == f \o "_" \o Side(Kind[o])

Accepts(o, f, t) ==
    \/ t \in {None, Link}
    \/ t \in Obj /\ Kind[t] = TargetKind(o, f)

InitState ==
    [ fwd  |-> [o \in Obj |-> [process  |-> IF HasProcess(o) THEN None ELSE NA,
                               material |-> IF HasMaterial(o) THEN None ELSE NA]],
      ings |-> [o \in {x \in Obj : Is(x, "process")} |-> {}],
      outm |-> [o \in {x \in Obj : Is(x, "process")} |-> None],
      meas |-> [o \in {x \in Obj : Kind[x] = "material_run"} |-> {}] ]

\* Assigning process of a material: leave the old process, displace the new
\* process' previous output material.
SetMaterialProcess(s, o, t) ==
    LET old  == s.fwd[o].process
        disp == IF t \in DOMAIN s.outm THEN s.outm[t] ELSE None
        out1 == IF old \in DOMAIN s.outm THEN [s.outm EXCEPT ![old] = None] ELSE s.outm
        out2 == IF t \in DOMAIN s.outm THEN [out1 EXCEPT ![t] = o] ELSE out1
        fwd1 == IF disp # None /\ disp # o THEN [s.fwd EXCEPT ![disp].process = None] ELSE s.fwd
    IN  [s EXCEPT !.fwd = [fwd1 EXCEPT ![o].process = t], !.outm = out2]

SetIngredientProcess(s, o, t) ==
    [s EXCEPT !.fwd[o].process = t,
              !.ings = [p \in DOMAIN s.ings |->
                          (s.ings[p] \ {o}) \cup (IF t = p THEN {o} ELSE {})]]

SetMeasurementMaterial(s, o, t) ==
    [s EXCEPT !.fwd[o].material = t,
              !.meas = [m \in DOMAIN s.meas |->
                          (s.meas[m] \ {o}) \cup (IF t = m THEN {o} ELSE {})]]

\* The meaning of one assignment: the outcome and the next state.
Step(s, o, f, t) ==
    IF ~Accepts(o, f, t) THEN [out |-> "rejected", st |-> s]
    ELSE [out |-> "ok",
          st |-> CASE f = "process" /\ Is(o, "material")   -> SetMaterialProcess(s, o, t)
                   [] f = "process" /\ Is(o, "ingredient") -> SetIngredientProcess(s, o, t)
                   [] f = "material" /\ Is(o, "ingredient") -> [s EXCEPT !.fwd[o].material = t]
                   [] OTHER -> SetMeasurementMaterial(s, o, t)]

\* ------------------------------------------------------------ properties
TwoWay(s) ==
    /\ \A p \in DOMAIN s.ings :
         s.ings[p] = {o \in Obj : Is(o, "ingredient") /\ s.fwd[o].process = p}
    /\ \A p \in DOMAIN s.outm : \A o \in Obj :
         Is(o, "material") => (s.outm[p] = o <=> s.fwd[o].process = p)
    /\ \A m \in DOMAIN s.meas :
         s.meas[m] = {o \in Obj : Kind[o] = "measurement_run" /\ s.fwd[o].material = m}

WellKinded(s) ==
    \A o \in Obj : \A f \in {"process", "material"} :
       IF HasField(o, f) THEN Accepts(o, f, s.fwd[o][f]) ELSE s.fwd[o][f] = NA

\* ------------------------------------------------------------ behaviours
VARIABLE st
Targets == Obj \cup {None, Link, Junk}

Assign(o, f, t) ==
    LET r == Step(st, o, f, t)
    IN  /\ st' = r.st
        /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, out |-> r.out,
                                     op |-> [op |-> "assign", o |-> o, f |-> f, t |-> t]]))

Init == st = InitState
Next == \E of \in Explore, t \in Targets : Assign(of[1], of[2], t)
Spec == Init /\ [][Next]_st

InvTwoWay     == TwoWay(st)
InvWellKinded == WellKinded(st)
\* A rejected assignment has no effect.
InvRejected   == \A of \in Explore, t \in Targets :
                    LET r == Step(st, of[1], of[2], t) IN r.out = "rejected" => r.st = st
=============================================================================
