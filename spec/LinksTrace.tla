----------------------------- MODULE LinksTrace -----------------------------
(* Judges link assignments recorded from the implementation: each event     *)
(* gives the complete link state before and after one public operation.     *)
(*   assign    o, f, t       one field assignment                           *)
(*   construct o, process, material   a new object given its links          *)
(*   reload                  everything dumped to JSON and loaded again     *)
EXTENDS Links, IOUtils

ByKind   == [process_run |-> {"P0", "P1", "P2"}, material_run |-> {"M0", "M1", "M2"},
             ingredient_run |-> {"I0", "I1", "I2"}, measurement_run |-> {"E0", "E1", "E2"},
             process_spec |-> {"Q0", "Q1"}, material_spec |-> {"N0", "N1"},
             ingredient_spec |-> {"J0", "J1", "J2"}, measurement_spec |-> {"F0"}]
TObj     == UNION {ByKind[k] : k \in DOMAIN ByKind}
TKind    == [o \in TObj |-> CHOOSE k \in DOMAIN ByKind : o \in ByKind[k]]
Log      == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* JSON lists stand for sets here; the harness logs a duplicate as a clause.
ToSet(q) == {q[i] : i \in DOMAIN q}
St(j) == [ fwd  |-> j.fwd,
           ings |-> [p \in DOMAIN InitState.ings |-> ToSet(j.ings[p])],
           outm |-> [p \in DOMAIN InitState.outm |-> j.outm[p]],
           meas |-> [p \in DOMAIN InitState.meas |-> ToSet(j.meas[p])] ]
NoDup(j) == /\ \A p \in DOMAIN InitState.ings : Len(j.ings[p]) = Cardinality(ToSet(j.ings[p]))
            /\ \A p \in DOMAIN InitState.meas : Len(j.meas[p]) = Cardinality(ToSet(j.meas[p]))

\* A construction assigns each link the class has; it is refused if any is unacceptable.
Construct(s, e) ==
    LET fs == {f \in {"process", "material"} : HasField(e.o, f)}
        r1 == IF "material" \in fs THEN Step(s, e.o, "material", e.material) ELSE [out |-> "ok", st |-> s]
        r2 == IF "process" \in fs THEN Step(r1.st, e.o, "process", e.process) ELSE r1
    IN  IF \A f \in fs : Accepts(e.o, f, e[f]) THEN r2 ELSE [out |-> "rejected", st |-> s]

Expect(s, e) == CASE e.op = "assign"    -> Step(s, e.o, e.f, e.t)
                  [] e.op = "construct" -> Construct(s, e)
                  [] OTHER              -> [out |-> "ok", st |-> s]

Clauses(e) ==
    LET pre == St(e.pre) post == St(e.post) x == Expect(pre, e)
    IN  {c \in {"outcome", "state", "two_way", "well_kinded", "no_duplicates"} :
           ~ CASE c = "outcome" -> x.out = e.out
               [] c = "state" -> x.st = post
               [] c = "two_way" -> TwoWay(post)
               [] c = "well_kinded" -> WellKinded(post)
               [] OTHER -> NoDup(e.post)}

VARIABLES l
TInit == l = 1 /\ st = InitState
TNext == /\ l <= Len(Log)
         /\ LET bad == Clauses(Log[l])
            IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
         /\ l' = l + 1 /\ UNCHANGED st
         /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
TSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
