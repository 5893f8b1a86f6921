---------------------------- MODULE LevelsTrace ----------------------------
(* Judges programs run with real with-statements.  Each program is one      *)
(* event: the sequence of operations and the level observed after each.     *)
EXTENDS Levels, IOUtils
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

RECURSIVE Run(_, _, _)
\* the set of steps (positions) at which the observation differs from the model
Run(s, steps, i) ==
    IF i > Len(steps) THEN {}
    ELSE LET r == Step(s, steps[i].op)
         IN  (IF r.out = steps[i].out /\ r.st.lvl = steps[i].lvl /\ r.st.lvl = steps[i].acts
              THEN {} ELSE {i}) \cup Run(r.st, steps, i + 1)

VARIABLE l
TInit == l = 1 /\ Init
TNext == /\ l <= Len(Log)
         /\ LET bad == Run([lvl |-> Log[l].start, stack |-> <<>>, prep |-> -1], Log[l].steps, 1)
            IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
         /\ l' = l + 1 /\ UNCHANGED st
         /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
TSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
