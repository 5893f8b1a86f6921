----------------------------- MODULE Validation -----------------------------
(* What the validation level means: the verdict on content that is or is    *)
(* not consistent with its template.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ignore == 0
Warning == 1
Fatal == 2
Level == {Ignore, Warning, Fatal}

\* "ok" (silent), "warned" (accepted with a warning) or "rejected"
Verdict(lvl, consistent) ==
    IF consistent \/ lvl = Ignore THEN "ok" ELSE IF lvl = Warning THEN "warned" ELSE "rejected"
Accepted(v) == v # "rejected"
=============================================================================
