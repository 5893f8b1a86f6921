-------------------------------- MODULE Enum --------------------------------
(* Enumerations: which definitions are allowed, and what each spelling      *)
(* resolves to.  Spellings are compared after case folding and trimming, so *)
(* they are modelled by their folded token.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT MaxMembers
Token == {"a", "b", "c"}
Probe == Token \cup {"z"}           \* z is no spelling of anything
Member == [value : Token, syn : SUBSET Token, str : {TRUE}]
          \cup [value : Token, syn : {{}}, str : {FALSE}]   \* a non-string value or synonym
Matches(m) == {m.value} \cup m.syn

Allowed(def) == /\ \A i \in DOMAIN def : def[i].str
                /\ \A i, j \in DOMAIN def : i # j => Matches(def[i]) \cap Matches(def[j]) = {}
Resolve(def, t) == IF \E i \in DOMAIN def : t \in Matches(def[i])
                   THEN CHOOSE i \in DOMAIN def : t \in Matches(def[i]) ELSE 0

Defs == UNION {[1..n -> Member] : n \in 1..MaxMembers}
Row(def) == [def |-> def, allowed |-> Allowed(def),
             resolve |-> IF Allowed(def) THEN [t \in Probe |-> Resolve(def, t)] ELSE [t \in Probe |-> 0]]

\* In an allowed enumeration no spelling is ambiguous and every member is reachable.
ASSUME \A def \in Defs : Allowed(def) =>
         /\ \A t \in Token : Cardinality({i \in DOMAIN def : t \in Matches(def[i])}) <= 1
         /\ \A i \in DOMAIN def : Resolve(def, def[i].value) = i

\* The library's enumerated fields
Fields == [sample_type |-> <<"experimental", "production", "virtual", "unknown">>,
           origin |-> <<"measured", "predicted", "summary", "specified", "computed", "unknown">>]
ASSUME PrintT("FIELDS " \o ToJson(Fields))
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Row(d) : d \in Defs}))
=============================================================================
