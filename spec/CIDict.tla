------------------------------- MODULE CIDict -------------------------------
(* A map whose keys are compared without regard to case.                    *)
(* State: the sequence of <<spelling, value>> in order of first insertion.  *)
(* Every operation is total: it either is refused and changes nothing, or   *)
(* gives a next state and a result.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Letters,  \* case-folded keys
          Vals,     \* values
          MaxUpd    \* longest sequence of pairs given to an update

\* Two spellings of each key
Spell == Letters \X {"lower", "upper"}
Fold(k) == k[1]
NoVal == 0      \* "nothing there"

Has(s, k)  == \E i \in DOMAIN s : Fold(s[i][1]) = Fold(k)
At(s, k)   == CHOOSE i \in DOMAIN s : Fold(s[i][1]) = Fold(k)
Val(s, k)  == IF Has(s, k) THEN s[At(s, k)][2] ELSE NoVal
Clash(s, k) == Has(s, k) /\ s[At(s, k)][1] # k
Drop(s, k) == SelectSeq(s, LAMBDA e : Fold(e[1]) # Fold(k))
Put(s, k, v) == IF Has(s, k) THEN [s EXCEPT ![At(s, k)] = <<k, v>>] ELSE Append(s, <<k, v>>)

RECURSIVE PutAll(_, _)
PutAll(s, ps) == IF ps = <<>> THEN s ELSE PutAll(Put(s, ps[1][1], ps[1][2]), Tail(ps))
\* Pairs clash with the map or with each other
Clashes(s, ps) == \/ \E i \in DOMAIN ps : Clash(s, ps[i][1])
                  \/ \E i, j \in DOMAIN ps : Fold(ps[i][1]) = Fold(ps[j][1]) /\ ps[i][1] # ps[j][1]
DistinctKeys(ps) == \A i, j \in DOMAIN ps : ps[i][1] = ps[j][1] => i = j

Ok(s, r)  == [out |-> [res |-> "ok", val |-> r], st |-> s]
Refuse(s) == [out |-> [res |-> "rejected", val |-> NoVal], st |-> s]

Step(s, op) ==
    CASE op.op = "set" -> IF Clash(s, op.k) THEN Refuse(s) ELSE Ok(Put(s, op.k, op.v), NoVal)
      [] op.op = "del" -> IF Has(s, op.k) THEN Ok(Drop(s, op.k), NoVal) ELSE Refuse(s)
      [] op.op = "pop" -> IF Has(s, op.k) THEN Ok(Drop(s, op.k), Val(s, op.k)) ELSE Refuse(s)
      [] op.op = "pop_default" -> IF Has(s, op.k) THEN Ok(Drop(s, op.k), Val(s, op.k))
                                  ELSE Ok(s, op.v)
      [] op.op = "setdefault" -> IF Has(s, op.k) THEN Ok(s, Val(s, op.k))
                                 ELSE Ok(Put(s, op.k, op.v), op.v)
      [] op.op = "popitem" -> IF s = <<>> THEN Refuse(s)
                              ELSE Ok(Front(s), Last(s)[2])
      [] op.op = "clear" -> Ok(<<>>, NoVal)
      [] op.op = "get_default" -> Ok(s, IF Has(s, op.k) THEN Val(s, op.k) ELSE op.v)
      [] op.op = "update" -> IF Clashes(s, op.ps) THEN Refuse(s) ELSE Ok(PutAll(s, op.ps), NoVal)
      \* a new map built from pairs; a copy of this one: the object under test is replaced
      [] op.op = "rebuild" -> IF Clashes(<<>>, op.ps) THEN Refuse(s)
                              ELSE Ok(PutAll(<<>>, op.ps), NoVal)
      [] op.op = "copy" -> Ok(s, NoVal)

Pairs == Spell \X Vals
Seqs(n) == UNION {[1..m -> Pairs] : m \in 0..n}
Upd == {[op |-> "update", via |-> r, ps |-> ps] : r \in {"pairs", "ior"}, ps \in Seqs(MaxUpd)}
       \cup {[op |-> "update", via |-> r, ps |-> ps] : r \in {"mapping", "kwargs", "mixed", "cid"},
             ps \in {q \in Seqs(MaxUpd) : DistinctKeys(q)}}
Ops == {[op |-> o, k |-> k, v |-> v] : o \in {"set", "setdefault", "pop_default", "get_default"},
                                       k \in Spell, v \in Vals}
       \cup {[op |-> o, k |-> k] : o \in {"del", "pop"}, k \in Spell}
       \cup {[op |-> o] : o \in {"popitem", "clear", "copy"}}
       \cup {[op |-> "copy", via |-> v] : v \in {"copy.copy", "deepcopy", "pickle", "items"}}
       \cup Upd
       \cup {[op |-> "rebuild", via |-> "pairs", ps |-> ps] : ps \in Seqs(MaxUpd)}
       \cup {[op |-> "rebuild", via |-> r, ps |-> ps] : r \in {"mapping", "kwargs"},
             ps \in {q \in Seqs(MaxUpd) : DistinctKeys(q)}}

\* What every way of reading must show
View(s) == [ items |-> s,
             len   |-> Len(s),
             read  |-> { [k |-> k, has |-> Has(s, k), val |-> Val(s, k)] : k \in Spell } ]

VARIABLE st
Init == st = <<>>
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
\* the view of every reachable state, emitted when the state is first checked
EmitView == PrintT("VIEW " \o ToJson([st |-> st, view |-> View(st)]))
Spec == Init /\ [][Next]_st

InvOneSpelling == \A i, j \in DOMAIN st : Fold(st[i][1]) = Fold(st[j][1]) => i = j
InvRefused == \A op \in Ops : Step(st, op).out.res = "rejected" => Step(st, op).st = st
=============================================================================
