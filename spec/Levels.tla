------------------------------- MODULE Levels -------------------------------
(* The validation level in force, and the scopes that set it.               *)
(* A scope may be prepared (its object created) before it is entered; what  *)
(* it restores is the level in force on entry.                              *)
EXTENDS Validation

CONSTANT MaxDepth
VARIABLE st       \* [lvl, stack: levels to restore, prep: -1 or the level of a prepared scope]
Bad == 9          \* an unrecognised level

Ok(s)      == [out |-> "ok", st |-> s]
Refuse(s)  == [out |-> "rejected", st |-> s]
Push(s, l) == [s EXCEPT !.stack = Append(@, s.lvl), !.lvl = l]

Enabled(s, op) ==
    CASE op.op = "enter" -> Len(s.stack) < MaxDepth
      [] op.op = "enter_prepared" -> s.prep # -1 /\ Len(s.stack) < MaxDepth
      [] op.op = "leave" -> s.stack # <<>>
      [] op.op = "prepare" -> s.prep = -1
      [] OTHER -> TRUE

Step(s, op) ==
    CASE op.op = "set"   -> IF op.l = Bad THEN Refuse(s) ELSE Ok([s EXCEPT !.lvl = op.l])
      [] op.op = "enter" -> IF op.l = Bad THEN Refuse(s) ELSE Ok(Push(s, op.l))
      [] op.op = "prepare" -> Ok([s EXCEPT !.prep = op.l])
      [] op.op = "enter_prepared" -> Ok([Push(s, s.prep) EXCEPT !.prep = -1])
      \* whatever the way out, the level on entry is back (and an error goes on)
      [] op.op = "leave" -> Ok([s EXCEPT !.lvl = s.stack[Len(s.stack)],
                                         !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)])

Ways == {"normal", "error", "interrupt", "stop_iteration"}
Ops == {[op |-> o, l |-> l] : o \in {"set", "enter"}, l \in Level \cup {Bad}}
       \cup {[op |-> "prepare", l |-> l] : l \in Level}
       \cup {[op |-> "enter_prepared"]}
       \cup {[op |-> "leave", way |-> w] : w \in Ways}

Init == st = [lvl |-> Warning, stack |-> <<>>, prep |-> -1]
Next == \E op \in Ops :
          /\ Enabled(st, op)
          /\ LET r == Step(st, op) IN
             /\ st' = r.st
             /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
Spec == Init /\ [][Next]_st
InvLevel   == st.lvl \in Level /\ \A i \in DOMAIN st.stack : st.stack[i] \in Level
\* entering and then leaving restores the level, whatever was set inside
InvRestore == \A l, m \in Level :
                LET a == Step(st, [op |-> "enter", l |-> l]).st
                    b == Step(a, [op |-> "set", l |-> m]).st
                IN  Step(b, [op |-> "leave", way |-> "error"]).st = st /\ a.lvl = l
=============================================================================
