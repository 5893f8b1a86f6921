----------------------------- MODULE TypedList -----------------------------
(* A list that admits only elements of given types and passes each added    *)
(* element through an optional hook.  Apart from refusals it is a Python    *)
(* list; indices and slices follow Python's rules.                          *)
(*                                                                          *)
(* Elements: "x" and "n" (allowed, two types), "c" (allowed; the hook turns *)
(* it into "k"), "k", "boom" (allowed type, but the hook refuses it), "bad" *)
(* (a foreign type).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Hook,   \* is a hook installed
          MaxLen, \* longest list explored
          MaxArg  \* longest sequence given to one operation

Elem   == {"x", "n", "c", "boom", "bad"}
None   == 99      \* an omitted slice bound
AllowedType(e) == e # "bad"
Good(e)  == AllowedType(e) /\ ~(Hook /\ e = "boom")
Conv(e)  == IF Hook /\ e = "c" THEN "k" ELSE e
AllGood(q) == \A i \in DOMAIN q : Good(q[i])
ConvAll(q) == [i \in DOMAIN q |-> Conv(q[i])]
Calls(n) == IF Hook THEN n ELSE 0

\* ---- Python indexing
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == Norm(i, n) >= 0 /\ Norm(i, n) < n
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
\* slice.indices: first index and the index before which it stops
SStart(a, st, n) == IF a = None THEN (IF st < 0 THEN n - 1 ELSE 0)
                    ELSE IF st < 0 THEN Clamp(Norm(a, n), -1, n - 1) ELSE Clamp(Norm(a, n), 0, n)
SStop(b, st, n)  == IF b = None THEN (IF st < 0 THEN -1 ELSE n)
                    ELSE IF st < 0 THEN Clamp(Norm(b, n), -1, n - 1) ELSE Clamp(Norm(b, n), 0, n)
RECURSIVE Walk(_, _, _)
Walk(i, stop, st) == IF (st > 0 /\ i >= stop) \/ (st < 0 /\ i <= stop) THEN <<>>
                     ELSE <<i>> \o Walk(i + st, stop, st)
Idx(sl, n) == Walk(SStart(sl[1], sl[3], n), SStop(sl[2], sl[3], n), sl[3])   \* 0-based, in order

Cut(s, is) == LET keep == {i \in 1..Len(s) : \A k \in DOMAIN is : is[k] + 1 # i}
              IN  SelectSeq([i \in 1..Len(s) |-> [i |-> i, e |-> s[i]]], LAMBDA r : r.i \in keep)
CutSeq(s, is) == LET c == Cut(s, is) IN [i \in DOMAIN c |-> c[i].e]
InsertAt(s, i, q) == SubSeq(s, 1, i) \o q \o SubSeq(s, i + 1, Len(s))     \* before 0-based i

\* s[sl] = q
SetSlice(s, sl, q) ==
    LET n == Len(s) a == SStart(sl[1], sl[3], n) b0 == SStop(sl[2], sl[3], n)
        b == IF b0 < a THEN a ELSE b0
        is == Idx(sl, n)
    IN  IF sl[3] = 1 THEN SubSeq(s, 1, a) \o q \o SubSeq(s, b + 1, n)
        ELSE [i \in 1..n |-> IF \E k \in DOMAIN is : is[k] + 1 = i
                             THEN q[CHOOSE k \in DOMAIN is : is[k] + 1 = i] ELSE s[i]]
SliceFits(s, sl, q) == sl[3] = 1 \/ Len(Idx(sl, Len(s))) = Len(q)

Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
FirstAt(s, e) == CHOOSE i \in DOMAIN s : s[i] = e /\ \A j \in 1..(i - 1) : s[j] # e

Ok(s, calls, r) == [out |-> [res |-> "ok", calls |-> calls, val |-> r], st |-> s]
Refuse(s)       == [out |-> [res |-> "rejected", calls |-> 0, val |-> ""], st |-> s]

Add(s, q, new) == IF AllGood(q) THEN Ok(new, Calls(Len(q)), "") ELSE Refuse(s)

Step(s, op) ==
    LET n == Len(s) IN
    CASE op.op = "append" -> Add(s, <<op.e>>, Append(s, Conv(op.e)))
      [] op.op = "insert" -> LET i == Clamp(Norm(op.i, n), 0, n)
                             IN Add(s, <<op.e>>, InsertAt(s, i, <<Conv(op.e)>>))
      [] op.op \in {"extend", "iadd"} -> Add(s, op.q, s \o ConvAll(op.q))
      [] op.op \in {"extend_self", "iadd_self"} -> Ok(s \o s, Calls(n), "")
      [] op.op = "setitem" -> IF ~InRange(op.i, n) THEN Refuse(s)
                              ELSE Add(s, <<op.e>>, [s EXCEPT ![Norm(op.i, n) + 1] = Conv(op.e)])
      [] op.op = "setslice" -> IF ~SliceFits(s, op.sl, op.q) THEN Refuse(s)
                               ELSE Add(s, op.q, SetSlice(s, op.sl, ConvAll(op.q)))
      [] op.op = "delitem" -> IF InRange(op.i, n) THEN Ok(CutSeq(s, <<Norm(op.i, n)>>), 0, "")
                              ELSE Refuse(s)
      [] op.op = "delslice" -> Ok(CutSeq(s, Idx(op.sl, n)), 0, "")
      [] op.op = "pop" -> IF InRange(op.i, n)
                          THEN Ok(CutSeq(s, <<Norm(op.i, n)>>), 0, s[Norm(op.i, n) + 1])
                          ELSE Refuse(s)
      [] op.op = "remove" -> IF \E i \in DOMAIN s : s[i] = op.e
                             THEN Ok(CutSeq(s, <<FirstAt(s, op.e) - 1>>), 0, "") ELSE Refuse(s)
      [] op.op = "clear" -> Ok(<<>>, 0, "")
      [] op.op = "reverse" -> Ok(Reverse(s), 0, "")
      [] op.op = "imul" -> Ok(IF op.i <= 0 THEN <<>> ELSE IF op.i = 1 THEN s ELSE s \o s, 0, "")
      [] op.op = "rebuild" -> Add(s, op.q, ConvAll(op.q))

Args == UNION {[1..m -> Elem] : m \in 0..MaxArg}
Ints == -(MaxLen + 1)..(MaxLen + 1)
Slices == {<<None, None, 1>>, <<0, 0, 1>>, <<1, 2, 1>>, <<1, None, 1>>, <<-1, None, 1>>,
           <<2, 1, 1>>, <<-2, -1, 1>>, <<5, 9, 1>>, <<None, None, 2>>, <<1, None, 2>>,
           <<None, None, -1>>, <<None, 0, -1>>}
Ops == {[op |-> "append", e |-> e] : e \in Elem}
       \cup {[op |-> "insert", i |-> i, e |-> e] : i \in Ints, e \in Elem}
       \cup {[op |-> o, q |-> q] : o \in {"extend", "iadd", "rebuild"}, q \in Args}
       \cup {[op |-> "setitem", i |-> i, e |-> e] : i \in Ints, e \in Elem}
       \cup {[op |-> "setslice", sl |-> sl, q |-> q] : sl \in Slices, q \in Args}
       \cup {[op |-> o, i |-> i] : o \in {"delitem", "pop"}, i \in Ints}
       \cup {[op |-> "delslice", sl |-> sl] : sl \in Slices}
       \cup {[op |-> "remove", e |-> e] : e \in Elem \cup {"k"}}
       \cup {[op |-> "imul", i |-> i] : i \in -1..2}
       \cup {[op |-> o] : o \in {"clear", "reverse", "extend_self", "iadd_self"}}

VARIABLE st
Init == st = <<>>
Next == \E op \in Ops :
          LET r == Step(st, op) IN
          /\ Len(r.st) <= MaxLen
          /\ st' = r.st
          /\ PrintT("EDGE " \o ToJson([from |-> st, to |-> r.st, op |-> op, out |-> r.out]))
Spec == Init /\ [][Next]_st

InvAdmitted == \A i \in DOMAIN st : AllowedType(st[i]) /\ (Hook => st[i] \notin {"c", "boom"})
InvRefused  == \A op \in Ops : Step(st, op).out.res = "rejected" => Step(st, op).st = st
=============================================================================
