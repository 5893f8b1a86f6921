------------------------------- MODULE Bounds -------------------------------
(* Bounds and what lies within them; merging.                               *)
(* A real interval is a pair of integers in a unit; a unit maps its number  *)
(* n to n * a + c in the integer base scale of its dimension, so that every *)
(* comparison across units is exact.  Integer intervals are over ranks (the *)
(* harness maps ranks monotonically to concrete integers), categories and   *)
(* components are sets of labels.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* ------------------------------------------------------------------ units
U == [ m |-> [d |-> "length", a |-> 10000, c |-> 0], cm |-> [d |-> "length", a |-> 100, c |-> 0],
       mm |-> [d |-> "length", a |-> 10, c |-> 0], inch |-> [d |-> "length", a |-> 254, c |-> 0],
       K |-> [d |-> "temperature", a |-> 900, c |-> 0],
       degC |-> [d |-> "temperature", a |-> 900, c |-> 245835],
       degF |-> [d |-> "temperature", a |-> 500, c |-> 229835],
       none |-> [d |-> "number", a |-> 1000000, c |-> 0],
       percent |-> [d |-> "number", a |-> 10000, c |-> 0],
       ppm |-> [d |-> "number", a |-> 1, c |-> 0],
       count |-> [d |-> "count", a |-> 1, c |-> 0],
       radian |-> [d |-> "angle", a |-> 206265, c |-> 0],
       degree |-> [d |-> "angle", a |-> 3600, c |-> 0],
       bit |-> [d |-> "information", a |-> 1, c |-> 0], byte |-> [d |-> "information", a |-> 8, c |-> 0],
       g |-> [d |-> "mass", a |-> 1, c |-> 0], kg |-> [d |-> "mass", a |-> 1000, c |-> 0],
       mole |-> [d |-> "amount", a |-> 1, c |-> 0],
       speed |-> [d |-> "speed", a |-> 36, c |-> 0], kmh |-> [d |-> "speed", a |-> 10, c |-> 0] ]

\* Units whose numbers below convert without rounding
Exact == {{"m", "cm", "mm"}, {"none", "percent"}, {"bit", "byte"}, {"g", "kg"}}
Numbers == [ m |-> {-1, 0, 1, 2}, cm |-> {-100, 0, 99, 100, 101, 200}, mm |-> {1000, 2000},
             inch |-> {-40, 0, 39, 40, 79}, K |-> {0, 273, 274, 373, 374}, degC |-> {-273, 0, 1, 100},
             degF |-> {-459, 32, 33, 212}, none |-> {0, 1, 2}, percent |-> {0, 50, 100, 200},
             ppm |-> {0, 999999, 1000001}, count |-> {0, 1}, radian |-> {0, 1, 2},
             degree |-> {0, 57, 58, 115}, bit |-> {0, 8, 9}, byte |-> {0, 1, 2}, g |-> {0, 1000, 1001},
             kg |-> {0, 1}, mole |-> {0, 1}, speed |-> {0, 1, 10}, kmh |-> {0, 3, 4, 36} ]

\* ------------------------------------------------------------------ items
Real(lo, hi, u) == [k |-> "real", lo |-> lo, hi |-> hi, u |-> u, s |-> {}]
Integ(lo, hi)     == [k |-> "int", lo |-> lo, hi |-> hi, u |-> "-", s |-> {}]
Cat(s)          == [k |-> "cat", lo |-> 0, hi |-> 0, u |-> "-", s |-> s]
Comp(s)         == [k |-> "comp", lo |-> 0, hi |-> 0, u |-> "-", s |-> s]
Mol             == [k |-> "mol", lo |-> 0, hi |-> 0, u |-> "-", s |-> {}]

Labels == {"Na", "Cl", "O"}
Reals == UNION {{Real(lo, hi, u) : <<lo, hi>> \in {p \in Numbers[u] \X Numbers[u] : p[1] <= p[2]}}
                : u \in DOMAIN U}
Ints  == {Integ(lo, hi) : <<lo, hi>> \in {p \in (0..4) \X (0..4) : p[1] <= p[2]}}
Sets  == {Cat(s) : s \in SUBSET Labels} \cup {Comp(s) : s \in SUBSET Labels} \cup {Mol}
Universe == Reals \cup Ints \cup Sets

\* ------------------------------------------------------------------ meaning
Base(u, n) == n * U[u].a + U[u].c
Lo(x) == IF x.k = "real" THEN Base(x.u, x.lo) ELSE x.lo
Hi(x) == IF x.k = "real" THEN Base(x.u, x.hi) ELSE x.hi
SameKind(a, b) == a.k = b.k /\ (a.k = "real" => U[a.u].d = U[b.u].d)

Covers(a, b) == SameKind(a, b) /\ CASE a.k \in {"real", "int"} -> Lo(a) <= Lo(b) /\ Hi(b) <= Hi(a)
                                     [] a.k = "mol" -> TRUE
                                     [] OTHER -> b.s \subseteq a.s

\* Equal endpoints in different units may differ by rounding: the answer is open
ExactPair(a, b) == a.u = b.u \/ \E g \in Exact : {a.u, b.u} \subseteq g
Touch(a, b) == a.k = "real" /\ Covers(a, b) /\ ~ExactPair(a, b)
               /\ \/ (Lo(a) = Lo(b) /\ ~(a.lo = 0 /\ b.lo = 0 /\ U[a.u].c = U[b.u].c))
                  \/ (Hi(a) = Hi(b) /\ ~(a.hi = 0 /\ b.hi = 0 /\ U[a.u].c = U[b.u].c))

\* ------------------------------------------------------------------ merging
Lesser(a, b) == IF a <= b THEN a ELSE b
Greater(a, b) == IF a >= b THEN a ELSE b
\* a merged item keeps its endpoints in the base scale of the target's unit
RECURSIVE MergeB(_, _)
MergeB(acc, q) == IF q = <<>> THEN acc
    ELSE MergeB([acc EXCEPT !.lo = Lesser(@, Lo(Head(q))), !.hi = Greater(@, Hi(Head(q))),
                            !.s = @ \cup Head(q).s], Tail(q))
Merge(t, q) == IF \A i \in DOMAIN q : SameKind(t, q[i])
               THEN [ok |-> TRUE, r |-> MergeB([t EXCEPT !.lo = Lo(t), !.hi = Hi(t)], q)]
               ELSE [ok |-> FALSE, r |-> t]

\* ------------------------------------------------------------------ laws
Laws(X) ==
    /\ \A a \in X : Covers(a, a)
    /\ \A a, b \in X : Covers(a, b) =>
          \A c \in X : Covers(b, c) => Covers(a, c)
    /\ \A a, b \in X : Covers(a, b) /\ Covers(b, a) =>
          Lo(a) = Lo(b) /\ Hi(a) = Hi(b) /\ a.s = b.s
BaseCovers(a, r) == \* r has base endpoints
    CASE a.k \in {"real", "int"} -> Lo(a) <= r.lo /\ r.hi <= Hi(a)
      [] OTHER -> r.s \subseteq a.s
Least(X) == \A a, b \in X : SameKind(a, b) =>
    LET r == Merge(a, <<b>>).r IN
      /\ r.lo <= Lo(a) /\ r.lo <= Lo(b) /\ r.hi >= Hi(a) /\ r.hi >= Hi(b)
      /\ (a.s \cup b.s) \subseteq r.s
      /\ \A c \in X : SameKind(a, c) /\ Covers(c, a) /\ Covers(c, b) => BaseCovers(c, r)
LawUniverse == Ints \cup Sets \cup {x \in Reals : x.u \in {"m", "cm", "inch", "count"}}

\* ------------------------------------------------------------------ tables
Uni == SetToSeq(Universe)
ContainsRows ==
    [i \in 1..Len(Uni) |->
       [x |-> Uni[i], yes |-> {j \in 1..Len(Uni) : Covers(Uni[i], Uni[j])},
        open |-> {j \in 1..Len(Uni) : Touch(Uni[i], Uni[j])}]]

MUReal == {Real(0, 1, "m"), Real(-3, -2, "m"), Real(-3, 5, "m"), Real(-450, 900, "cm"), Real(-20, 130, "degC"), Real(1, 2, "m"), Real(-100, 0, "cm"), Real(99, 101, "cm"), Real(39, 40, "inch"),
           Real(-40, 0, "inch"), Real(273, 374, "K"), Real(0, 100, "degC"), Real(-459, 33, "degF"),
           Real(0, 1, "none"), Real(50, 200, "percent"), Real(0, 1, "count"), Real(0, 0, "kg"),
           Real(0, 1, "byte"), Real(8, 9, "bit"), Real(3, 36, "kmh"), Real(1, 1, "speed"), Real(58, 115, "degree"),
           Real(1, 1, "radian")}
MU == MUReal \cup {Integ(0, 0), Integ(1, 3), Integ(2, 4), Cat({}), Cat({"Na"}), Cat({"Cl", "O"}), Comp({"Na", "O"}),
                   Comp({"Cl"}), Comp({}), Mol}
Row(t, q) == LET m == Merge(t, q) IN
    [t |-> t, q |-> q, ok |-> m.ok, s |-> m.r.s,
     lo |-> IF t.k = "real" THEN <<m.r.lo - U[t.u].c, U[t.u].a>> ELSE <<m.r.lo, 1>>,
     hi |-> IF t.k = "real" THEN <<m.r.hi - U[t.u].c, U[t.u].a>> ELSE <<m.r.hi, 1>>]
Seqs(n) == UNION {[1..k -> MU] : k \in 0..n}
\* longer merges: at most one item of another kind
Kin(t) == {x \in MU : SameKind(t, x)}
Long == UNION {{Row(t, q) : q \in [1..3 -> Kin(t)]} : t \in MU}
\* every relative position of the intervals of integers
Whole == UNION {[1..k -> Ints] : k \in 0..2}
MergeRows == SetToSeq({Row(t, q) : t \in MU, q \in Seqs(2)} \cup Long \cup {Row(t, q) : t \in Ints, q \in Whole})
=============================================================================
