------------------------------ MODULE Shapes ------------------------------
(* Every way to connect two processes, two materials, two ingredients and  *)
(* one measurement (or the corresponding specs): the heaps of all small    *)
(* histories, including cyclic ones, disconnected ones and shared parts.   *)
(* Nodes: 1,2 processes  3,4 materials  5,6 ingredients  7 measurement.    *)
EXTENDS Heap, Json, IOUtils, SequencesExt

Shape == {s \in [mp : [1..2 -> 0..2], ip : [1..2 -> 0..2], im : [1..2 -> 0..2], em : 0..2] :
            s.mp[1] # s.mp[2] \/ s.mp[1] = 0}     \* a process has one output material

A(n)    == [t |-> IF n = 0 THEN "prim" ELSE "ref", v |-> IF n = 0 THEN "none" ELSE "", r |-> n, s |-> ""]
Mat(x)  == IF x = 0 THEN 0 ELSE x + 2
Ordered(S, F(_)) == LET q == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
                  IN  [i \in DOMAIN q |-> F(q[i])]
HeapOf(s) ==
    [n \in 1..7 |->
       CASE n <= 2 -> [u |-> <<>>, f |-> <<>>,
                       b |-> [ingredients |-> Ordered({i \in 1..2 : s.ip[i] = n}, LAMBDA i : i + 4),
                              output_material |-> Ordered({m \in 1..2 : s.mp[m] = n}, LAMBDA m : m + 2)]]
         [] n \in 3..4 -> [u |-> <<>>, f |-> [process |-> A(s.mp[n - 2])],
                           b |-> [measurements |-> IF Mat(s.em) = n THEN <<7>> ELSE <<>>]]
         [] n \in 5..6 -> [u |-> <<>>, f |-> [process |-> A(s.ip[n - 4]), material |-> A(Mat(s.im[n - 4]))],
                           b |-> <<>>]
         [] OTHER -> [u |-> <<>>, f |-> [material |-> A(Mat(s.em))], b |-> <<>>]]

\* On every shape: references never form a cycle in the writable direction, being connected
\* is transitive (not symmetric: a material has no reverse link to the ingredients that use it,
\* a spec or template none to its users), and what is reachable is connected.
Sound(h) ==
    LET C == [i \in DOMAIN h |-> Conn(h, {i})] R == [i \in DOMAIN h |-> Reach(h, {i})]
    IN  /\ Acyclic(h)
        /\ \A i, j \in DOMAIN h : /\ j \in C[i] => C[j] \subseteq C[i]
                                  /\ j \in R[i] => R[j] \subseteq R[i]
                                  /\ R[i] \subseteq C[i]
Row(s) == LET h == HeapOf(s)
          IN  [shape |-> s, conn |-> [i \in 1..7 |-> Conn(h, {i})], reach |-> [i \in 1..7 |-> Reach(h, {i})]]
ASSUME \A s \in Shape : Assert(Sound(HeapOf(s)), s)
ASSUME LET q == SetToSeq(Shape) IN ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN q |-> Row(q[i])])
=============================================================================
