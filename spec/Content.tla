------------------------------- MODULE Content -------------------------------
(* Well-formed content of categorical, composition and structure values and *)
(* bounds: for each kind of content, is it accepted, what is stored, and    *)
(* which labels does it count as.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

\* ------------------------------------------------------------ probabilities
\* tenths per label; Tiny is a rounding error, Off a real one
Labels == {"a", "b", "c"}
Weights == {1, 2, 3, 5, 7, 10}
Dists == UNION {[S -> Weights] : S \in SUBSET Labels}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Total(f) == SumOf(f, DOMAIN f)
Twist == {"no", "tiny", "off", "nan", "key"}   \* perturbation of one entry, or a non-string label
ProbOk(f, t) == Total(f) = 10 /\ DOMAIN f # {} /\ t \in {"no", "tiny"}
ProbRows == {[kind |-> "probabilities", pairs |-> {<<k, f[k]>> : k \in DOMAIN f}, twist |-> t, ok |-> ProbOk(f, t),
              labels |-> DOMAIN f] : f \in {g \in Dists : DOMAIN g # {}}, t \in Twist}

\* ------------------------------------------------------------ label collections
Elem == {"a", "b", "nonstring"}
Shapes == {"list", "tuple", "set"}
LabelRows == {[kind |-> "labels", shape |-> sh, items |-> q, ok |-> "nonstring" \notin {q[i] : i \in DOMAIN q},
               labels |-> {q[i] : i \in DOMAIN q} \ {"nonstring"}]
              : sh \in Shapes, q \in UNION {[1..n -> Elem] : n \in 0..3}}

\* ------------------------------------------------------------ chemical formulas
Elements == {"H","D","T","He","Li","Be","B","C","N","O","F","Ne","Na","Mg","Al","Si","P","S","Cl","Ar","K","Ca",
  "Sc","Ti","V","Cr","Mn","Fe","Co","Ni","Cu","Zn","Ga","Ge","As","Se","Br","Kr","Rb","Sr","Y","Zr","Nb","Mo","Tc",
  "Ru","Rh","Pd","Ag","Cd","In","Sn","Sb","Te","I","Xe","Cs","Ba","Hf","Ta","W","Re","Os","Ir","Pt","Au","Hg","Tl",
  "Pb","Bi","Po","At","Rn","Fr","Ra","Rf","Db","Sg","Bh","Hs","Mt","Ds","Rg","Cn","Nh","Fl","Mc","Lv","Ts","Og",
  "La","Ce","Pr","Nd","Pm","Sm","Eu","Gd","Tb","Dy","Ho","Er","Tm","Yb","Lu","Ac","Th","Pa","U","Np","Pu","Am","Cm",
  "Bk","Cf","Es","Fm","Md","No","Lr"}
ASSUME Cardinality(Elements) = 120    \* 118 elements, deuterium and tritium
Up == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Low == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Symbols == Up \cup {u \o l : u \in Up, l \in Low}
FormulaRow(q) == [kind |-> "formula", syms |-> q, ok |-> \A i \in DOMAIN q : q[i] \in Elements,
                  labels |-> {q[i] : i \in DOMAIN q}]
Some == {"H", "Na", "Cl", "He", "X", "Zz", "Nax", "Cly"}
FormulaRows == {FormulaRow(<<s>>) : s \in Symbols} \cup {FormulaRow(q) : q \in UNION {[1..n -> Some] : n \in 2..3}}

\* ------------------------------------------------------------ InChI strings
\* A leading "1S/" stands for "InChI=1S/"; the word InChI is put in its proper case; a string that
\* has neither gets "InChI=1S/"; everything after that is kept.
Heads == {[given |-> "InChI=1S/", stored |-> "InChI=1S/"], [given |-> "InChI=1/", stored |-> "InChI=1/"],
          [given |-> "1S/", stored |-> "InChI=1S/"], [given |-> "1s/", stored |-> "InChI=1S/"],
          [given |-> "", stored |-> "InChI=1S/"], [given |-> "inchi=1S/", stored |-> "InChI=1S/"],
          [given |-> "INCHI=1S/", stored |-> "InChI=1S/"], [given |-> "InCHi=1/", stored |-> "InChI=1/"]}
Bodies == {"CH4/h1H4", "C2H6O/c1-2-3/h3H,2H2,1H3", "H2O/h1H2/inchi", "C8H8/INCHI=1S/1s/", "CO2/c2-1-3 1S/ inChI"}
InchiRows == {[kind |-> "inchi", given |-> h.given \o b, stored |-> h.stored \o b, ok |-> TRUE, labels |-> {}]
              : h \in Heads, b \in Bodies}
\* storing what was stored changes nothing
ASSUME \A h \in Heads : \E g \in Heads : g.given = h.stored /\ g.stored = h.stored

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(ProbRows) \o SetToSeq(LabelRows) \o SetToSeq(FormulaRows)
                                  \o SetToSeq(InchiRows))
=============================================================================
