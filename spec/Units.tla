------------------------------- MODULE Units -------------------------------
(* Unit expressions.  The meaning of a unit is an element of the free       *)
(* abelian group over the base dimensions and the primes (pi and -1 added): *)
(* multiplying units adds, powers multiply, so equality is exact.           *)
(* Exponents are counted in halves.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

\* ------------------------------------------------------------ vectors: finite functions key -> Int
Zero == [x \in {} |-> 0]
At(v, k) == IF k \in DOMAIN v THEN v[k] ELSE 0
Trim(v) == [k \in {d \in DOMAIN v : v[d] # 0} |-> v[k]]
Plus(v, w) == Trim([k \in DOMAIN v \cup DOMAIN w |-> At(v, k) + At(w, k)])
Times(n, v) == Trim([k \in DOMAIN v |-> n * v[k]])
Single(k) == [x \in {k} |-> 1]
RECURSIVE SumVec(_)
SumVec(q) == IF q = <<>> THEN Zero ELSE Plus(Head(q), SumVec(Tail(q)))
RECURSIVE FacFrom(_, _)
FacFrom(n, p) == IF n = 1 THEN Zero
                 ELSE IF p * p > n THEN Single(ToString(n))
                 ELSE IF n % p = 0 THEN Plus(Single(ToString(p)), FacFrom(n \div p, p)) ELSE FacFrom(n, p + 1)
N(n) == FacFrom(n, 2)                                    \* a whole number
Ten(e) == Times(e, Plus(Single("2"), Single("5")))       \* a power of ten
Inv(v) == Times(-1, v)
Pow(v, n) == Times(n, v)
Mul(q) == SumVec(q)

\* ------------------------------------------------------------ units (their definitions in the SI)
m == Single("m")  s == Single("s")  kg == Single("kg")  A == Single("A")  cd == Single("cd")
mol == Single("mol")  K == Single("K")  rad == Single("rad")  bit == Single("bit")  count == Single("count")
pi == Single("pi")
g == Mul(<<kg, Ten(-3)>>)
newton == Mul(<<kg, m, Pow(s, -2)>>)
joule == Mul(<<newton, m>>)
watt == Mul(<<joule, Inv(s)>>)
pascal == Mul(<<newton, Pow(m, -2)>>)
coulomb == Mul(<<A, s>>)
volt == Mul(<<joule, Inv(coulomb)>>)
ohm == Mul(<<volt, Inv(A)>>)
weber == Mul(<<volt, s>>)
minute == Mul(<<N(60), s>>)
hour == Mul(<<N(60), minute>>)
day == Mul(<<N(24), hour>>)
inch == Mul(<<N(254), Ten(-4), m>>)
foot == Mul(<<N(12), inch>>)
yard == Mul(<<N(3), foot>>)
mile == Mul(<<N(1760), yard>>)
liter == Mul(<<Ten(-3), Pow(m, 3)>>)
pound == Mul(<<N(45359237), Ten(-8), kg>>)
ounce == Mul(<<pound, Inv(N(16))>>)
degree == Mul(<<pi, Inv(N(180)), rad>>)
turn == Mul(<<N(2), pi, rad>>)
calorie == Mul(<<N(4184), Ten(-3), joule>>)
atm == Mul(<<N(101325), pascal>>)
gravity == Mul(<<N(980665), Ten(-5), m, Pow(s, -2)>>)
lbf == Mul(<<pound, gravity>>)
\* name, vector, spellings that stand alone, spellings a long or a short prefix may precede
U(n, v, alone, long, short) == [name |-> n, vec |-> v, alone |-> alone, long |-> long, short |-> short, off |-> FALSE]
Off(n, v, alone) == [name |-> n, vec |-> v, alone |-> alone, long |-> {}, short |-> {}, off |-> TRUE]
Table == {
  U("meter", m, {"Meter"}, {"meter", "metre", "meters", "metres"}, {"m"}),
  U("second", s, {"Second", "sec", "Seconds"}, {"second", "seconds"}, {"s"}),
  U("gram", g, {"Gram"}, {"gram", "grams"}, {"g"}),
  U("ampere", A, {"amp", "Ampere"}, {"ampere", "amperes"}, {"A"}),
  U("candela", cd, {"candle", "Candela", "cd"}, {"candela"}, {}),
  U("mole", mol, {"Mole", "moles"}, {"mole", "moles"}, {"mol"}),
  U("radian", rad, {"Radian"}, {"radian", "radians"}, {"rad"}),
  U("bit", bit, {"Bit"}, {"bit", "bits"}, {}),
  U("count", count, {"Count", "counts"}, {"count"}, {}),
  U("newton", newton, {"Newton"}, {"newton", "newtons"}, {"N"}),
  U("joule", joule, {"Joule"}, {"joule", "joules"}, {"J"}),
  U("watt", watt, {"Watt"}, {"watt", "watts"}, {"W"}),
  U("pascal", pascal, {"Pascal"}, {"pascal", "pascals"}, {"Pa"}),
  U("coulomb", coulomb, {"Coulomb"}, {"coulomb"}, {"C"}),
  U("volt", volt, {"Volt"}, {"volt", "volts"}, {"V"}),
  U("ohm", ohm, {"Ohm"}, {"ohm", "ohms"}, {}),
  U("siemens", Inv(ohm), {"mho", "Siemens"}, {"siemens"}, {"S"}),
  U("farad", Mul(<<coulomb, Inv(volt)>>), {}, {"farad"}, {"F"}),
  U("weber", weber, {"Weber"}, {"weber"}, {"Wb"}),
  U("henry", Mul(<<weber, Inv(A)>>), {"Henry"}, {"henry"}, {"H"}),
  U("tesla", Mul(<<weber, Pow(m, -2)>>), {"Tesla"}, {"tesla"}, {"T"}),
  U("hertz", Inv(s), {"Hertz"}, {"hertz"}, {"Hz"}),
  U("liter", liter, {"Liter", "Litre"}, {"liter", "litre", "liters"}, {"L", "l"}),
  U("bar", Mul(<<Ten(5), pascal>>), {"Bar"}, {"bar"}, {}),
  U("electron_volt", Mul(<<N(1602176634), Ten(-28), joule>>), {}, {"electron_volt"}, {"eV"}),
  U("calorie", calorie, {"Calorie"}, {"calorie", "calories"}, {"cal"}),
  U("poise", Mul(<<Ten(-1), pascal, s>>), {"Poise"}, {"poise"}, {"P"}),
  U("molar", Mul(<<mol, Inv(liter)>>), {}, {"molar"}, {"M"}),
  U("byte", Mul(<<N(8), bit>>), {"Byte", "octet", "B"}, {"byte", "bytes"}, {}),
  U("lumen", Mul(<<cd, Pow(rad, 2)>>), {}, {"lumen"}, {"lm"}),
  U("lux", Mul(<<cd, Pow(rad, 2), Pow(m, -2)>>), {}, {"lux"}, {"lx"}),
  U("becquerel", Mul(<<count, Inv(s)>>), {"Becquerel"}, {"becquerel"}, {"Bq"}),
  U("gray", Mul(<<joule, Inv(kg)>>), {"Gray"}, {"gray"}, {"Gy"}),
  U("katal", Mul(<<mol, Inv(s)>>), {"Katal"}, {"katal"}, {"kat"}),
  U("steradian", Pow(rad, 2), {"sr", "Steradian", "steradian"}, {}, {}),
  U("minute", minute, {"minute", "min", "minutes", "Minute"}, {}, {}),
  U("hour", hour, {"hour", "hr", "hours", "Hour"}, {}, {}),
  U("day", day, {"day", "d", "days", "Day"}, {}, {}),
  U("week", Mul(<<N(7), day>>), {"week", "weeks", "Week"}, {}, {}),
  U("year", Mul(<<N(36525), Ten(-2), day>>), {"year", "yr", "julian_year", "years"}, {}, {}),
  U("degree", degree, {"degree", "deg", "degrees", "arcdeg"}, {}, {}),
  U("arcminute", Mul(<<degree, Inv(N(60))>>), {"arcminute", "arcmin", "angular_minute"}, {}, {}),
  U("arcsecond", Mul(<<degree, Inv(N(3600))>>), {"arcsecond", "arcsec"}, {}, {}),
  U("turn", turn, {"turn", "revolution", "cycle", "circle"}, {}, {}),
  U("revolutions_per_minute", Mul(<<turn, Inv(minute)>>), {"rpm", "revolutions_per_minute", "RPM"}, {}, {}),
  U("counts_per_second", Mul(<<count, Inv(s)>>), {"cps", "counts_per_second"}, {}, {}),
  U("inch", inch, {"inch", "in", "inches"}, {}, {}),
  U("foot", foot, {"foot", "ft", "feet"}, {}, {}),
  U("yard", yard, {"yard", "yd", "yards"}, {}, {}),
  U("mile", mile, {"mile", "mi", "miles"}, {}, {}),
  U("angstrom", Mul(<<Ten(-10), m>>), {"angstrom", "Angstrom"}, {}, {}),
  U("micron", Mul(<<Ten(-6), m>>), {"micron", "Micron", "microns"}, {}, {}),
  U("nautical_mile", Mul(<<N(1852), m>>), {"nautical_mile", "nmi"}, {}, {}),
  U("hectare", Mul(<<Ten(4), Pow(m, 2)>>), {"hectare", "ha", "Hectare"}, {}, {}),
  U("barn", Mul(<<Ten(-28), Pow(m, 2)>>), {"barn", "b"}, {}, {}),
  U("cubic_centimeter", Mul(<<Ten(-6), Pow(m, 3)>>), {"cubic_centimeter", "cc"}, {}, {}),
  U("pound", pound, {"pound", "lb", "pounds", "lbs"}, {}, {}),
  U("ounce", ounce, {"ounce", "oz", "ounces"}, {}, {}),
  U("metric_ton", Mul(<<Ten(3), kg>>), {"metric_ton", "tonne"}, {}, {}),
  U("carat", Mul(<<N(2), Ten(-4), kg>>), {"carat", "karat"}, {}, {}),
  U("dyne", Mul(<<Ten(-5), newton>>), {"dyne", "dyn", "Dyne"}, {}, {}),
  U("erg", Mul(<<Ten(-7), joule>>), {"erg", "ergs"}, {}, {}),
  U("force_pound", lbf, {"force_pound", "lbf", "pound_force"}, {}, {}),
  U("force_kilogram", Mul(<<kg, gravity>>), {"force_kilogram", "kgf", "kilogram_force"}, {}, {}),
  U("watt_hour", Mul(<<watt, hour>>), {"watt_hour", "Wh", "watthour"}, {}, {}),
  U("ampere_hour", Mul(<<A, hour>>), {"ampere_hour", "Ah"}, {}, {}),
  U("standard_atmosphere", atm, {"atm", "atmosphere", "standard_atmosphere"}, {}, {}),
  U("torr", Mul(<<atm, Inv(N(760))>>), {"torr", "Torr"}, {}, {}),
  U("pound_force_per_square_inch", Mul(<<lbf, Pow(inch, -2)>>), {"psi", "PSI", "pound_force_per_square_inch"}, {}, {}),
  U("british_thermal_unit", Mul(<<N(1055056), Ten(-3), joule>>), {"Btu", "BTU", "british_thermal_unit"}, {}, {}),
  U("stokes", Mul(<<Ten(-4), Pow(m, 2), Inv(s)>>), {"stokes", "St"}, {}, {}),
  U("mile_per_hour", Mul(<<mile, Inv(hour)>>), {"mph", "mile_per_hour", "miles_per_hour"}, {}, {}),
  U("curie", Mul(<<N(37), Ten(9), count, Inv(s)>>), {"Ci", "curie"}, {}, {}),
  U("enzyme_unit", Mul(<<Ten(-6), mol, Inv(minute)>>), {"enzyme_unit", "U"}, {}, {}),
  U("kelvin", K, {"kelvin", "Kelvin", "degK"}, {"kelvin"}, {"K"}),
  U("percent", Ten(-2), {"percent", "pct", "%"}, {}, {}),
  U("permille", Ten(-3), {"permille", "parts_per_thousand"}, {}, {}),
  U("parts_per_million", Ten(-6), {"parts_per_million", "ppm"}, {}, {}),
  U("mooney", Single("mooney"), {"mooney", "Mooney"}, {}, {}),
  Off("degree_Celsius", K, {"degC", "celsius", "Celsius", "degree_Celsius", "degreeC"}),
  Off("degree_Fahrenheit", Mul(<<N(5), Inv(N(9)), K>>), {"degF", "fahrenheit", "degree_Fahrenheit"}),
  Off("degree_Reaumur", Mul(<<N(4), Inv(N(5)), K>>), {"degRe", "reaumur", "degree_Reaumur"}),
  U("degree_Rankine", Mul(<<N(5), Inv(N(9)), K>>), {"degR", "rankine", "degree_Rankine"}, {}, {}) }
Names == {u.name : u \in Table}
ASSUME Cardinality(Names) = Cardinality(Table)
Def == [n \in Names |-> CHOOSE u \in Table : u.name = n]
Base == [m |-> "meter", s |-> "second", kg |-> "kilogram", A |-> "ampere", cd |-> "candela", mol |-> "mole",
         K |-> "kelvin", rad |-> "radian", bit |-> "bit", count |-> "count", mooney |-> "mooney"]
Dims == DOMAIN Base
DimOf(v) == [k \in DOMAIN v \cap Dims |-> v[k]]

UnitPrefix == [none |-> Zero, nano |-> Ten(-9), micro |-> Ten(-6), milli |-> Ten(-3), centi |-> Ten(-2),
             deci |-> Ten(-1), hecto |-> Ten(2), kilo |-> Ten(3), mega |-> Ten(6), giga |-> Ten(9),
             pico |-> Ten(-12), tera |-> Ten(12), kibi |-> N(1024)]
PrefixShort == [nano |-> {"n"}, micro |-> {"u"}, milli |-> {"m"}, centi |-> {"c"}, deci |-> {"d"}, hecto |-> {"h"},
                kilo |-> {"k"}, mega |-> {"M"}, giga |-> {"G"}, pico |-> {"p"}, tera |-> {"T"}, kibi |-> {"Ki"}]

\* scaling factors: the spellings that denote the same one
Scales == [none |-> [v |-> Zero, as |-> {""}],
           p2 |-> [v |-> N(2), as |-> {"2", "+2", "2.", "--2", "- -2"}],
           p5 |-> [v |-> N(5), as |-> {"5", "+5", "5."}],
           p15 |-> [v |-> N(15), as |-> {"15", "1_5", "+ 15"}],
           p100 |-> [v |-> N(100), as |-> {"100", "1_00", "100."}],
           h |-> [v |-> Inv(N(2)), as |-> {"0.5", ".5", "+.5"}],
           q |-> [v |-> Mul(<<N(5), Inv(N(2))>>), as |-> {"2.5", "+2.5", "--2.5"}],
           e3 |-> [v |-> Ten(3), as |-> {"1e3", "10^3", "10**3", "1e+3", "1*10^3", "10 ** +3", "1.e3"}],
           e_4 |-> [v |-> Ten(-4), as |-> {"1e-4", "10^-4", "10**-4", "1 * 10 ** -4"}],
           s2 |-> [v |-> Mul(<<N(307)>>), as |-> {"3.07e2", "3.07*10^2", "3.07 * 10**2", "3.07e+2"}],
           t |-> [v |-> Mul(<<N(25), Ten(-1)>>), as |-> {"25e-1", "25*10^-1", "2_5e-1"}],
           neg |-> [v |-> Mul(<<Single("neg"), N(2)>>), as |-> {"-2", "- 2", "-+2", "-2."}],
           negh |-> [v |-> Mul(<<Single("neg"), Inv(N(2))>>), as |-> {"-.5", "-0.5"}],
           d6 |-> [v |-> Mul(<<N(2123456), Ten(-6)>>), as |-> {"2.123456", "+2.123456"}],
           d9 |-> [v |-> Mul(<<N(100000007), Ten(-9)>>), as |-> {"0.100000007", ".100000007"}],
           w |-> [v |-> N(1234567), as |-> {"1234567", "1_234_567", "1234567."}],
           e23 |-> [v |-> Mul(<<N(602214), Ten(18)>>), as |-> {"6.02214e23", "6.02214*10^23", "6.02214e+23"}],
           e_19 |-> [v |-> Mul(<<N(160218), Ten(-24)>>), as |-> {"1.60218e-19", "1.60218*10^-19"}],
           one |-> [v |-> Zero, as |-> {"1", "1.0", "+1", "1e0"}]]

\* ------------------------------------------------------------ expressions
\* An item is [op, sc, pre, u, k] (k in halves) or a group [op, k, in: sequence of items]; the operator says
\* whether it multiplies ("*", or " " for juxtaposition) or divides what is on its left.
Sign(it) == IF it.op = "/" THEN -1 ELSE 1
\* atoms: what the canonical form keeps apart
Atom(it) == IF it.sc = "one" THEN [sc |-> "none", pre |-> it.pre, u |-> it.u]
            ELSE [sc |-> it.sc, pre |-> it.pre, u |-> it.u]
IsNothing(a) == a.u = "" /\ a.sc = "none"
AtomVec(a) == Mul(<<Scales[a.sc].v, UnitPrefix[a.pre], IF a.u = "" THEN Zero ELSE Def[a.u].vec>>)
RECURSIVE CanonSeq(_, _)
CanonSeq(q, k) == IF q = <<>> THEN Zero
                  ELSE Plus(IF "in" \in DOMAIN Head(q)
                            THEN CanonSeq(Head(q).in, (k * Sign(Head(q)) * Head(q).k) \div 2)
                            ELSE IF IsNothing(Atom(Head(q))) THEN Zero
                            ELSE Times(k * Sign(Head(q)) * Head(q).k, Single(Atom(Head(q)))),
                            CanonSeq(Tail(q), k))
\* in halves, doubled once more so that groups with half exponents stay whole
Canon(q) == CanonSeq(q, 2)                                   \* exponents in quarters
RECURSIVE MeanSet(_, _)
MeanSet(c, S) == IF S = {} THEN Zero
                 ELSE LET a == CHOOSE x \in S : TRUE IN Plus(Times(c[a], AtomVec(a)), MeanSet(c, S \ {a}))
Even(v) == IF "neg" \in DOMAIN v THEN Trim([v EXCEPT !["neg"] = @ % 8]) ELSE v      \* (-1)^2 = 1
Meaning(q) == LET c == Canon(q) IN Even(MeanSet(c, DOMAIN c))

\* ------------------------------------------------------------ the algebra, over a small universe
S1 == {[op |-> o, sc |-> x, pre |-> "none", u |-> n, k |-> k]
       : o \in {"*", "/"}, x \in {"none", "q", "e3"}, n \in {"meter", "second"}, k \in {1, 2, -2, 4}}
Neg(it) == [it EXCEPT !.op = IF it.op = "/" THEN "*" ELSE "/"]
ASSUME \A a \in S1 : Canon(<<a, Neg(a)>>) = Zero
ASSUME \A a, b \in S1 : /\ Canon(<<a, b>>) = Canon(<<b, a>>)
                        /\ Meaning(<<a, b>>) = Even(Plus(Meaning(<<a>>), Meaning(<<b>>)))
ASSUME \A a, b \in S1 : Canon(<<a, [op |-> "/", k |-> 2, in |-> <<b>>]>>) = Canon(<<a, Neg(b)>>)
ASSUME /\ Plus(Def["watt_hour"].vec, Inv(joule)) = N(3600)
       /\ Def["liter"].vec = Plus(Def["cubic_centimeter"].vec, Ten(3))
       /\ DimOf(Def["torr"].vec) = DimOf(pascal) /\ DimOf(Def["hertz"].vec) # DimOf(Def["becquerel"].vec)

\* ------------------------------------------------------------ tables for the harness
UnitRows == {[kind |-> "unit", name |-> u.name, alone |-> u.alone, long |-> u.long, short |-> u.short, off |-> u.off]
             : u \in Table}
MetaRow == [kind |-> "meta", base |-> Base, short |-> PrefixShort, scales |-> [x \in DOMAIN Scales |-> Scales[x].as]]
Query == IF IOEnv.QUERY = "" THEN <<>> ELSE TLCEval(ndJsonDeserialize(IOEnv.QUERY))
\* An offset unit (a temperature scale) is that scale only where it stands alone; in a product it is a difference.
RECURSIVE Lone(_)
Lone(q) == Len(q) = 1 /\ Head(q).k = 2 /\ IF "in" \in DOMAIN Head(q) THEN Lone(Head(q).in)
                                          ELSE Head(q).sc \in {"none", "one"}
Shown(q, a) == IF a.u # "" /\ a.sc = "none" /\ Def[a.u].off /\ ~Lone(q) THEN "difference" ELSE a.pre
Answer(q) == LET c == Canon(q)  v == Even(MeanSet(c, DOMAIN c)) IN
             [kind |-> "expr", canon |-> {<<a.sc, Shown(q, a), a.u, c[a]>> : a \in DOMAIN c}, lone |-> Lone(q),
              dims |-> DimOf(v), num |-> [k \in DOMAIN v \ Dims |-> v[k]]]

\* ------------------------------------------------------------ conversion
\* zero of a temperature scale, in kelvin
ZeroPoint == [degree_Celsius |-> Mul(<<N(27315), Ten(-2)>>), degree_Reaumur |-> Mul(<<N(27315), Ten(-2)>>),
              degree_Fahrenheit |-> Mul(<<N(45967), Ten(-2), N(5), Inv(N(9))>>)]
ScaleOf(q) == IF ~Lone(q) THEN "" ELSE LET c == Canon(q) IN
                LET a == CHOOSE x \in DOMAIN c : TRUE IN IF Def[a.u].off THEN a.u ELSE ""
HasOffset(q) == \E a \in DOMAIN Canon(q) : a.u # "" /\ Def[a.u].off
\* a value x in unit a is (x * f_a + z_a - z_b) / f_b in unit b; a temperature scale and a temperature
\* difference are not the same kind of thing, so that case is left open
Convert(a, b) ==
    LET va == Meaning(a)  vb == Meaning(b) IN
    [kind |-> "convert",
     ok |-> IF DimOf(va) # DimOf(vb) THEN "refused"
            ELSE IF (ScaleOf(a) # "" /\ ScaleOf(b) = "" /\ HasOffset(b))
                    \/ (ScaleOf(b) # "" /\ ScaleOf(a) = "" /\ HasOffset(a)) THEN "open" ELSE "ok",
     fa |-> [k \in DOMAIN va \ Dims |-> va[k]], fb |-> [k \in DOMAIN vb \ Dims |-> vb[k]],
     ratio |-> LET v == Even(Plus(va, Inv(vb))) IN [k \in DOMAIN v \ Dims |-> v[k]],
     dims |-> DimOf(va),
     za |-> IF ScaleOf(a) = "" THEN Zero ELSE Pow(ZeroPoint[ScaleOf(a)], 4), hasza |-> ScaleOf(a) # "",
     zb |-> IF ScaleOf(b) = "" THEN Zero ELSE Pow(ZeroPoint[ScaleOf(b)], 4), haszb |-> ScaleOf(b) # ""]
ASSUME ndJsonSerialize(IOEnv.OUT, IF Query = <<>> THEN <<MetaRow>> \o SetToSeq(UnitRows)
                                  ELSE [i \in DOMAIN Query |-> IF "b" \in DOMAIN Query[i] THEN Convert(Query[i].a, Query[i].b)
                                                             ELSE Answer(Query[i].e)])
=============================================================================
