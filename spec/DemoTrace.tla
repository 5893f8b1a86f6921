----------------------------- MODULE DemoTrace -----------------------------
(* What the demonstrations make of their source data (gemd.demo): the table  *)
(* of semiconductors by Strehlow and Cook, ingested measurements of a        *)
(* material, rows of a table, and a bending test.  Each event of the log has *)
(* the source and what came of it.                                           *)
(* Numbers are given in millionths of the unit they are stated in.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Elems(q) == {q[i] : i \in DOMAIN q}
Bag(q)   == [x \in Elems(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE Head(q) \o Text(Tail(q))

\* ------------------------------------------------------------ formulas, a character at a time
Digits  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "."}
Letters == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U",
            "V", "W", "X", "Y", "Z", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
            "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Letter(c, i) == i >= 1 /\ i <= Len(c) /\ c[i] \in Letters
Ends(c, i)   == i > Len(c) \/ c[i] \in Letters        \* an amount may end before position i
\* an amount of one need not be written
Clean(c) == Flat([i \in DOMAIN c |->
                    IF c[i] = "1" /\ Letter(c, i - 1) /\ Ends(c, i + 1) THEN <<>> ELSE <<c[i]>>])
\* amounts of elements are subscripts
RunStart(c, i) == CHOOSE j \in 1..i : /\ \A x \in j..i : c[x] \in Digits
                                      /\ j = 1 \/ c[j - 1] \notin Digits
RunEnd(c, i)   == CHOOSE j \in i..Len(c) : /\ \A x \in i..j : c[x] \in Digits
                                           /\ j = Len(c) \/ c[j + 1] \notin Digits
Sub(c, i) == c[i] \in Digits /\ Letter(c, RunStart(c, i) - 1) /\ Ends(c, RunEnd(c, i) + 1)
Latex(c) == Flat([i \in DOMAIN c |->
                    IF ~ Sub(c, i) THEN <<c[i]>>
                    ELSE (IF RunStart(c, i) = i THEN <<"$_{">> ELSE <<>>) \o <<c[i]>>
                         \o (IF RunEnd(c, i) = i THEN <<"}$">> ELSE <<>>)])

\* ------------------------------------------------------------ Strehlow and Cook
Real == {"Band gap", "Temperature", "Temperature derivative of band gap"}
UnitOf == [n \in Real |-> CASE n = "Band gap" -> "electron_volt" [] n = "Temperature" -> "kelvin"
                            [] OTHER -> "electron_volt / kelvin"]
PropertyNames == {"Band gap", "Temperature derivative of band gap", "Color", "Lasing", "Cathodoluminescence",
                  "Mechanical luminescence", "Photoluminescence", "Electroluminescence", "Thermoluminescence"}
\* two columns of the source hold two attributes each
Phases == {"A", "B", "B1", "B2", "Fused quartz", "Natural diamond", "Rutile", "Sapphire", "Synthetic quartz"}
Transitions == {"Direct", "Excitonic", "Indirect"}
NameOf(a) == CASE a.name = "Phase" /\ a.cat \notin Phases -> "Crystal system"
               [] a.name = "Transition" /\ a.cat \notin Transitions -> "Bands"
               [] OTHER -> a.name
OriginOf(t) == CASE t = "EXPERIMENTAL" -> "measured" [] t = "COMPUTATIONAL" -> "computed" [] OTHER -> "unknown"
\* a band gap with an uncertainty is kept in attojoules; what it says is the same
ValueOf(a) == IF a.name \notin Real THEN [k |-> "NominalCategorical", cat |-> a.cat, num |-> 0, unc |-> 0, units |-> ""]
              ELSE IF a.unc < 0 THEN [k |-> "NominalReal", cat |-> "", num |-> a.num, unc |-> 0, units |-> a.units]
              ELSE [k |-> "NormalReal", cat |-> "", num |-> a.num, unc |-> a.unc,
                    units |-> IF a.units = "electron_volt" THEN "attojoule" ELSE a.units]
AttrOf(p, a) == [name |-> NameOf(a), tmpl |-> NameOf(a), value |-> ValueOf(a),
                 origin |-> OriginOf(p.type), notes |-> "Method: " \o p.method]
All(row) == Flat([i \in DOMAIN row.props |->
                    LET p == row.props[i]
                    IN  [j \in 1..(1 + Len(p.conds)) |-> IF j = 1 THEN AttrOf(p, p) ELSE AttrOf(p, p.conds[j - 1])]])
\* what is said first about an attribute stands
Firsts(q) == {q[i] : i \in {x \in DOMAIN q : \A y \in 1..(x - 1) : q[y].name # q[x].name}}
Props(row) == {a \in Firsts(All(row)) : a.name \in PropertyNames}
Conds(row) == {a \in Firsts(All(row)) : a.name \notin PropertyNames}

SacRow(row, o) ==
    {c \in {"name", "formula", "one_measurement", "properties", "conditions", "templates"} :
       ~ CASE c = "name" -> o.name = Text(Latex(Clean(row.formula))) /\ o.spec_name = o.name
           [] c = "formula" -> o.formula = <<Text(Clean(row.formula))>>
           [] c = "one_measurement" -> o.measurements = 1 /\ o.parameters = 0
           [] c = "properties" -> Elems(o.props) = Props(row) /\ Len(o.props) = Cardinality(Props(row))
           [] c = "conditions" -> Elems(o.conds) = Conds(row) /\ Len(o.conds) = Cardinality(Conds(row))
           [] OTHER -> o.misplaced = <<>>}
Sac(e) ==
    IF Len(e.out) # Len(e.rows) THEN {"one_run_per_row"}
    ELSE UNION {SacRow(e.rows[i], e.out[i]) : i \in DOMAIN e.rows}
         \cup {c \in {"spec_per_formula", "own_runs", "one_measurement_spec", "process_of_spec"} :
                 ~ CASE c = "spec_per_formula" -> \A i, j \in DOMAIN e.rows :
                          (e.out[i].spec = e.out[j].spec) <=> (Clean(e.rows[i].formula) = Clean(e.rows[j].formula))
                     [] c = "own_runs" -> \A i, j \in DOMAIN e.rows : i # j =>
                          {e.out[i].run, e.out[i].process, e.out[i].measurement}
                          \cap {e.out[j].run, e.out[j].process, e.out[j].measurement} = {}
                     [] c = "one_measurement_spec" -> \A i, j \in DOMAIN e.rows : e.out[i].measured_by = e.out[j].measured_by
                     [] OTHER -> \A i \in DOMAIN e.rows : e.out[i].process_spec = e.out[i].spec_process}

\* the structured table: a column for the name, one for the formula, one per attribute
Terms == <<"Band gap", "Temperature derivative of band gap", "Temperature", "Color", "Lasing", "Cathodoluminescence",
           "Mechanical luminescence", "Photoluminescence", "Electroluminescence", "Thermoluminescence", "Transition",
           "Bands", "Electric field polarization", "Crystallinity", "Morphology", "Phase", "Crystal system">>
Nothing == [k |-> "none", cat |-> "", num |-> 0, unc |-> 0, units |-> ""]
CellOf(row, t) == LET c == {a \in Firsts(All(row)) : a.name = t}
                  IN  IF c = {} THEN Nothing ELSE (CHOOSE a \in c : TRUE).value
Textual(k, t) == [k |-> k, cat |-> t, num |-> 0, unc |-> 0, units |-> ""]
TableRow(row) == <<Textual("str", Text(Latex(Clean(row.formula)))), Textual("EmpiricalFormula", Text(Clean(row.formula)))>>
                 \o [i \in DOMAIN Terms |-> CellOf(row, Terms[i])]
Headers == <<<<"Chemical", "Display name">>, <<"Chemical", "Formula">>>> \o [i \in DOMAIN Terms |-> <<"Chemical", Terms[i]>>]
Table(e) == {c \in {"headers", "rows"} :
               ~ CASE c = "headers" -> e.headers = Headers
                   [] OTHER -> e.content = [i \in DOMAIN e.pick |-> TableRow(e.rows[e.pick[i]])]}

\* the display table: text and numbers, in the units that the header gives
Display(e) ==
    LET head(t) == CASE t \in Real -> "Mean(" \o UnitOf[t] \o ")" [] OTHER -> "Category"
        titles == <<"Chemical~Display name~Label", "Chemical~Formula~Formula">>
                  \o Flat([i \in DOMAIN Terms |->
                             <<"Chemical~" \o Terms[i] \o "~" \o head(Terms[i])>>
                             \o (IF Terms[i] = "Band gap" THEN <<"Chemical~Band gap~Std Deviation(electron_volt)">> ELSE <<>>)])
        shown(v) == CASE v.k \in {"NominalReal", "NormalReal"} -> [num |-> v.num, cat |-> "number"]
                      [] OTHER -> [num |-> 0, cat |-> v.cat]
        spread(v) == IF v.k = "NormalReal" THEN [num |-> v.unc, cat |-> "number"] ELSE [num |-> 0, cat |-> ""]
        cells(row) == LET q == TableRow(row)
                      IN  [i \in 1..3 |-> shown(q[i])] \o <<spread(q[3])>> \o [i \in 1..(Len(q) - 3) |-> shown(q[i + 3])]
    IN  {c \in {"headers", "rows"} :
           ~ CASE c = "headers" -> e.headers = titles
               [] OTHER -> e.content = [i \in DOMAIN e.pick |-> cells(e.rows[e.pick[i]])]}

\* the first row of every combination of types; t: the types of the cells of each row
Minimal(e) == LET keep == {i \in DOMAIN e.t : \A j \in 1..(i - 1) : e.t[j] # e.t[i]}
              IN  IF e.kept = [x \in 1..Cardinality(keep) |-> CHOOSE i \in keep : Cardinality({y \in keep : y <= i}) = x]
                  THEN {} ELSE {"first_of_each_kind"}

\* ------------------------------------------------------------ measurements of a material
\* an entry is a number, a number with units, a number with uncertainty and units, or a word
Parsed(v) == CASE v.form = "word" -> [k |-> "DiscreteCategorical", cat |-> v.word, num |-> 1000000, unc |-> 0, units |-> ""]
               [] v.form = "number" -> [k |-> "NominalReal", cat |-> "", num |-> v.num, unc |-> 0, units |-> "dimensionless"]
               [] v.form = "units" -> [k |-> "NominalReal", cat |-> "", num |-> v.num, unc |-> 0, units |-> v.units]
               [] OTHER -> [k |-> "NormalReal", cat |-> "", num |-> v.num, unc |-> v.unc, units |-> v.units]
Of(x, kind) == {[name |-> x[i].name, tmpl |-> x[i].name, value |-> Parsed(x[i].v)] :
                  i \in {y \in DOMAIN x : x[y].kind = kind}}
AsMeasurement(x) == [ids |-> x.scan, tags |-> x.tags, props |-> Of(x.said, "property"), conds |-> Of(x.said, "condition"),
                     params |-> Of(x.said, "parameter")]
Seen(m) == [ids |-> m.ids, tags |-> m.tags, props |-> Elems(m.props), conds |-> Elems(m.conds), params |-> Elems(m.params)]
OneMaterial(d, o, e) ==
    {c \in {"ids", "tags", "measurements", "spec", "process", "nothing_else"} :
       ~ CASE c = "ids" -> o.ids = d.sample
           [] c = "tags" -> o.tags = d.tags
           [] c = "measurements" -> /\ Bag([i \in DOMAIN o.measurements |-> Seen(o.measurements[i])])
                                       = Bag([i \in DOMAIN d.experiments |-> AsMeasurement(d.experiments[i])])
                                    /\ \A i \in DOMAIN o.measurements : o.measurements[i].doubled = 0
           [] c = "spec" -> o.spec = e.spec
           [] c = "process" -> o.process = e.process /\ o.two_way
           [] OTHER -> o.other = <<>>}
Material(e) == IF Len(e.out) # Len(e.data) THEN {"one_per_record"}
               ELSE UNION {OneMaterial(e.data[i], e.out[i], e) : i \in DOMAIN e.data}

\* a row of a table becomes a measurement; columns that are not known are left out
Rows(e) == IF Bag([i \in DOMAIN e.out |-> Seen(e.out[i])])
              = Bag([i \in DOMAIN e.rows |-> [ids |-> <<>>, tags |-> <<>>, params |-> {},
                       props |-> {[name |-> "vapor pressure", tmpl |-> "", value |-> Parsed(x.v)] :
                                    x \in {y \in Elems(e.rows[i]) : y.name = "vapor pressure"}},
                       conds |-> {[name |-> "temperature", tmpl |-> "", value |-> Parsed(x.v)] :
                                    x \in {y \in Elems(e.rows[i]) : y.name = "temperature"}}]])
              /\ e.same
           THEN {} ELSE {"one_measurement_per_row"}

\* ------------------------------------------------------------ a three-point bending test
\* thickness 4, width 10, span 64 (mm), force 100 (N), deflection n/m mm: fractions <<a, b>>
Eq(x, a, b) == x[1] * b = a * x[2]
Bend(e) == {c \in {"stress", "strain", "modulus", "deflection", "uncertainty", "about"} :
              ~ CASE c = "stress"  -> Eq(e.stress, 60, 1)
                  [] c = "strain"  -> Eq(e.strain, 3 * e.n, 512 * e.m)
                  [] c = "modulus" -> Eq(e.modulus, 10240 * e.m, e.n)
                  [] c = "deflection" -> Eq(e.deflection, e.n, e.m)
                  [] c = "uncertainty" -> \A x \in Elems(e.relative) : Eq(x, 1, 100)
                  [] OTHER -> /\ e.ids = <<e.id>>
                              /\ e.tags = <<"3_pt_bend", "mechanical", "flex">> \o e.extra
                              /\ e.origins = <<"measured">>
                              /\ e.units = <<"megapascal", "dimensionless", "megapascal", "millimeter">>}

Check(e) == CASE e.op = "sac"      -> Sac(e)
              [] e.op = "table"    -> Table(e)
              [] e.op = "display"  -> Display(e)
              [] e.op = "minimal"  -> Minimal(e)
              [] e.op = "material" -> Material(e)
              [] e.op = "rows"     -> Rows(e)
              [] e.op = "bend"     -> Bend(e)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET bad == Check(Log[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([l |-> l, clauses |-> bad]))
        /\ l' = l + 1
        /\ (l = Len(Log) => PrintT("DONE " \o ToJson([n |-> l])))
Spec == Init /\ [][Next]_l
=============================================================================
