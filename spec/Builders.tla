----------------------------- MODULE Builders -----------------------------
(* What the builders (make_node, add_edge, add_measurement, add_attribute,  *)
(* make_attribute, make_value) make, as functions on heaps.                 *)
(* An optional argument is a sequence of at most one element.  Content is   *)
(* given as in Heap: path -> atom; the parts of a bigger content have paths *)
(* that start with the empty path.                                          *)
EXTENDS Heap

Prim(v) == [t |-> "prim", v |-> v, r |-> 0, s |-> ""]
None    == Prim("none")
Seq0    == [t |-> "seq", v |-> "0", r |-> 0, s |-> ""]
Len0(k) == [t |-> "seq", v |-> ToString(k), r |-> 0, s |-> ""]
Part(c) == [t |-> "part", v |-> c, r |-> 0, s |-> ""]
To(n)   == [t |-> "ref", v |-> "", r |-> n, s |-> ""]
Size(a) == CHOOSE k \in 0 .. 60 : ToString(k) = a.v
Place(prefix, m) == [p \in {prefix \o q : q \in DOMAIN m} |-> m[CHOOSE q \in DOMAIN m : prefix \o q = p]]

\* ------------------------------------------------------------ new objects
Obj  == [name |-> None, notes |-> None, file_links |-> Seq0, tags |-> Seq0]
Qty  == [mass_fraction |-> None, volume_fraction |-> None, number_fraction |-> None, absolute_quantity |-> None]
CP   == [conditions |-> Seq0, parameters |-> Seq0]
Blank == [ProcessSpec     |-> Obj @@ CP @@ [template |-> None],
          ProcessRun      |-> Obj @@ CP @@ [spec |-> None, source |-> None],
          MaterialSpec    |-> Obj @@ [template |-> None, process |-> None, properties |-> Seq0],
          MaterialRun     |-> Obj @@ [spec |-> None, process |-> None, sample_type |-> Prim("str:unknown")],
          IngredientSpec  |-> Obj @@ Qty @@ [labels |-> Seq0, material |-> None, process |-> None],
          IngredientRun   |-> Obj @@ Qty @@ [labels |-> Seq0, material |-> None, process |-> None, spec |-> None],
          MeasurementSpec |-> Obj @@ CP @@ [template |-> None],
          MeasurementRun  |-> Obj @@ CP @@ [spec |-> None, material |-> None, properties |-> Seq0, source |-> None]]
Is(n, kind, content) == n.k = kind /\ n.u = <<>> /\ n.f = content @@ Blank[kind]

New(pre, post)    == DOMAIN post \ DOMAIN pre
OfKind(post, S, kind) == {i \in S : post[i].k = kind}
\* existing nodes keep ids and content, and reverse references but for those to new nodes
Kept(pre, post) == \A i \in DOMAIN pre :
    /\ pre[i].k = post[i].k /\ pre[i].u = post[i].u /\ pre[i].f = post[i].f
    /\ DOMAIN pre[i].b = DOMAIN post[i].b
    /\ \A x \in DOMAIN pre[i].b : pre[i].b[x] = SelectSeq(post[i].b[x], LAMBDA y : y \in DOMAIN pre \cup {0})
Opt(o, default) == IF o = <<>> THEN default ELSE o[1]

\* ------------------------------------------------------------ make_node
\* args: name, pname (optional), ptpl, mtpl (optional node numbers, 0 for something else)
TplOk(h, o, kind) == o = <<>> \/ (o[1] \in DOMAIN h /\ h[o[1]].k = kind)
TplAtom(o) == IF o = <<>> THEN None ELSE To(o[1])
NodeOk(h, a) == TplOk(h, a.ptpl, "ProcessTemplate") /\ TplOk(h, a.mtpl, "MaterialTemplate")
Node(pre, post, a, res) ==
    LET new   == New(pre, post)
        one(k) == CHOOSE i \in OfKind(post, new, k) : TRUE
        pname == Prim(Opt(a.pname, IF a.ptpl = <<>> THEN a.name ELSE pre[a.ptpl[1]].f.name.v))
    IN  IF {post[i].k : i \in new} # {"ProcessSpec", "ProcessRun", "MaterialSpec", "MaterialRun"}
           \/ Cardinality(new) # 4 THEN {"exactly_these_objects"}
        ELSE {c \in {"process_spec", "process_run", "material_spec", "material_run", "result"} :
               ~ CASE c = "process_spec" -> Is(post[one("ProcessSpec")], "ProcessSpec",
                                               [name |-> pname, template |-> TplAtom(a.ptpl)])
                   [] c = "process_run" -> Is(post[one("ProcessRun")], "ProcessRun",
                                              [name |-> pname, spec |-> To(one("ProcessSpec"))])
                   [] c = "material_spec" -> Is(post[one("MaterialSpec")], "MaterialSpec",
                                                [name |-> Prim(a.name), template |-> TplAtom(a.mtpl),
                                                 process |-> To(one("ProcessSpec"))])
                   [] c = "material_run" -> Is(post[one("MaterialRun")], "MaterialRun",
                                               [name |-> Prim(a.name), spec |-> To(one("MaterialSpec")),
                                                process |-> To(one("ProcessRun"))])
                   [] OTHER -> res = one("MaterialRun")}

\* ------------------------------------------------------------ add_edge
\* args: inp, out (nodes), name (optional), units (optional), qty: field -> [form, m]
\* where form is none, float, value or other, and m the content to expect
Fields == {"mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"}
Connected(h, a) == LET o == h[a.out].f IN
    /\ o.spec.t = "ref" /\ h[o.spec.r].f.process # None
    /\ o.process # None
    /\ h[a.inp].f.spec # None
QtyOk(a) == /\ \A q \in Fields : a.qty[q].form # "other"
            /\ (a.qty["absolute_quantity"].form = "float") <=> (a.units # <<>>)
Quantities(a) == LET given == {q \in Fields : a.qty[q].form # "none"}
                     cells == UNION {{<<q, p>> : p \in DOMAIN a.qty[q].m} : q \in given}
                 IN  [x \in {c[1] \o c[2] : c \in cells} |->
                        LET c == CHOOSE c \in cells : c[1] \o c[2] = x IN a.qty[c[1]].m[c[2]]]
Edge(pre, post, a, res) ==
    LET new  == New(pre, post)
        one(k) == CHOOSE i \in OfKind(post, new, k) : TRUE
        name == Prim(Opt(a.name, pre[a.inp].f.name.v))
        ospec == pre[pre[a.out].f.spec.r]
    IN  IF {post[i].k : i \in new} # {"IngredientSpec", "IngredientRun"} \/ Cardinality(new) # 2
        THEN {"exactly_these_objects"}
        ELSE {c \in {"spec", "run", "result"} :
               ~ CASE c = "spec" -> Is(post[one("IngredientSpec")], "IngredientSpec",
                                       [name |-> name, material |-> pre[a.inp].f.spec,
                                        process |-> ospec.f.process])
                   [] c = "run" -> Is(post[one("IngredientRun")], "IngredientRun",
                                      Quantities(a) @@
                                      [name |-> name, material |-> To(a.inp), spec |-> To(one("IngredientSpec")),
                                       process |-> pre[a.out].f.process])
                   [] OTHER -> res = one("IngredientRun")}

\* ------------------------------------------------------------ add_measurement
\* args: mat (node), name, tpl (optional), attrs: sequence of [k, m] (k: Property, Condition,
\* Parameter or other; m: content)
MeasOk(h, a) == /\ (a.name # <<>> \/ a.tpl # <<>>)
                /\ TplOk(h, a.tpl, "MeasurementTemplate")
                /\ \A i \in DOMAIN a.attrs : a.attrs[i].k # "other"
Listed(field, q) == \* the content of a list of attributes
    LET cells == UNION {{<<i, p>> : p \in DOMAIN q[i].m} : i \in DOMAIN q}
        path(c) == field \o "." \o ToString(c[1]) \o c[2]
    IN  [x \in {path(c) : c \in cells} |-> LET c == CHOOSE c \in cells : path(c) = x IN q[c[1]].m[c[2]]]
        @@ [x \in {field} |-> Len0(Len(q))]
Measurement(pre, post, a, res) ==
    LET new  == New(pre, post)
        one(k) == CHOOSE i \in OfKind(post, new, k) : TRUE
        name == Prim(IF a.name # <<>> THEN a.name[1] ELSE pre[a.tpl[1]].f.name.v)
        only(k) == SelectSeq(a.attrs, LAMBDA x : x.k = k)
    IN  IF {post[i].k : i \in new} # {"MeasurementSpec", "MeasurementRun"} \/ Cardinality(new) # 2
        THEN {"exactly_these_objects"}
        ELSE {c \in {"spec", "run", "result"} :
               ~ CASE c = "spec" -> Is(post[one("MeasurementSpec")], "MeasurementSpec",
                                       [name |-> name, template |-> TplAtom(a.tpl)])
                   [] c = "run" -> Is(post[one("MeasurementRun")], "MeasurementRun",
                                      Listed("properties", only("Property")) @@ Listed("conditions", only("Condition"))
                                      @@ Listed("parameters", only("Parameter")) @@
                                      [name |-> name, material |-> To(a.mat), spec |-> To(one("MeasurementSpec"))])
                   [] OTHER -> res = one("MeasurementRun")}

\* ------------------------------------------------------------ values and attributes
\* v: [form, text, num, m, inchi]: form is value (m its content), int, float, str or other; text the
\* token of the primitive, num the token of it as a real number
ValueOk(kind, v) == CASE kind = "RealBounds"        -> v.form \in {"int", "float"}
                      [] kind = "IntegerBounds"     -> v.form = "int"
                      [] kind \in {"CategoricalBounds", "CompositionBounds", "MolecularStructureBounds"}
                                                    -> v.form = "str"
                      [] OTHER                      -> FALSE
One(c, f, x) == [p \in {"", "." \o f} |-> IF p = "" THEN Part(c) ELSE Prim(x)]
\* bd: content of the bounds
MakeValue(bd, v) ==
    CASE bd[""].v = "RealBounds" -> One("NominalReal", "nominal", v.num)
                                    @@ [p \in {".units"} |-> bd[".default_units"]]
      [] bd[""].v = "IntegerBounds"     -> One("NominalInteger", "nominal", v.text)
      [] bd[""].v = "CategoricalBounds" -> One("NominalCategorical", "category", v.text)
      [] bd[""].v = "CompositionBounds" -> One("EmpiricalFormula", "formula", v.text)
      [] OTHER -> IF v.inchi THEN One("InChI", "inchi", v.text) ELSE One("Smiles", "smiles", v.text)

AttrOf == [PropertyTemplate |-> "Property", ConditionTemplate |-> "Condition", ParameterTemplate |-> "Parameter"]
IsAttrTpl(h, t) == t \in DOMAIN h /\ h[t].k \in DOMAIN AttrOf
BoundsOf(n) == LET P == {p \in DOMAIN n.f : p \in {"bounds", "bounds.lower_bound", "bounds.upper_bound",
                                                   "bounds.default_units", "bounds.categories", "bounds.components"}}
                   cut(p) == CASE p = "bounds" -> "" [] p = "bounds.lower_bound" -> ".lower_bound"
                               [] p = "bounds.upper_bound" -> ".upper_bound" [] p = "bounds.default_units" -> ".default_units"
                               [] p = "bounds.categories" -> ".categories" [] OTHER -> ".components"
               IN  [x \in {cut(p) : p \in P} |-> n.f[CHOOSE p \in P : cut(p) = x]]
AttrOk(h, a) == /\ IsAttrTpl(h, a.tpl)
                /\ a.v.form = "value" \/ ValueOk(h[a.tpl].f["bounds"].v, a.v)
Attr(h, a) == [p \in {"", ".name", ".template", ".origin", ".notes", ".file_links"} |->
                 CASE p = "" -> Part(AttrOf[h[a.tpl].k]) [] p = ".name" -> h[a.tpl].f.name
                   [] p = ".template" -> To(a.tpl) [] p = ".origin" -> Prim("str:unknown")
                   [] p = ".notes" -> None [] OTHER -> Seq0]
              @@ Place(".value", IF a.v.form = "value" THEN a.v.m ELSE MakeValue(BoundsOf(h[a.tpl]), a.v))

Holds == [Property |-> {"MeasurementRun"},
          Condition |-> {"ProcessSpec", "ProcessRun", "MeasurementSpec", "MeasurementRun"},
          Parameter |-> {"ProcessSpec", "ProcessRun", "MeasurementSpec", "MeasurementRun"}]
ListOf == [Property |-> "properties", Condition |-> "conditions", Parameter |-> "parameters"]
AddOk(h, a) == /\ AttrOk(h, a)
               /\ LET c == AttrOf[h[a.tpl].k] k == h[a.target].k
                  IN  \/ k \in Holds[c]
                      \/ k = "MaterialSpec" /\ c = "Property"
                      \/ k = "MaterialSpec" /\ c = "Condition" /\ Size(h[a.target].f["properties"]) > 0
\* the target's content with the attribute added
Added(h, a) ==
    LET n == h[a.target] c == AttrOf[h[a.tpl].k] x == Attr(h, a)
        append(field, m) == LET k == Size(n.f[field]) + 1
                            IN  [p \in {field} |-> Len0(k)] @@ Place(field \o "." \o ToString(k), m) @@ n.f
    IN  IF n.k # "MaterialSpec" THEN append(ListOf[c], x)
        ELSE IF c = "Property"
             THEN append("properties", Place(".property", x) @@
                         [p \in {"", ".conditions"} |-> IF p = "" THEN Part("PropertyAndConditions") ELSE Seq0])
             ELSE append("properties." \o n.f["properties"].v \o ".conditions", x)

\* ------------------------------------------------------------ judging one call
Outcome(e, ok) == IF ok = (e.out = "ok") THEN {} ELSE IF ok THEN {"must_be_accepted"} ELSE {"must_be_refused"}
Same(e) == e.pre = e.post
If(b, S) == IF b THEN S ELSE {}
Judge(e) ==
    LET a == e.args
        base(ok, S) == Outcome(e, ok) \cup
                       If(e.out = "ok" /\ ok, S \cup {c \in {"others_kept", "two_way"} :
                            ~ IF c = "others_kept" THEN Kept(e.pre, e.post) ELSE TwoWay(e.post)})
    IN  CASE e.op = "make_node" -> base(NodeOk(e.pre, a), IF NodeOk(e.pre, a) /\ e.out = "ok"
                                        THEN Node(e.pre, e.post, a, e.res) ELSE {})
                                   \cup If(e.out # "ok" /\ ~ Same(e), {"refusal_changes_nothing"})
          [] e.op = "add_edge" ->
                LET ok == Connected(e.pre, a) /\ QtyOk(a)
                IN  base(ok, If(ok /\ e.out = "ok", Edge(e.pre, e.post, a, e.res)))
                    \cup If(~ Connected(e.pre, a) /\ ~ Same(e), {"refusal_changes_nothing"})
          [] e.op = "add_measurement" ->
                LET ok == MeasOk(e.pre, a)
                IN  base(ok, If(ok /\ e.out = "ok", Measurement(e.pre, e.post, a, e.res)))
          [] e.op = "add_attribute" ->
                LET ok == AddOk(e.pre, a)
                IN  Outcome(e, ok)
                    \cup If(~ ok /\ ~ Same(e), {"refusal_changes_nothing"})
                    \cup If(ok /\ e.out = "ok",
                         {c \in {"attached", "others_kept", "result"} :
                           ~ CASE c = "attached" -> e.post[a.target].f = Added(e.pre, a)
                               [] c = "others_kept" -> /\ DOMAIN e.pre = DOMAIN e.post
                                                       /\ \A i \in DOMAIN e.pre \ {a.target} : e.pre[i] = e.post[i]
                                                       /\ e.pre[a.target].u = e.post[a.target].u
                                                       /\ e.pre[a.target].b = e.post[a.target].b
                               [] OTHER -> e.result = Attr(e.pre, a) /\ e.identical})
          [] e.op = "make_attribute" ->
                LET ok == AttrOk(e.pre, a)
                IN  Outcome(e, ok) \cup If(~ Same(e), {"changes_nothing"})
                    \cup If(ok /\ e.out = "ok" /\ e.result # Attr(e.pre, a), {"result"})
          [] e.op = "make_value" ->
                LET ok == ValueOk(a.bounds[""].v, a.v)
                IN  Outcome(e, ok) \cup If(ok /\ e.out = "ok" /\ e.result # MakeValue(a.bounds, a.v), {"result"})
=============================================================================
