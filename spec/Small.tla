-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* Small universes of layouts (as definitions of the layout language), of  *)
(* values and of datasets.                                                 *)
(*                                                                         *)
(* Orderly layouts: each component has a quad of its own, in any graph.    *)
(* What they write can always be read back.                                *)
(* Dense layouts: anything may coincide.                                   *)
(***************************************************************************)
EXTENDS Conform

EXN == "https://ex.org/"
V(x) == [k |-> "var", v |-> x, t |-> ""]
C(x) == [k |-> "iri", v |-> EXN \o x, t |-> ""]
Nil == [k |-> "none", v |-> "", t |-> ""]

StrD(s) == [k |-> "str", s |-> s, c |-> <<>>]
ListD(c) == [k |-> "list", s |-> "", c |-> c]
MapD(c) == [k |-> "map", s |-> "", c |-> c]

SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}

(******************************** orderly **********************************)

Leaves == {[t |-> "string"], [t |-> "id"]}
\* The graph of a component: inherited, named, default.
Graphs == {<<>>, [graph |-> C("g")], [graph |-> Nil]}
Value(l, g) == [layout |-> [k |-> "def", l |-> l]] @@ g

\* The quad p of the component `name`.
Own(p, value, name) ==
  [name |-> name, intro |-> <<"value">>, dataset |-> <<<<V("self"), C(p), V("value")>>>>, value |-> value]
Variant(p, value, name) ==
  [name |-> name, intro |-> <<"value">>, dataset |-> <<<<V("self"), C(p), V("value")>>>>,
   value |-> value @@ [input |-> <<V("value")>>]]
Item(p, value) ==
  [intro |-> <<"value">>, dataset |-> <<<<V("self"), C(p), V("value")>>>>, value |-> value]
Node0(value) ==
  [intro |-> <<"value">>, value |-> value,
   dataset |-> <<<<V("head"), C("first"), V("value")>>, <<V("head"), C("rest"), V("rest")>>>>]

\* Over components with the values of vs; d: a prefix of the predicates.
Compounds(vs, d) ==
  {[t |-> "record", fields |-> <<Own(d \o "f", x, "f") @@ [required |-> r]>>] : x \in vs, r \in BOOLEAN}
  \cup {[t |-> "set", item |-> Item(d \o "i", x)] : x \in vs}
  \cup {[t |-> "list", node |-> Node0(x)] : x \in vs}
Twos(vs, ws, d) ==
  {[t |-> "record", fields |-> <<Own(d \o "f", x, "f") @@ [required |-> FALSE],
                                 Own(d \o "g", y, "g") @@ [required |-> TRUE]>>] : x \in vs, y \in ws}
  \cup {[t |-> "sum", variants |-> <<Variant(d \o "f", x, "f"), Variant(d \o "g", y, "g")>>] : x \in vs, y \in ws}
  \cup {[t |-> "tuple", items |-> <<Item(d \o "f", x), Item(d \o "g", y)>>] : x \in vs, y \in ws}

V1 == {Value(l, g) : l \in Leaves, g \in Graphs}
Orderly1 == Compounds(V1, "p") \cup Twos(V1, V1, "p")
Few1 == Compounds({Value([t |-> "string"], g) : g \in Graphs}, "p")
        \cup Twos({Value([t |-> "string"], <<>>)}, {Value([t |-> "id"], g) : g \in Graphs}, "p")
V2 == {Value(l, g) : l \in Few1, g \in {<<>>, [graph |-> C("h")], [graph |-> Nil]}}
Orderly2 == Compounds(V2, "q") \cup Twos(V1, V2, "q")

RECURSIVE ValuesOf(_)
ValuesOf(l) ==
  LET Sub(c) == ValuesOf(c.value.layout.l) IN
  CASE l.t = "string" -> {StrD("a"), StrD("b")}
    [] l.t = "id" -> {StrD(EXN \o "c")}
    [] l.t = "record" ->
         IF Len(l.fields) = 1
         THEN {MapD(<<StrD("f"), x>>) : x \in Sub(l.fields[1])} \cup (IF l.fields[1].required THEN {} ELSE {MapD(<<>>)})
         ELSE {MapD(<<StrD("f"), x, StrD("g"), y>>) : x \in Sub(l.fields[1]), y \in Sub(l.fields[2])}
              \cup {MapD(<<StrD("g"), y>>) : y \in Sub(l.fields[2])}
    [] l.t = "sum" -> Sub(l.variants[1]) \cup Sub(l.variants[2])
    [] l.t = "tuple" -> {ListD(<<x, y>>) : x \in Sub(l.items[1]), y \in Sub(l.items[2])}
    [] l.t = "set" -> {ListD(x) : x \in SeqsOf(Sub(l.item), 2)}
    [] l.t = "list" -> {ListD(x) : x \in SeqsOf(Sub(l.node), 2)}

(********************************** dense **********************************)

\* One or two components, on two variables and a constant.
DVars == {V("self"), V("value"), C("a")}
DQuads == {<<s, C("p"), o>> : s \in DVars, o \in DVars} \cup {<<V("self"), V("value"), V("self")>>}
DQuadsG == {<<V("self"), C("p"), V("value"), g>> : g \in DVars}
DValue(l, i) == [layout |-> [k |-> "def", l |-> l], input |-> <<V(i)>>]
DComp(q, l, i, n) == [name |-> n, intro |-> <<"value">>, dataset |-> <<q>>, value |-> DValue(l, i)]
DLeaves == {[t |-> "string"], [t |-> "id"], [t |-> "unit"]}
DOne(n) == {DComp(q, l, i, n) : q \in DQuads \cup DQuadsG, l \in DLeaves, i \in {"self", "value"}}
DFew(n) == {DComp(q, l, "value", n) : q \in {<<V("self"), C("p"), V("value")>>, <<V("value"), C("p"), V("self")>>,
                                             <<V("value"), C("p"), V("value")>>, <<V("self"), C("p"), C("a")>>},
                                      l \in {[t |-> "string"], [t |-> "id"]}}
DNode(q, r, l) == [intro |-> <<"value">>, dataset |-> <<q, r>>, value |-> DValue(l, "value")]
DHead == {V("head"), V("rest"), V("value")}

Unname(c) == [x \in DOMAIN c \ {"name"} |-> c[x]]
Dense(kind) ==
  CASE kind = "record" ->
         {[t |-> "record", fields |-> <<c @@ [required |-> r]>>] : c \in DOne("f"), r \in BOOLEAN}
         \cup {[t |-> "record", fields |-> <<c @@ [required |-> FALSE], e @@ [required |-> FALSE]>>] : c \in DFew("f"), e \in DFew("g")}
    [] kind = "sum" ->
         {[t |-> "sum", variants |-> <<c>>] : c \in DOne("f")}
         \cup {[t |-> "sum", variants |-> <<c, e>>] : c \in DOne("f"), e \in DFew("g")}
    [] kind = "set" -> {[t |-> "set", item |-> Unname(c)] : c \in DOne("f")}
    [] kind = "tuple" ->
         {[t |-> "tuple", items |-> <<Unname(c)>>] : c \in DOne("f")}
         \cup {[t |-> "tuple", items |-> <<Unname(c), Unname(e)>>] : c \in DOne("f"), e \in DFew("g")}
    [] kind = "graph" ->
         {[t |-> "record", fields |-> <<[name |-> "f", intro |-> <<"value">>, dataset |-> <<<<V("self"), C("p"), V("value")>> \o g>>, required |-> r,
                                         value |-> [layout |-> [k |-> "def", l |-> l], input |-> <<V("value")>>] @@ vg]>>] :
            g \in {<<>>, <<C("a")>>, <<V("self")>>, <<V("value")>>}, r \in BOOLEAN,
            vg \in {<<>>} \cup {[graph |-> x] : x \in {Nil, C("a"), V("self"), V("value")}},
            l \in {[t |-> "unit", dataset |-> <<<<V("self"), C("p"), V("self")>>>>],
                   [t |-> "set", item |-> [intro |-> <<"value">>, dataset |-> <<<<V("self"), C("p"), V("value")>>>>,
                                           value |-> [layout |-> [k |-> "def", l |-> [t |-> "id"]]]]],
                   [t |-> "id", dataset |-> <<<<V("self"), C("p"), V("self"), C("a")>>>>]}}
    [] kind = "list" ->
         {[t |-> "list", node |-> DNode(<<s, C("p"), o>>, <<s2, C(p2), o2>>, l), tail |-> tl] :
            s \in DHead, o \in DHead, s2 \in DHead, o2 \in DHead \cup {V("self")}, p2 \in {"p", "q"}, l \in {[t |-> "id"]},
            tl \in {C("a"), V("self")}}

\* Values: what the components may be, and what they are not.
DScalars == {StrD("x"), StrD(EXN \o "a"), [k |-> "unit", s |-> "", c |-> <<>>]}
DValuesOf(l) ==
  CASE l.t = "record" ->
         {MapD(<<>>)} \cup {MapD(<<StrD("f"), x>>) : x \in DScalars}
         \cup (IF l.fields[1].value.layout.l.t = "set" THEN {MapD(<<StrD("f"), ListD(<<StrD(EXN \o "a"), StrD(EXN \o "c")>>)>>)} ELSE {})
         \cup (IF Len(l.fields) = 1 THEN {MapD(<<StrD("h"), StrD("x")>>)}
               ELSE {MapD(<<StrD("f"), x, StrD("g"), y>>) : x \in DScalars, y \in DScalars})
    [] l.t = "sum" -> DScalars
    [] l.t \in {"tuple", "set", "list"} ->
         {ListD(x) : x \in SeqsOf({StrD("x"), StrD(EXN \o "a"), StrD(EXN \o "c")}, 2)}

\* Datasets.
ResA == T("iri", EXN \o "a", "")
ResB == T("blank", "_:b", "")
LitX == T("lit", "x", XSD \o "string")
DQuad(s, p, o, g) == [s |-> s, p |-> T("iri", EXN \o p, ""), o |-> o, g |-> g]
DData ==
  LET Q == {DQuad(s, "p", o, NoGraph) : s \in {ResA, ResB}, o \in {ResA, ResB, LitX}}
           \cup {DQuad(ResB, "a", ResB, NoGraph), DQuad(ResB, "p", LitX, ResA), DQuad(ResB, "p", ResA, ResB)}
  IN {S \in SUBSET Q : Cardinality(S) <= 2}
\* In graphs.
DGraphs ==
  LET Q == {DQuad(s, "p", o, g) : s \in {ResA, ResB}, o \in {ResA, ResB}, g \in {NoGraph, ResA, ResB}}
  IN {S \in SUBSET Q : Cardinality(S) <= 2}
\* Chains, for lists.
DChains ==
  LET Q == {DQuad(s, "p", o, NoGraph) : s \in {ResA, ResB}, o \in {ResA, ResB}}
           \cup {DQuad(s, "q", o, NoGraph) : s \in {ResB, T("blank", "_:c", "")}, o \in {ResA, ResB, T("blank", "_:c", "")}}
  IN {S \in SUBSET Q : Cardinality(S) <= 3}
=============================================================================
