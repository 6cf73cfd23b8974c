------------------------------ MODULE Distill -------------------------------
(***************************************************************************)
(* The two directions of a layout.                                         *)
(*                                                                         *)
(*   Hydrate: RDF -> tree.  A component is present when exactly one        *)
(*   substitution of its own variables places its pattern in the dataset.  *)
(*   Dehydrate: tree -> RDF.  Every variable introduced denotes a resource *)
(*   of its own; literals and ids give that resource its term.             *)
(*                                                                         *)
(* Results carry `errs`, the set of all the errors that are present        *)
(* anywhere in the input: an implementation reports one of them, whatever  *)
(* the order it looks in.                                                  *)
(*                                                                         *)
(* Tree nodes are uniform records [k, s, c, m, l]: kind, scalar, children  *)
(* (list), members (map: set of <<key, value>>; bag: set of <<item, n>>),  *)
(* and the layout that produced them (typed values only).                  *)
(***************************************************************************)
EXTENDS Syntax

Node(k, s, c, m, l) == [k |-> k, s |-> s, c |-> c, m |-> m, l |-> l]
NoL == NoGraph
UnitV == Node("unit", "", <<>>, {}, NoL)
StrV(s) == Node("str", s, <<>>, {}, NoL)

\* A bag of nodes, as a set of <<node, multiplicity>>.
Bag(s) == {<<x, Cardinality({i \in 1..Len(s) : s[i] = x})>> : x \in Seq2Set(s)}

(* Values logged by the harness are [k, s, c] (maps: c is the sequence of  *)
(* alternating keys and values).                                           *)
RECURSIVE Norm(_)
Norm(v) ==
  IF v.k = "map"
  THEN Node("map", "", <<>>, {<<Norm(v.c[2*i-1]), Norm(v.c[2*i])>> : i \in 1..(Len(v.c) \div 2)}, NoL)
  ELSE IF v.k = "list" THEN Node("list", "", TLCEval([i \in 1..Len(v.c) |-> Norm(v.c[i])]), {}, NoL)
  ELSE IF v.k = "variant" THEN Node("variant", v.s, <<Norm(v.c[1])>>, {}, NoL)
  ELSE Node(v.k, v.s, <<>>, {}, NoL)

(******************************** Hydrate **********************************)

Ok(v) == [ok |-> TRUE, v |-> v, errs |-> {}]
Fail(e) == [ok |-> FALSE, v |-> UnitV, errs |-> TLCEval(e)]

DecimalTypes ==
  {XSD \o s : s \in {"decimal", "integer", "nonPositiveInteger", "negativeInteger", "long",
                     "int", "short", "byte", "nonNegativeInteger", "unsignedLong",
                     "unsignedInt", "unsignedShort", "unsignedByte", "positiveInteger"}}

(* The terms of a resource.  In general an interpretation gives a resource *)
(* any number of them; by default a resource is the only term of itself.   *)
(* The registry may hold what an interpretation adds (pairs <<r, term>>).  *)
AliasKey == T("alias", "", "")
TermsIn(reg, r) ==
  IF AliasKey \in DOMAIN reg THEN {r} \cup {x[2] : x \in {x \in reg[AliasKey] : x[1] = r}} ELSE {r}

(* With this key, values are read into Rust types: see Derived.            *)
RustKey == T("rust", "", "")
IsInt(s) == IsDecimal(s) /\ \A i \in 1..Len(s) : At(s, i) # "."
Bounds == [byte |-> <<"128", "127">>, short |-> <<"32768", "32767">>, int |-> <<"2147483648", "2147483647">>,
           long |-> <<"9223372036854775808", "9223372036854775807">>, unsignedByte |-> <<"0", "255">>,
           unsignedShort |-> <<"0", "65535">>, unsignedInt |-> <<"0", "4294967295">>,
           unsignedLong |-> <<"0", "18446744073709551615">>]
Fits(t, s) ==
  /\ IsInt(s)
  /\ LET n == NormDecimal(s) IN
     IF At(n, 1) = "-" THEN AtMost(From(n, 2), Bounds[t][1]) ELSE AtMost(n, Bounds[t][2])

\* The literal t, of a datatype that L accepts.
ReadOne(reg, L, lid, t) ==
  CASE L.kind = "number" /\ RustKey \in DOMAIN reg /\ ~Fits(From(t.t, Len(XSD) + 1), t.v) -> Fail({"NoMatchingLiteral"})
    [] L.kind = "boolean" ->
         IF t.t = XSD \o "boolean" /\ t.v \in {"true", "false", "1", "0"}
         THEN Ok(Node("bool", IF t.v \in {"true", "1"} THEN "true" ELSE "false", <<>>, {}, lid))
         ELSE Fail({"NoMatchingLiteral"})
    [] L.kind = "number" ->
         IF t.t \notin DecimalTypes THEN Fail({"UnknownNumberDatatype"})
         ELSE IF IsDecimal(t.v) THEN Ok(Node("num", NormDecimal(t.v), <<>>, {}, lid))
         ELSE Fail({"NoMatchingLiteral"})
    [] L.kind = "string" -> Ok(Node("str", t.v, <<>>, {}, lid))
    [] L.kind = "bytes" ->
         IF t.t = XSD \o "hexBinary" /\ IsHex(t.v)
         THEN Ok(Node("bytes", LowerHex(t.v), <<>>, {}, lid))
         ELSE IF t.t = XSD \o "base64Binary" /\ IsBase64(t.v)
         THEN Ok(Node("bytes", Base64ToHex(t.v), <<>>, {}, lid))
         ELSE Fail({"NoMatchingLiteral"})

\* The literal or id layouts, read on the resource r: exactly one of its
\* terms must be of the kind that the layout reads.
ReadLit(reg, L, lid, r) ==
  LET ts == TermsIn(reg, r)
      many == {"DataAmbiguity/Discriminant"}
  IN IF L.kind = "id"
     THEN LET iris == {t \in ts : t.k = "iri"}
              ids == IF iris = {} /\ RustKey \in DOMAIN reg /\ lid.v = "urn:t:Id" THEN {t \in ts : t.k = "blank"} ELSE iris
          IN
          IF ids = {} THEN Fail({"NoMatchingLiteral"})
          ELSE IF Cardinality(ids) > 1 THEN Fail(many)
          ELSE Ok(Node("id", (CHOOSE t \in ids : TRUE).v, <<>>, {}, lid))
     ELSE LET types == {t.v : t \in {t \in TermsIn(reg, IriT(L.dt)) : t.k = "iri"}}
              lits == {t \in ts : t.k = "lit" /\ t.t \in types}
              rs == {ReadOne(reg, L, lid, t) : t \in lits}
          IN IF lits = {} THEN Fail({"NoMatchingLiteral"})
             ELSE IF Cardinality(lits) > 1 THEN Fail(many \cup UNION {x.errs : x \in rs})
             ELSE CHOOSE x \in rs : TRUE

\* A variable that the data leaves unbound.
UnboundErr == {"MissingData/Discriminant"}
Join(rs) == UNION {rs[i].errs : i \in 1..Len(rs)}
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok

RECURSIVE Hyd(_, _, _, _, _, _)

\* The sub value of component c under the substitution sub.
UnboundIn(c, sub) ==
  \/ \E i \in 1..Len(c.input) : Apply(c.input[i], sub) = Unbound
  \/ c.hasgraph /\ Apply(c.graph, sub) = Unbound

HydSub(reg, D, g, c, sub, stk) ==
  LET ins == ApplyAll(c.input, sub)
      sg == IF c.hasgraph THEN Apply(c.graph, sub) ELSE g
  IN IF UnboundIn(c, sub) THEN Fail(UnboundErr)
     ELSE Hyd(reg, D, sg, c.layout, ins, stk)

CompMatches(D, g, c, sub) == MatchSet(D, {sub \o Nulls(c.intro)}, InGraph(c.ds, g))

RECURSIVE HydList(_, _, _, _, _, _, _, _, _)
\* Walks an ordered list from `head`; `seen` are the nodes already walked.
HydList(reg, D, g, L, sub, head, tail, seen, stk) ==
  IF head = tail THEN [items |-> <<>>, errs |-> {}]
  ELSE IF head \in seen THEN [items |-> <<>>, errs |-> {"MissingData/OrderedListNode"}]
  ELSE LET c == L.comps[1]
           ms == MatchSet(D, {sub \o <<head, Unbound>> \o Nulls(c.intro)}, InGraph(c.ds, g))
       IN IF ms = {} THEN [items |-> <<>>, errs |-> {"MissingData/OrderedListNode"}]
          ELSE IF Cardinality(ms) > 1 THEN [items |-> <<>>, errs |-> {"DataAmbiguity/OrderedListNode"}]
          ELSE LET s == CHOOSE s \in ms : TRUE
                   it == HydSub(reg, D, g, c, s, stk)
                   rest == s[Len(sub) + 2]
                   more == IF rest = Unbound THEN [items |-> <<>>, errs |-> UnboundErr]
                           ELSE HydList(reg, D, g, L, sub, rest, tail, seen \cup {head}, stk)
               IN [items |-> <<it>> \o more.items, errs |-> it.errs \cup more.errs]

HydBody(reg, D, g, lid, L, sub, stk) ==
  CASE L.kind = "unit" -> Ok([Norm(L.cst) EXCEPT !.l = lid, !.k = "unit:" \o @])
    [] L.kind \in {"boolean", "number", "bytes", "string", "id"} ->
         LET t == Apply(L.res, sub) IN IF t = Unbound THEN Fail(UnboundErr) ELSE ReadLit(reg, L, lid, t)
    [] L.kind = "record" ->
         LET n == Len(L.comps)
             ms == TLCEval([i \in 1..n |-> CompMatches(D, g, L.comps[i], sub)])
             rs == TLCEval([i \in 1..n |->
                      IF ms[i] = {} THEN
                        IF L.comps[i].req THEN Fail({"MissingData/Key/" \o L.comps[i].name}) ELSE Ok(UnitV)
                      ELSE IF Cardinality(ms[i]) > 1 THEN Fail({"DataAmbiguity/Key/" \o L.comps[i].name})
                      ELSE HydSub(reg, D, g, L.comps[i], CHOOSE s \in ms[i] : TRUE, stk)])
         IN IF AllOk(rs)
            THEN Ok(Node("map", "", <<>>,
                         {<<StrV(L.comps[i].name), rs[i].v>> : i \in {i \in 1..n : ms[i] # {}}}, lid))
            ELSE Fail(Join(rs))
    [] L.kind = "sum" ->
         LET n == Len(L.comps)
             ms == TLCEval([i \in 1..n |-> CompMatches(D, g, L.comps[i], sub)])
             amb == {i \in 1..n : Cardinality(ms[i]) > 1}
             one == {i \in 1..n : Cardinality(ms[i]) = 1}
             rs == TLCEval([i \in one |-> HydSub(reg, D, g, L.comps[i], CHOOSE s \in ms[i] : TRUE, stk)])
             good == {i \in one : rs[i].ok}
             unb == {i \in one : UnboundIn(L.comps[i], CHOOSE s \in ms[i] : TRUE)}
         IN IF amb # {} \/ unb # {} THEN
              Fail({"DataAmbiguity/Variant/" \o L.comps[i].name : i \in amb}
                   \cup (IF unb # {} THEN UnboundErr ELSE {})
                   \cup (IF Cardinality(good) > 1 THEN {"DataAmbiguity/Discriminant"} ELSE {}))
            ELSE IF good = {} THEN Fail({"MissingData/Discriminant"})
            ELSE IF Cardinality(good) > 1 THEN Fail({"DataAmbiguity/Discriminant"})
            ELSE LET i == CHOOSE i \in good : TRUE IN
                 Ok(Node("variant", ToString(i - 1), <<rs[i].v>>, {}, lid))
    [] L.kind = "set" ->
         LET ms == CompMatches(D, g, L.comps[1], sub)
             rs == {<<s, HydSub(reg, D, g, L.comps[1], s, stk)>> : s \in ms}
             vals == {r[2].v : r \in rs}
         IN IF \A r \in rs : r[2].ok
            THEN Ok(Node("bag", "", <<>>,
                         {<<v, Cardinality({r \in rs : r[2].v = v})>> : v \in vals}, lid))
            ELSE Fail(UNION {r[2].errs : r \in rs})
    [] L.kind = "tuple" ->
         LET n == Len(L.comps)
             ms == TLCEval([i \in 1..n |-> CompMatches(D, g, L.comps[i], sub)])
             rs == TLCEval([i \in 1..n |->
                      IF ms[i] = {} THEN Fail({"MissingData/SizedListItem"})
                      ELSE IF Cardinality(ms[i]) > 1 THEN Fail({"DataAmbiguity/SizedListItem"})
                      ELSE HydSub(reg, D, g, L.comps[i], CHOOSE s \in ms[i] : TRUE, stk)])
         IN IF AllOk(rs) THEN Ok(Node("list", "", TLCEval([i \in 1..n |-> rs[i].v]), {}, lid))
            ELSE Fail(Join(rs))
    [] L.kind = "list" ->
         LET head == Apply(L.head, sub)
             tail == Apply(L.tail, sub)
         IN IF head = Unbound \/ tail = Unbound THEN Fail(UnboundErr)
            ELSE LET w == HydList(reg, D, g, L, sub, head, tail, {}, stk) IN
                 IF w.errs = {} THEN Ok(Node("list", "", TLCEval([i \in 1..Len(w.items) |-> w.items[i].v]), {}, lid))
                 ELSE Fail(w.errs)

(* `stk` holds the enclosing (layout, graph, inputs): meeting one of them  *)
(* again means that no finite tree represents the data.                    *)
Hyd(reg, D, g, lid, ins, stk) ==
  IF lid \notin DOMAIN reg THEN Fail({"LayoutNotFound"})
  ELSE IF <<lid, g, ins>> \in stk THEN Fail({"IncompatibleLayout"})
  ELSE LET L == reg[lid] IN
    CASE L.kind = "never" -> Fail({"IncompatibleLayout"})
      [] L.kind = "always" -> Ok(Node("always", "", <<>>, {}, NoL))
      [] OTHER ->
           IF L.nin # Len(ins) THEN Fail({"InvalidInputCount"})
           ELSE LET ms == MatchSet(D, {ins \o Nulls(L.nintro)}, InGraph(L.ds, g)) IN
                IF ms = {} THEN Fail({"MissingData/Discriminant"})
                ELSE IF Cardinality(ms) > 1 THEN Fail({"DataAmbiguity/Discriminant"})
                ELSE HydBody(reg, D, g, lid, L, CHOOSE s \in ms : TRUE, stk \cup {<<lid, g, ins>>})

Hydrate(reg, D, g, lid, ins) == Hyd(reg, D, g, lid, ins, {})

\* Forgets the layouts: the plain value.  Sets remain bags.
RECURSIVE Untype(_)
Untype(v) ==
  CASE v.k = "variant" -> Untype(v.c[1])
    [] v.k = "map" -> Node("map", "", <<>>, {<<x[1], Untype(x[2])>> : x \in v.m}, NoL)
    [] v.k = "list" -> Node("list", "", TLCEval([i \in 1..Len(v.c) |-> Untype(v.c[i])]), {}, NoL)
    [] v.k = "bag" ->
         LET vals == {Untype(x[1]) : x \in v.m} IN
         Node("bag", "", <<>>,
              {<<u, LET RECURSIVE Sum(_)
                        Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
                    IN Sum({x \in v.m : Untype(x[1]) = u})>> : u \in vals}, NoL)
    [] v.k = "id" -> Node("str", v.s, <<>>, {}, NoL)
    [] v.k = "always" -> UnitV
    [] StartsWith(v.k, "unit:") -> [v EXCEPT !.k = From(@, 6), !.l = NoL]
    [] OTHER -> [v EXCEPT !.l = NoL]

(******************************* Dehydrate *********************************)

\* q: quads; a: terms given to resources (<<resource, term>>).
DOk(q, a) == [ok |-> TRUE, q |-> TLCEval(q), a |-> TLCEval(a), errs |-> {}]
DFail(e) == [ok |-> FALSE, q |-> {}, a |-> {}, errs |-> TLCEval(e)]
DJoin(rs0) ==
  LET rs == TLCEval(rs0) IN
  IF \A r \in rs : r.ok THEN DOk(UNION {r.q : r \in rs}, UNION {r.a : r \in rs})
  ELSE DFail(UNION {r.errs : r \in rs})

Fresh(path, n) == TLCEval([i \in 1..n |-> T("fresh", path, ToString(i))])

Inst(qps, g, env) ==
  LET p == InGraph(qps, g) IN {Instantiate(p[i], env) : i \in 1..Len(p)}

IsTerm(t) == t.k \in {"iri", "lit", "lang", "blank"}

\* sums: the sum layouts entered for this very value. A sum that is (directly or
\* not) a variant of itself does not fit through itself.
RECURSIVE Deh(_, _, _, _, _, _, _)

DehSub(reg, v, g, c, env, path, sums) ==
  LET sg == IF c.hasgraph THEN Apply(c.graph, env) ELSE g IN
  Deh(reg, v, sg, c.layout, ApplyAll(c.input, env), path \o "v", sums)

\* One component: its quads, and its sub value.
DehComp(reg, v, g, c, env, path, sums) ==
  LET e == env \o Fresh(path, c.intro) IN
  DJoin({DOk(Inst(c.ds, g, e), {}), DehSub(reg, v, g, c, e, path, sums)})

LitRes(L, lit, env, g) == DOk(Inst(L.ds, g, env), {<<Apply(L.res, env), lit>>})

Deh(reg, v, g, lid, ins, path, sums) ==
  IF lid \notin DOMAIN reg THEN DFail({"LayoutNotFound"})
  ELSE LET L == reg[lid] IN
  CASE L.kind = "never" -> DFail({"IncompatibleLayout"})
    [] L.kind = "always" -> DOk({}, {})
    [] OTHER ->
    IF L.nin # Len(ins) THEN DFail({"InvalidInputCount"}) ELSE
    LET env == ins \o Fresh(path, L.nintro)
        Hd == DOk(Inst(L.ds, g, env), {})
        Bad == DFail({"IncompatibleLayout"})
        n == IF L.kind \in {"record", "sum", "tuple", "set", "list"} THEN Len(L.comps) ELSE 0
        P(i) == path \o "/" \o ToString(i)
    IN
    CASE L.kind = "unit" -> IF v = Norm(L.cst) THEN Hd ELSE Bad
      [] L.kind = "boolean" ->
           IF v.k # "bool" \/ L.dt # XSD \o "boolean" THEN Bad
           ELSE LitRes(L, T("lit", v.s, L.dt), env, g)
      [] L.kind = "number" ->
           IF v.k # "num" \/ L.dt \notin DecimalTypes \/ ~IsDecimal(v.s) THEN Bad
           ELSE LitRes(L, T("lit", v.s, L.dt), env, g)
      [] L.kind = "string" ->
           IF v.k # "str" THEN Bad ELSE LitRes(L, T("lit", v.s, L.dt), env, g)
      [] L.kind = "bytes" ->
           IF v.k # "bytes" THEN Bad
           ELSE IF L.dt = XSD \o "hexBinary" THEN LitRes(L, T("lit", v.s, L.dt), env, g)
           ELSE IF L.dt = XSD \o "base64Binary" THEN LitRes(L, T("lit", HexToBase64(v.s), L.dt), env, g)
           ELSE Bad
      [] L.kind = "id" ->
           IF v.k = "str" /\ IsIri(v.s) THEN LitRes(L, IriT(v.s), env, g) ELSE Bad
      [] L.kind = "record" ->
           IF v.k # "map" THEN Bad
           ELSE LET keys == {x[1] : x \in v.m}
                    known == {i \in 1..n : StrV(L.comps[i].name) \in keys}
                    unknown == keys \ {StrV(L.comps[i].name) : i \in 1..n}
                    missing == {i \in 1..n : L.comps[i].req /\ i \notin known}
                    Val(i) == (CHOOSE x \in v.m : x[1] = StrV(L.comps[i].name))[2]
                IN DJoin({Hd} \cup {DehComp(reg, Val(i), g, L.comps[i], env, P(i), {}) : i \in known}
                         \cup (IF unknown = {} THEN {} ELSE {Bad})
                         \cup {DFail({"MissingRequiredKey/" \o L.comps[i].name}) : i \in missing})
      [] L.kind = "sum" ->
           IF lid \in sums THEN Bad
           ELSE IF v.k = "variant"
           THEN LET i == CHOOSE i \in 1..n : L.comps[i].name = v.s IN
                DJoin({Hd, DehComp(reg, v.c[1], g, L.comps[i], env, P(i), {})})
           ELSE
           LET rs == TLCEval([i \in 1..n |-> DehComp(reg, v, g, L.comps[i], env, P(i), sums \cup {lid})])
               good == {i \in 1..n : rs[i].ok}
           IN IF good = {} THEN Bad
              ELSE IF Cardinality(good) > 1 THEN DFail({"DataAmbiguity"})
              ELSE DJoin({Hd, rs[CHOOSE i \in good : TRUE]})
      [] L.kind = "set" ->
           IF v.k # "list" THEN Bad
           ELSE DJoin({Hd} \cup {DehComp(reg, v.c[i], g, L.comps[1], env, P(i), {}) : i \in 1..Len(v.c)})
      [] L.kind = "tuple" ->
           IF v.k # "list" THEN Bad
           ELSE LET k == IF n < Len(v.c) THEN n ELSE Len(v.c) IN
                DJoin({Hd} \cup {DehComp(reg, v.c[i], g, L.comps[i], env, P(i), {}) : i \in 1..k}
                      \cup (IF n # Len(v.c) THEN {Bad} ELSE {}))
      [] L.kind = "list" ->
           IF v.k # "list" THEN Bad
           ELSE LET m == Len(v.c)
                    c == L.comps[1]
                    head == Apply(L.head, env)
                    tail == Apply(L.tail, env)
                    Nd(i) == IF i = 1 THEN head ELSE IF i = m + 1 THEN tail
                             ELSE T("fresh", path \o "#", ToString(i))
                    Item(i) == DehComp(reg, v.c[i], g, c, env \o <<Nd(i), Nd(i + 1)>>, P(i), {})
                IN IF m = 0
                   THEN DJoin({Hd, DOk({}, IF tail.k = "iri" /\ head # tail THEN {<<head, tail>>} ELSE {})})
                   ELSE DJoin({Hd} \cup {Item(i) : i \in 1..m})

(* The complete dehydration: input resources get the term the value gives  *)
(* them, and otherwise remain the i-th input; a resource cannot be given   *)
(* two different terms.                                                    *)
InputsOf(n) == TLCEval([i \in 1..n |-> T("input", ToString(i - 1), "")])

TermsOf(a, r) == (IF IsTerm(r) THEN {r} ELSE {}) \cup {x[2] : x \in {x \in a : x[1] = r}}

Dehydrate(reg, v, g, lid, nin) ==
  LET ins == InputsOf(nin)
      d == Deh(reg, v, g, lid, ins, "r", {})
      rs == {x[1] : x \in d.a}
      amb == \E r \in rs : Cardinality(TermsOf(d.a, r)) > 1
      Tm(r) == IF r \in rs THEN CHOOSE t \in TermsOf(d.a, r) : TRUE ELSE r
      Mq(q) == [s |-> Tm(q.s), p |-> Tm(q.p), o |-> Tm(q.o), g |-> Tm(q.g)]
  IN IF ~d.ok THEN [ok |-> FALSE, errs |-> d.errs, q |-> {}, ins |-> <<>>]
     ELSE IF amb THEN [ok |-> FALSE, errs |-> {"TermAmbiguity"}, q |-> {}, ins |-> <<>>]
     ELSE [ok |-> TRUE, errs |-> {}, q |-> {Mq(q) : q \in d.q}, ins |-> TLCEval([i \in 1..nin |-> Tm(ins[i])])]

InputCount(reg, lid) == IF lid \in DOMAIN reg /\ reg[lid].kind \notin {"always", "never"} THEN reg[lid].nin ELSE 1
=============================================================================
