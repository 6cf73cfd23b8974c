------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The layout language: from the abstract syntax of a layout (as decoded   *)
(* from JSON; omitted entries are absent from the record) to the compiled  *)
(* layouts the distillation interprets.                                    *)
(*                                                                         *)
(* A layout definition opens a scope: base IRI, prefixes, and variables    *)
(* (its inputs then its intros).  Components (fields, variants, items,     *)
(* list nodes) extend that scope with their own intros.  A nested layout   *)
(* definition inherits base and prefixes but no variable.  A variable      *)
(* declared twice is shadowed by its last declaration.                     *)
(***************************************************************************)
EXTENDS Rdf

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

Scope0 == [hasBase |-> FALSE, base |-> "", pfx |-> <<>>, vars |-> <<>>]
NoVars(sc) == [sc EXCEPT !.vars = <<>>]
WithVars(sc, names) == [sc EXCEPT !.vars = @ \o names]

R(e, v) == [e |-> e, v |-> v]

ResolveIri(s, sc) ==
  LET sch == SchemeOf(s) IN
  IF sch # "" THEN
    IF sch \in DOMAIN sc.pfx
    THEN LET full == sc.pfx[sch] \o From(s, Len(sch) + 2) IN
         IF IsIri(full) THEN R({}, full) ELSE R({"InvalidIri"}, "")
    ELSE R({}, s)
  ELSE IF sc.hasBase THEN R({}, Resolve(sc.base, s))
  ELSE R({"NoBaseIri"}, "")

LastIndex(vars, n) ==
  LET I == {i \in 1..Len(vars) : vars[i] = n} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

BPat(p, sc) ==
  CASE p.k = "var" ->
         LET i == LastIndex(sc.vars, p.v) IN
         IF i = 0 THEN R({"UndeclaredVariable"}, PVar(1)) ELSE R({}, PVar(i))
    [] p.k = "iri" -> LET r == ResolveIri(p.v, sc) IN R(r.e, PRes(IriT(r.v)))
    [] p.k = "lit" -> LET r == ResolveIri(p.t, sc) IN R(r.e, PRes(T("lit", p.v, r.v)))
    [] p.k = "lang" -> R({}, PRes(T("lang", p.v, p.t)))
    [] p.k = "none" -> R({}, PRes(NoGraph))     \* the default graph, named by null

BPats(ps, sc) ==
  LET rs == TLCEval([i \in 1..Len(ps) |-> BPat(ps[i], sc)]) IN
  R(UNION {rs[i].e : i \in 1..Len(ps)}, TLCEval([i \in 1..Len(ps) |-> rs[i].v]))

\* A quad is a sequence of 3 or 4 patterns.
BQuads(qs, sc) ==
  LET rs == TLCEval([i \in 1..Len(qs) |-> BPats(qs[i], sc)]) IN
  R(UNION {rs[i].e : i \in 1..Len(qs)},
    TLCEval([i \in 1..Len(qs) |->
       LET v == rs[i].v IN
       [s |-> v[1], p |-> v[2], o |-> v[3],
        hasg |-> Len(v) = 4, g |-> IF Len(v) = 4 THEN v[4] ELSE PRes(NoGraph)]]))

Quad3(s, p, o) == [s |-> s, p |-> p, o |-> o, hasg |-> FALSE, g |-> PRes(NoGraph)]

(* base, prefixes and id of a header are all read in the enclosing scope.  *)
BScope(l, sc) ==
  LET b == IF Has(l, "base") THEN ResolveIri(l.base, sc) ELSE R({}, "")
      ps == Get(l, "prefixes", <<>>)
      rs == TLCEval([i \in 1..Len(ps) |-> ResolveIri(ps[i][2], sc)])
      names == {ps[i][1] : i \in 1..Len(ps)}
      own == TLCEval([n \in names |-> rs[CHOOSE i \in 1..Len(ps) : ps[i][1] = n].v])
  IN R(b.e \cup UNION {rs[i].e : i \in 1..Len(ps)},
       [hasBase |-> sc.hasBase \/ Has(l, "base"),
        base |-> IF Has(l, "base") THEN b.v ELSE sc.base,
        pfx |-> own @@ sc.pfx,
        vars |-> sc.vars \o Get(l, "input", <<"self">>) \o Get(l, "intro", <<>>)])

(* Extra properties are literals. An integer has the narrowest datatype    *)
(* that holds it.                                                          *)
Digits2(s) == IF At(s, 1) = "-" THEN From(s, 2) ELSE s
IntType(s) ==
  IF At(s, 1) = "-"
  THEN LET d == Digits2(s) IN
       IF AtMost(d, "128") THEN "byte" ELSE IF AtMost(d, "32768") THEN "short"
       ELSE IF AtMost(d, "2147483648") THEN "int" ELSE "long"
  ELSE IF AtMost(s, "255") THEN "unsignedByte" ELSE IF AtMost(s, "65535") THEN "unsignedShort"
       ELSE IF AtMost(s, "4294967295") THEN "unsignedInt" ELSE "unsignedLong"

BExtraValue(x, sc) ==
  CASE x.k = "bool" -> R({}, T("lit", x.v, XSD \o "boolean"))
    [] x.k = "int" -> R({}, T("lit", x.v, XSD \o IntType(x.v)))
    [] x.k = "str" -> R({}, T("lit", x.v, XSD \o "string"))
    [] x.k = "lit" -> LET r == ResolveIri(x.t, sc) IN R(r.e, T("lit", x.v, r.v))

BExtra(es, sc) ==
  LET ps == TLCEval([i \in 1..Len(es) |-> ResolveIri(es[i][1], sc)])
      vs == TLCEval([i \in 1..Len(es) |-> BExtraValue(es[i][2], sc)])
  IN R(UNION {ps[i].e \cup vs[i].e : i \in 1..Len(es)},
       TLCEval([i \in 1..Len(es) |-> <<IriT(ps[i].v), vs[i].v>>]))

BR(e, v, d) == [e |-> e, v |-> v, d |-> d]

RECURSIVE BLayout(_, _, _)

BRef(r, sc, path) ==
  IF r.k = "ref"
  THEN LET i == ResolveIri(r.v, NoVars(sc)) IN BR(i.e, IriT(i.v), <<>>)
  ELSE BLayout(r.l, NoVars(sc), path)

\* A value format.  `dflt` is the variable that is the default input.
BFormat(f, sc, dflt, path) ==
  LET lr == BRef(f.layout, sc, path)
      ins == BPats(Get(f, "input", <<[k |-> "var", v |-> dflt, t |-> ""]>>), sc)
      g == IF Has(f, "graph") THEN BPat(f.graph, sc) ELSE R({}, PRes(NoGraph))
  IN BR(lr.e \cup ins.e \cup g.e,
        [layout |-> lr.v, input |-> ins.v, hasgraph |-> Has(f, "graph"), graph |-> g.v],
        lr.d)

Comp(name, n, f, ds, req) ==
  [name |-> name, intro |-> n, layout |-> f.layout, input |-> f.input,
   hasgraph |-> f.hasgraph, graph |-> f.graph, ds |-> ds, req |-> req]

\* Fields and items: intro defaults to "value"; "property" p stands for the
\* quad (first input, p, first intro).
BField(l, f, sc, path) ==
  LET intro == Get(f, "intro", <<"value">>)
      fsc == WithVars(sc, intro)
      ds == BQuads(Get(f, "dataset", <<>>), fsc)
      fm == BFormat(f.value, fsc, "value", path)
      nin == Len(Get(l, "input", <<"self">>))
      pr == IF Has(f, "property") THEN BPat(f.property, fsc) ELSE R({}, PRes(NoGraph))
      pe == IF ~Has(f, "property") THEN {}
            ELSE (IF nin = 0 THEN {"NoPropertySubject"} ELSE {})
                 \cup (IF intro = <<>> THEN {"NoPropertyObject"} ELSE {})
      pq == IF Has(f, "property") /\ pe = {}
            THEN <<Quad3(PVar(1), pr.v, PVar(Len(sc.vars) + 1))>> ELSE <<>>
  IN BR(ds.e \cup fm.e \cup pr.e \cup pe,
        Comp(Get(f, "name", ""), Len(intro), fm.v, ds.v \o pq, Get(f, "required", FALSE)),
        fm.d)

BVariant(f, sc, path) ==
  LET intro == Get(f, "intro", <<>>)
      fsc == WithVars(sc, intro)
      ds == BQuads(Get(f, "dataset", <<>>), fsc)
      fm == BFormat(f.value, fsc, "self", path)
  IN BR(ds.e \cup fm.e, Comp(f.name, Len(intro), fm.v, ds.v, FALSE), fm.d)

\* List nodes: "head", "rest", then the intros.  A bare layout stands for
\* a node with the RDF list vocabulary.
BNode(f, sc, path) ==
  LET n == Len(sc.vars)
      intro == Get(f, "intro", <<"value">>)
      fsc == WithVars(sc, <<Get(f, "head", "head"), Get(f, "rest", "rest")>> \o intro)
      fm == BFormat(f.value, fsc, "value", path)
      bare == Get(f, "bare", FALSE)
      blr == BRef(f.value.layout, sc, path)
      ListDs(first) == <<Quad3(PVar(n+1), PRes(IriT(RDFNS \o "first")), first),
                         Quad3(PVar(n+1), PRes(IriT(RDFNS \o "rest")), PVar(n+2))>>
      ds == IF Has(f, "dataset") THEN BQuads(f.dataset, fsc)
            ELSE IF Len(fm.v.input) = 1 THEN R({}, ListDs(fm.v.input[1]))
            ELSE R({}, <<>>)
  IN IF bare
     THEN BR(blr.e,
             Comp("", 1, [layout |-> blr.v, input |-> <<PVar(n+3)>>, hasgraph |-> FALSE,
                          graph |-> PRes(NoGraph)], ListDs(PVar(n+3)), TRUE),
             blr.d)
     ELSE BR(fm.e \cup ds.e, Comp("", Len(intro), fm.v, ds.v, TRUE), fm.d)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

BComps(B(_, _), cs) ==
  LET rs == TLCEval([i \in 1..Len(cs) |-> B(cs[i], ToString(i))]) IN
  BR(UNION {rs[i].e : i \in 1..Len(cs)}, TLCEval([i \in 1..Len(cs) |-> rs[i].v]),
     Concat(TLCEval([i \in 1..Len(cs) |-> rs[i].d])))

Literals == {"unit", "boolean", "number", "bytes", "string", "id"}

BLayout(l, sc0, path) ==
  IF l.t \in {"always", "never"}
  THEN BR({}, T("anon", path, ""), <<[id |-> T("anon", path, ""), lay |-> [kind |-> l.t]]>>)
  ELSE
  LET id == IF Has(l, "id") THEN ResolveIri(l.id, sc0) ELSE R({}, "")
      idT == IF Has(l, "id") THEN IriT(id.v) ELSE T("anon", path, "")
      hs == BScope(l, sc0)
      sc == hs.v
      ds == BQuads(Get(l, "dataset", <<>>), sc)
      nin == Len(Get(l, "input", <<"self">>))
      nintro == Len(Get(l, "intro", <<>>))
      ex == BExtra(Get(l, "extra", <<>>), sc)
      pre == id.e \cup hs.e \cup ds.e \cup ex.e
      Hdr(kind) == [kind |-> kind, nin |-> nin, nintro |-> nintro, ds |-> ds.v, ext |-> ex.v]
      Done(e, lay, d) == BR(pre \cup e, idT, Append(d, [id |-> idT, lay |-> lay]))
      res == IF Has(l, "resource") THEN BPat(l.resource, sc)
             ELSE IF nin = 0 THEN R({"MissingLiteralTargetResource"}, PVar(1))
             ELSE R({}, PVar(1))
      dt == IF Has(l, "datatype") THEN ResolveIri(l.datatype, sc)
            ELSE R({}, IF l.t = "boolean" THEN XSD \o "boolean" ELSE XSD \o "string")
  IN
  CASE l.t \in {"union", "intersection"} ->     \* not implemented, and reported as such
         Done({"Unsupported"}, Hdr("unit") @@ [cst |-> [k |-> "unit", s |-> "", c |-> <<>>]], <<>>)
    [] l.t = "unit" -> Done({}, Hdr("unit") @@ [cst |-> Get(l, "cst", [k |-> "unit", s |-> "", c |-> <<>>])], <<>>)
    [] l.t = "id" -> Done(res.e, Hdr("id") @@ [res |-> res.v, dt |-> "", pat |-> Get(l, "pattern", "")], <<>>)
    [] l.t \in {"boolean", "number", "bytes", "string"} ->
         Done(res.e \cup dt.e, Hdr(l.t) @@ [res |-> res.v, dt |-> dt.v, pat |-> Get(l, "pattern", "")], <<>>)
    [] l.t = "record" ->
         LET B(f, i) == BField(l, f, sc, path \o "." \o i)
             cs == BComps(B, Get(l, "fields", <<>>))
         IN Done(cs.e, Hdr("record") @@ [comps |-> cs.v], cs.d)
    [] l.t = "sum" ->
         LET B(f, i) == BVariant(f, sc, path \o "." \o i)
             cs == BComps(B, Get(l, "variants", <<>>))
         IN Done(cs.e, Hdr("sum") @@ [comps |-> cs.v], cs.d)
    [] l.t = "set" ->
         LET B(f, i) == BField(l, f, sc, path \o "." \o i)
             cs == BComps(B, <<l.item>>)
         IN Done(cs.e, Hdr("set") @@ [comps |-> cs.v], cs.d)
    [] l.t = "tuple" ->
         LET B(f, i) == BField(l, f, sc, path \o "." \o i)
             cs == BComps(B, Get(l, "items", <<>>))
         IN Done(cs.e, Hdr("tuple") @@ [comps |-> cs.v], cs.d)
    [] l.t = "list" ->
         LET B(f, i) == BNode(f, sc, path \o "." \o i)
             cs == BComps(B, <<l.node>>)
             hd == BPat(Get(l, "head", [k |-> "var", v |-> "self", t |-> ""]), sc)
             tl == BPat(Get(l, "tail", [k |-> "iri", v |-> RDFNS \o "nil", t |-> ""]), sc)
         IN Done(cs.e \cup hd.e \cup tl.e,
                 Hdr("list") @@ [comps |-> cs.v, head |-> hd.v, tail |-> tl.v], cs.d)

DefIds(defs) == {defs[i].id : i \in 1..Len(defs)}
HasDup(defs) == \E i, j \in 1..Len(defs) : i # j /\ defs[i].id = defs[j].id
AsReg(defs) == TLCEval([t \in DefIds(defs) |-> defs[CHOOSE i \in 1..Len(defs) : defs[i].id = t].lay])

(* Definitions are built one after the other into the same builder; the    *)
(* registry is the union, and no identifier can be defined twice.          *)
BuildAll(ls) ==
  LET rs == TLCEval([i \in 1..Len(ls) |-> BLayout(ls[i], Scope0, ToString(i))])
      defs == Concat(TLCEval([i \in 1..Len(ls) |-> rs[i].d]))
      e == UNION {rs[i].e : i \in 1..Len(ls)}
  IN [e |-> e \cup (IF HasDup(defs) THEN {"LayoutRedefinition"} ELSE {}),
      refs |-> TLCEval([i \in 1..Len(ls) |-> rs[i].v]),
      reg |-> AsReg(defs)]
=============================================================================
