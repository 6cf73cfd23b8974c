-------------------------------- MODULE Rdf --------------------------------
(***************************************************************************)
(* RDF terms, quads, datasets, quad patterns, and the declarative meaning  *)
(* of pattern matching.                                                    *)
(*                                                                         *)
(* Every term is a record [k, v, t] of strings, so that TLC can compare    *)
(* any two of them:                                                        *)
(*   k = "iri"    v the IRI                                                *)
(*   k = "blank"  v the label (with its "_:")                              *)
(*   k = "lit"    v the lexical form, t the datatype IRI                   *)
(*   k = "lang"   v the lexical form, t the language tag                   *)
(*   k = "none"   the default graph (graph position only)                  *)
(*   k = "unb"    an unbound variable (substitutions only)                 *)
(*   k = "fresh"  a resource created by the dehydration (v, t: its place)  *)
(*   k = "input"  an input resource of the dehydration (v: its index)      *)
(*   k = "anon"   an anonymous layout (v: its place)                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Strings

T(k, v, t) == [k |-> k, v |-> v, t |-> t]
IriT(s) == T("iri", s, "")
NoGraph == T("none", "", "")
Unbound == T("unb", "", "")

XSD == "http://www.w3.org/2001/XMLSchema#"
RDFNS == "http://www.w3.org/1999/02/22-rdf-syntax-ns#"

Seq2Set(s) == {s[i] : i \in 1..Len(s)}

(* A pattern is [var, x, r]: a variable (x: its 1-based index in the       *)
(* substitution) or a resource r.                                          *)
PVar(i) == [var |-> TRUE, x |-> i, r |-> Unbound]
PRes(t) == [var |-> FALSE, x |-> 0, r |-> t]

Apply(p, sub) == IF p.var THEN sub[p.x] ELSE p.r
ApplyAll(ps, sub) == TLCEval([i \in 1..Len(ps) |-> Apply(ps[i], sub)])

Bind(subs, p, t) ==
  IF p.var
  THEN {[s EXCEPT ![p.x] = t] : s \in {s \in subs : s[p.x] = Unbound \/ s[p.x] = t}}
  ELSE IF p.r = t THEN subs ELSE {}

\* A variable in graph position ranges over the named graphs.
BindGraph(subs, p, t) == IF p.var /\ t = NoGraph THEN {} ELSE Bind(subs, p, t)

MatchQuad(sub, qp, q) ==
  BindGraph(Bind(Bind(Bind({sub}, qp.s, q.s), qp.p, q.p), qp.o, q.o), qp.g, q.g)

(* All the extensions of the partial substitutions `subs` under which all  *)
(* the quad patterns are quads of D.  The result is a set: one element per *)
(* distinct substitution.                                                  *)
RECURSIVE MatchSet(_, _, _)
MatchSet(D, subs, qps) ==
  IF qps = <<>> \/ subs = {} THEN subs
  ELSE MatchSet(D, UNION {UNION {MatchQuad(s, Head(qps), q) : q \in D} : s \in subs}, Tail(qps))

\* The quad patterns of a layout, read in graph g (a term or NoGraph) when
\* they do not name a graph themselves.
InGraph(qps, g) ==
  TLCEval([i \in 1..Len(qps) |->
     IF qps[i].hasg THEN [s |-> qps[i].s, p |-> qps[i].p, o |-> qps[i].o, g |-> qps[i].g]
     ELSE [s |-> qps[i].s, p |-> qps[i].p, o |-> qps[i].o, g |-> PRes(g)]])

Instantiate(qp, env) ==
  [s |-> Apply(qp.s, env), p |-> Apply(qp.p, env), o |-> Apply(qp.o, env), g |-> Apply(qp.g, env)]

Nulls(n) == TLCEval([i \in 1..n |-> Unbound])
=============================================================================
