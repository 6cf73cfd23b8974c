------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Is one recorded call of the real code a behaviour of the specification? *)
(*                                                                         *)
(* A case is a record logged by the harness.  Verdict(c) is "" when the    *)
(* case conforms, and otherwise says what differs.                         *)
(***************************************************************************)
EXTENDS Prelude

(************************* compiled layouts (real) *************************)

\* Real identifiers to those of the specification.  IRIs are their own
\* image; anonymous layouts are paired by walking both registries together.
RealReg(c) == TLCEval([t \in {c.reg[i].id : i \in 1..Len(c.reg)} |->
                 c.reg[CHOOSE i \in 1..Len(c.reg) : c.reg[i].id = t].lay])

HasComps(L) == L.kind \in {"record", "sum", "set", "tuple", "list"}

CompNamed(L, name) == L.comps[CHOOSE i \in 1..Len(L.comps) : L.comps[i].name = name]

\* Pairs of corresponding components; {} when the components differ.
CompPairs(A, B) ==
  IF ~HasComps(A) \/ A.kind # B.kind \/ Len(A.comps) # Len(B.comps) THEN {}
  ELSE IF A.kind = "record"
  THEN IF {A.comps[i].name : i \in 1..Len(A.comps)} = {B.comps[i].name : i \in 1..Len(B.comps)}
       THEN {<<A.comps[i], CompNamed(B, A.comps[i].name)>> : i \in 1..Len(A.comps)} ELSE {}
  ELSE {<<A.comps[i], B.comps[i]>> : i \in 1..Len(A.comps)}

RECURSIVE Pairs(_, _, _, _)
\* Closure of a set of <<spec id, real id>> under sub layouts.
Pairs(S, Rr, todo, done) ==
  IF todo = {} THEN done
  ELSE LET p == CHOOSE p \in todo : TRUE
           next == IF p[1] \in DOMAIN S /\ p[2] \in DOMAIN Rr
                   THEN {<<x[1].layout, x[2].layout>> : x \in CompPairs(S[p[1]], Rr[p[2]])}
                   ELSE {}
       IN Pairs(S, Rr, (todo \cup next) \ (done \cup {p}), done \cup {p})

IsIdPair(p) == IF p[1].k = "anon" THEN p[2].k = "blank" ELSE p[1] = p[2]

SameMeta(a, b) ==
  /\ a.intro = b.intro /\ a.input = b.input /\ a.hasgraph = b.hasgraph /\ a.graph = b.graph
  /\ Seq2Set(a.ds) = Seq2Set(b.ds)

SameLayout(A, B, pairs) ==
  /\ A.kind = B.kind
  /\ A.kind \in {"always", "never"} \/
     ( /\ A.nin = B.nin /\ A.nintro = B.nintro /\ Seq2Set(A.ds) = Seq2Set(B.ds)
       /\ Seq2Set(A.ext) = Seq2Set(B.ext)
       /\ (A.kind \in {"boolean", "number", "bytes", "string", "id"} => A.res = B.res /\ A.dt = B.dt)
       /\ (A.kind = "unit" => Norm(A.cst) = Norm(B.cst))
       /\ (A.kind = "list" => A.head = B.head /\ A.tail = B.tail)
       /\ (HasComps(A) =>
             /\ Len(A.comps) = Len(B.comps)
             /\ Cardinality(CompPairs(A, B)) = Cardinality({x[1] : x \in CompPairs(A, B)})
             /\ (Len(A.comps) > 0 => CompPairs(A, B) # {})
             /\ \A x \in CompPairs(A, B) :
                  /\ SameMeta(x[1], x[2])
                  /\ (A.kind = "sum" => x[1].name = x[2].name)
                  /\ (A.kind = "record" => x[1].req = x[2].req)
                  /\ <<x[1].layout, x[2].layout>> \in pairs))

RootPairs(b, c) == {<<b.refs[i], c.refs[i]>> : i \in 1..Len(c.refs)}

AllPairs(b, c) ==
  LET Rr == RealReg(c)
      named == {<<t, t>> : t \in {t \in DOMAIN b.reg : t.k = "iri"}}
  IN Pairs(b.reg, Rr, RootPairs(b, c) \cup named, {})

\* The real registry is the one of the specification, up to the names of
\* anonymous layouts.
SameRegistry(b, c) ==
  LET Rr == RealReg(c)
      ps == AllPairs(b, c)
  IN /\ Len(c.refs) = Len(b.refs)
     /\ \A p \in ps : IsIdPair(p)
     /\ \A p, q \in ps : (p[1] = q[1]) = (p[2] = q[2])
     /\ \A p \in ps : (p[1] \in DOMAIN b.reg) = (p[2] \in DOMAIN Rr)
     /\ DOMAIN b.reg \subseteq {p[1] : p \in ps}
     /\ DOMAIN Rr \subseteq {p[2] : p \in ps}
     /\ \A p \in ps : p[1] \in DOMAIN b.reg => SameLayout(b.reg[p[1]], Rr[p[2]], ps)

\* "" or what is wrong with the compilation.
BuildVerdict(b, c) ==
  IF c.built.st = "ok"
  THEN IF b.e # {} THEN "compiles, but should report " \o ToString(b.e)
       ELSE IF SameRegistry(b, c) THEN "" ELSE "compiled to different layouts"
  ELSE IF c.built.st # "err" THEN "compilation: " \o c.built.st
  ELSE IF b.e = {} THEN "does not compile: " \o c.built.e
  ELSE IF c.built.e \in b.e THEN ""
  ELSE "compilation reports " \o c.built.e \o " instead of " \o ToString(b.e)

(******************************** values ***********************************)

Image(ps, t) ==
  IF \E p \in ps : p[2] = t THEN (CHOOSE p \in ps : p[2] = t)[1] ELSE T("unknown", t.v, "")

\* A real typed value, in the terms of the specification.
RECURSIVE FromReal(_, _, _)
FromReal(v, S, ps) ==
  LET l == IF v.l.k = "none" THEN NoL ELSE Image(ps, v.l)
      sub == TLCEval([i \in 1..Len(v.c) |-> FromReal(v.c[i], S, ps)])
  IN CASE v.k = "map" ->
            Node("map", "", <<>>, {<<sub[2*i-1], sub[2*i]>> : i \in 1..(Len(sub) \div 2)}, l)
       [] v.k = "list" ->
            IF l \in DOMAIN S /\ S[l].kind = "set" THEN Node("bag", "", <<>>, Bag(sub), l)
            ELSE Node("list", "", sub, {}, l)
       [] v.k = "always" -> Node("always", "", <<>>, {}, NoL)
       [] StartsWith(v.k, "unit:") ->
            [Norm([k |-> From(v.k, 6), s |-> v.s, c |-> v.c]) EXCEPT !.l = l, !.k = "unit:" \o @]
       [] v.k = "variant" -> Node("variant", v.s, sub, {}, l)
       [] OTHER -> Node(v.k, v.s, <<>>, {}, l)

\* Forgetting the layouts of a real typed value, in order.
RECURSIVE StripReal(_)
StripReal(v) ==
  CASE v.k = "variant" -> StripReal(v.c[1])
    [] v.k = "always" -> StripReal(v.c[1])
    [] v.k = "id" -> [k |-> "str", s |-> v.s, c |-> <<>>]
    [] StartsWith(v.k, "unit:") ->
         [k |-> From(v.k, 6), s |-> v.s, c |-> TLCEval([i \in 1..Len(v.c) |-> StripReal(v.c[i])])]
    [] OTHER -> [k |-> v.k, s |-> v.s, c |-> TLCEval([i \in 1..Len(v.c) |-> StripReal(v.c[i])])]

SpecData(qs) == {qs[i] : i \in 1..Len(qs)}

\* What hydrating gives, against what the specification says (h).
HydVerdict(h, hy, b, ps) ==
  IF hy.st = "ok" THEN
    IF ~h.ok THEN "hydrates, but should report " \o ToString(h.errs)
    ELSE IF FromReal(hy.v, b.reg, ps) # h.v THEN "hydrates to another value"
         ELSE IF StripReal(hy.v) # hy.u THEN "untyped value differs from the typed one"
         ELSE ""
  ELSE IF hy.st # "err" THEN "hydrate: " \o hy.st
  ELSE IF h.ok THEN "does not hydrate: " \o hy.e
  ELSE IF hy.e \in h.errs THEN ""
  ELSE "hydrate reports " \o hy.e \o " instead of " \o ToString(h.errs)

(******************************** datasets *********************************)

\* Numerals are compared by value.
NT(t) ==
  IF t.k # "lit" THEN t
  ELSE IF t.t \in DecimalTypes /\ IsDecimal(t.v) THEN [t EXCEPT !.v = NormDecimal(t.v)]
  ELSE IF t.t = XSD \o "hexBinary" /\ IsHex(t.v) THEN [t EXCEPT !.v = LowerHex(t.v)]
  ELSE t
NQ(q) == [s |-> NT(q.s), p |-> NT(q.p), o |-> NT(q.o), g |-> NT(q.g)]

(* Is there a bijection from the fresh resources of A to the free ones of B *)
(* that sends the quads of A to those of B?  Both are first coloured: the  *)
(* colour of a resource refines, round after round, with the colours of    *)
(* the quads it is in; a resource can only be sent to one of its colour.   *)
Anon(t) == t.k \in {"fresh", "free"}
AnonIn(Q) == {t \in UNION {{q.s, q.p, q.o, q.g} : q \in Q} : Anon(t)}

\* What t sees in Q under the colouring col.
View(t, Q, col) ==
  LET C(x) == IF x = t THEN <<"self">> ELSE IF Anon(x) THEN <<"anon", col[x]>> ELSE <<"term", x>>
      V(q) == <<C(q.s), C(q.p), C(q.o), C(q.g)>>
      mine == {q \in Q : t \in {q.s, q.p, q.o, q.g}}
  IN {<<v, Cardinality({q \in mine : V(q) = v})>> : v \in {V(q) : q \in mine}}

RECURSIVE Number(_, _, _)
\* Numbers the elements of a set.
Number(S, n, f) ==
  IF S = {} THEN f ELSE LET x == CHOOSE x \in S : TRUE IN Number(S \ {x}, n + 1, (x :> n) @@ f)

RECURSIVE Colours(_, _, _, _)
\* X: the anonymous resources of A and B, which are disjoint.
Colours(A, B, col, k) ==
  LET X == DOMAIN col
      key == TLCEval([t \in X |-> <<col[t], View(t, IF t.k = "fresh" THEN A ELSE B, col)>>])
      num == TLCEval(Number({key[t] : t \in X}, 1, <<>>))
      nxt == TLCEval([t \in X |-> num[key[t]]])
      Classes(c) == Cardinality({c[t] : t \in X})
  IN IF k = 0 \/ Classes(nxt) = Classes(col) THEN nxt ELSE Colours(A, B, nxt, k - 1)

Bnd(t, f) == t.k # "fresh" \/ t \in DOMAIN f
Rank(q, f) == Cardinality({x \in {"s", "p", "o", "g"} : Bnd(q[x], f)})

Ext(f, a, b, col) ==   \* {f'} or {}
  IF a.k # "fresh" THEN IF a = b THEN {f} ELSE {}
  ELSE IF a \in DOMAIN f THEN IF f[a] = b THEN {f} ELSE {}
  ELSE IF b.k = "free" /\ col[a] = col[b] /\ \A x \in DOMAIN f : f[x] # b THEN {(a :> b) @@ f} ELSE {}

ExtQ(f, q, r, col) ==
  UNION {UNION {UNION {Ext(f3, q.g, r.g, col) : f3 \in Ext(f2, q.o, r.o, col)}
                : f2 \in Ext(f1, q.p, r.p, col)} : f1 \in Ext(f, q.s, r.s, col)}

RECURSIVE Search(_, _, _, _)
Search(A, B, f, col) ==
  IF A = {} THEN TRUE
  ELSE LET q == CHOOSE q \in A : \A x \in A : Rank(q, f) >= Rank(x, f) IN
       IF Rank(q, f) = 4
       THEN LET tr(t) == IF t.k = "fresh" THEN f[t] ELSE t
                r == [s |-> tr(q.s), p |-> tr(q.p), o |-> tr(q.o), g |-> tr(q.g)]
            IN r \in B /\ Search(A \ {q}, B \ {r}, f, col)
       ELSE \E r \in B : \E f1 \in ExtQ(f, q, r, col) : Search(A \ {q}, B \ {r}, f1, col)

Iso(A, B) ==
  LET X == AnonIn(A) \cup AnonIn(B)
      col == IF X = {} THEN <<>> ELSE Colours(A, B, TLCEval([t \in X |-> 0]), 60)
      Hist(S) == {<<col[t], Cardinality({u \in S : col[u] = col[t]})>> : t \in S}
  IN /\ Hist(AnonIn(A)) = Hist(AnonIn(B))
     /\ Search(A, B, <<>>, col)

InputTerm(t) == IF t.k = "input" THEN T("blank", "_:input" \o t.v, "") ELSE t
Named(q) == [s |-> InputTerm(q.s), p |-> InputTerm(q.p), o |-> InputTerm(q.o), g |-> InputTerm(q.g)]

QTerms(Q) == UNION {{q.s, q.p, q.o, q.g} : q \in Q}

SameDataset(A, B) ==
  LET a == {NQ(q) : q \in A}
      known == {t \in QTerms(A) : t.k = "blank"}
      Fr(t) == IF t.k = "blank" /\ t \notin known THEN [t EXCEPT !.k = "free"] ELSE t
      FrQ(q) == [s |-> Fr(q.s), p |-> Fr(q.p), o |-> Fr(q.o), g |-> Fr(q.g)]
      b == {FrQ(NQ(q)) : q \in B}
  IN Cardinality(a) = Cardinality(b) /\ Iso(a, b)

DehVerdict(d, de) ==
  IF de.st = "ok" THEN
    IF ~d.ok THEN "dehydrates, but should report " \o ToString(d.errs)
    ELSE LET A == {Named(q) : q \in d.q}
             B == SpecData(de.q)
         IN IF TLCEval([i \in 1..Len(de.ins) |-> NT(de.ins[i])]) # TLCEval([i \in 1..Len(d.ins) |-> NT(InputTerm(d.ins[i]))])
            THEN "other input terms"
            ELSE IF SameDataset(A, B) THEN "" ELSE "dehydrates to another dataset"
  ELSE IF de.st # "err" THEN "dehydrate: " \o de.st
  ELSE IF d.ok THEN "does not dehydrate: " \o de.e
  ELSE IF de.e \in d.errs THEN ""
  ELSE "dehydrate reports " \o de.e \o " instead of " \o ToString(d.errs)

(*************************** round trips ***********************************)

\* The same plain value, sets being compared without order or repetition.
\* v: the original; b: the (specification of the) value read back.
RECURSIVE SetEq(_, _)
SetEq(v, b) ==
  CASE b.k = "bag" ->
         /\ v.k = "list"
         /\ \A i \in 1..Len(v.c) : \E x \in b.m : SetEq(v.c[i], x[1])
         /\ \A x \in b.m : \E i \in 1..Len(v.c) : SetEq(v.c[i], x[1])
    [] b.k = "list" -> v.k = "list" /\ Len(v.c) = Len(b.c) /\ \A i \in 1..Len(v.c) : SetEq(v.c[i], b.c[i])
    [] b.k = "variant" -> SetEq(v, b.c[1])
    [] b.k = "map" ->
         /\ v.k = "map" /\ {x[1] : x \in v.m} = {x[1] : x \in b.m}
         /\ \A x \in v.m : \A y \in b.m : x[1] = y[1] => SetEq(x[2], y[2])
    [] b.k = "id" -> v.k = "str" /\ v.s = b.s
    [] b.k = "always" -> v = UnitV
    [] StartsWith(b.k, "unit:") -> v = [b EXCEPT !.k = From(@, 6), !.l = NoL]
    [] OTHER -> v.k = b.k /\ v.s = b.s

(* A value is faithful to its layout when the specified dehydration can be *)
(* read back: then so must be the real one.                                *)
Faithful(c, b) ==
  LET root == b.refs[1]
      v == Norm(c.value)
      reg == WithPrelude(b.reg)
      d == Dehydrate(reg, v, NoGraph, root, InputCount(reg, root))
      h == Hydrate(reg, d.q, NoGraph, root, d.ins)
  IN d.ok /\ h.ok /\ SetEq(v, h.v)

RtVerdict(c, b, ps) ==
  IF ~Faithful(c, b) THEN "NOT-FAITHFUL"
  ELSE IF c.de.st # "ok" THEN "does not dehydrate: " \o c.de.e
  ELSE IF c.hy.st # "ok" THEN "does not hydrate back: " \o c.hy.e
  ELSE IF SetEq(Norm(c.value), FromReal(c.hy.v, b.reg, ps)) THEN "" ELSE "reads back another value"

(******************************* verdicts **********************************)

\* What a compiled layout (as recorded) says about itself.
FactVerdict(f, L) ==
  LET used == IF HasComps(L) THEN [i \in 1..Len(L.comps) |-> L.comps[i].layout] ELSE <<>> IN
  IF f.nin # (IF L.kind \in {"always", "never"} THEN <<>> ELSE <<L.nin>>) THEN "another number of inputs is announced"
  ELSE IF Seq2Set(f.deps) # Seq2Set(used) \/ Len(f.deps) # Cardinality(Seq2Set(used)) \/ ~f.sorted
       THEN "the dependencies are not those of the layout"
  ELSE IF \E t \in Seq2Set(used) \cup Seq2Set(f.visits) :
            Cardinality({i \in 1..Len(used) : used[i] = t}) # Cardinality({i \in 1..Len(f.visits) : f.visits[i] = t})
       THEN "does not visit the layouts it uses"
  ELSE IF f.again # "ok" THEN "the compiled layout is not read back as it was written: " \o f.again
  ELSE ""
RECURSIVE FactsVerdict(_, _)
FactsVerdict(c, i) ==
  IF i > Len(c.facts) THEN ""
  ELSE LET v == FactVerdict(c.facts[i], RealReg(c)[c.facts[i].id]) IN
       IF v # "" THEN v ELSE FactsVerdict(c, i + 1)

LayoutVerdict(c) ==
  LET b == BuildAll(c.layouts)
      bv == BuildVerdict(b, c)
  IN IF bv # "" THEN bv
     ELSE IF c.built.st # "ok" THEN ""
     ELSE IF c.op = "build" THEN (IF "facts" \in DOMAIN c THEN FactsVerdict(c, 1) ELSE "")
     ELSE LET ps == AllPairs(b, c)
              root == b.refs[1]
              reg == WithPrelude(b.reg)
          IN CASE c.op = "hyd" ->
                    HydVerdict(Hydrate(reg, SpecData(c.dataset), c.graph, root, c.inputs), c.hy, b, ps)
               [] c.op = "deh" ->
                    DehVerdict(Dehydrate(reg, Norm(c.value), NoGraph, root, InputCount(reg, root)), c.de)
               [] c.op = "rt" -> RtVerdict(c, b, ps)
=============================================================================
