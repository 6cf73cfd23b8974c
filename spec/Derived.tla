------------------------------ MODULE Derived -------------------------------
(***************************************************************************)
(* Rust types that derive their conversions from and to RDF.  A type is    *)
(* described by the layout that its attributes stand for, and converts as  *)
(* that layout does, except that                                           *)
(*   - a value of a sum type says which variant it is;                     *)
(*   - the integer types hold only the integers of their datatype;         *)
(*   - an identifier that is not an IRI may be a blank node (rdf_types::Id)*)
(* Errors only tell what is missing from what is ambiguous.                *)
(***************************************************************************)
EXTENDS Interp

DersVerdict(c) ==
  LET b == BuildAll(c.layouts) IN
  IF b.e # {} THEN "NOT-FAITHFUL" ELSE DeiCore(b, c)

\* The registry, for hydration into Rust types.
RustReg(b, c) == (RustKey :> {}) @@ Interpreted(b, c)

\* Forgets the layouts, not the variants.
RECURSIVE Shape(_, _)
Shape(reg, v) ==
  CASE v.k = "variant" ->
         LET cs == reg[v.l].comps
             i == CHOOSE i \in 1..Len(cs) : ToString(i - 1) = v.s
         IN Node("variant", cs[i].name, <<Shape(reg, v.c[1])>>, {}, NoL)
    [] v.k = "map" -> Node("map", "", <<>>, {<<x[1], Shape(reg, x[2])>> : x \in v.m}, NoL)
    [] v.k = "list" -> Node("list", "", TLCEval([i \in 1..Len(v.c) |-> Shape(reg, v.c[i])]), {}, NoL)
    [] v.k = "bag" ->
         LET vals == {Shape(reg, x[1]) : x \in v.m} IN
         Node("bag", "", <<>>,
              {<<u, LET RECURSIVE Sum(_)
                        Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
                    IN Sum({x \in v.m : Shape(reg, x[1]) = u})>> : u \in vals}, NoL)
    [] v.k = "id" -> Node("str", v.s, <<>>, {}, NoL)
    [] StartsWith(v.k, "unit:") -> UnitV
    [] OTHER -> [v EXCEPT !.l = NoL]

(* The lists of a Rust value are bags where the specification has a bag.   *)
RECURSIVE Agrees(_, _)
Agrees(u, v) ==
  CASE u.k = "bag" ->
         /\ v.k = "list"
         /\ LET n == Len(v.c)
                Match(i) == {x \in u.m : Agrees(x[1], v.c[i])}
            IN /\ \A i \in 1..n : Match(i) # {}
               /\ \A x \in u.m : Cardinality({i \in 1..n : Agrees(x[1], v.c[i])}) = x[2]
    [] u.k = "list" -> v.k = "list" /\ Len(u.c) = Len(v.c) /\ \A i \in 1..Len(u.c) : Agrees(u.c[i], v.c[i])
    [] u.k = "map" ->
         /\ v.k = "map"
         /\ {x[1] : x \in u.m} = {x[1] : x \in v.m}
         /\ \A x \in u.m : \E y \in v.m : x[1] = y[1] /\ Agrees(x[2], y[2])
    [] u.k = "variant" -> v.k = "variant" /\ u.s = v.s /\ Agrees(u.c[1], v.c[1])
    [] OTHER -> u = v

RustErr(e) ==
  IF StartsWith(e, "DataAmbiguity") THEN "ambiguous"
  ELSE IF StartsWith(e, "MissingData/Key/") THEN e
  ELSE "missing"

DerdVerdict(c) ==
  LET b == BuildAll(c.layouts)
      reg == RustReg(b, c)
      h == Hydrate(reg, SpecData(c.dataset), c.graph, b.refs[1], c.inputs)
      errs == {RustErr(e) : e \in h.errs}
      hy == c.hy
  IN IF b.e # {} THEN "NOT-FAITHFUL"
     ELSE IF hy.st = "ok" THEN
       IF ~h.ok THEN "deserializes, but should report " \o ToString(h.errs)
       ELSE IF Agrees(Shape(reg, h.v), Norm(hy.v)) THEN "" ELSE "deserializes to another value"
     ELSE IF hy.st # "err" THEN "deserialize: " \o hy.st
     ELSE IF h.ok THEN "does not deserialize: " \o hy.e
     ELSE IF hy.e \in errs THEN ""
     ELSE "deserialize reports " \o hy.e \o " instead of " \o ToString(h.errs)
=============================================================================
