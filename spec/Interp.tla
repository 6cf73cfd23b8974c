------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The general forms of hydration and dehydration, under an interpretation *)
(* where resources are not terms: each has any number of them.             *)
(*                                                                         *)
(* A resource is written here as the term it is interpreted from (or as a  *)
(* blank node of its own); `alias` lists the terms that resources have     *)
(* besides.  Dehydration gives terms to resources instead of renaming      *)
(* them: the pairs <<resource, term>> are part of its result.              *)
(***************************************************************************)
EXTENDS Cli

Interpreted(b, c) == (AliasKey :> Seq2Set(c.alias)) @@ WithPrelude(b.reg)

HyiVerdict(c) ==
  LET b == BuildAll(c.layouts)
      bv == BuildVerdict(b, c)
      reg == Interpreted(b, c)
      S == WithPrelude(b.reg)
      qs == AllPairs(b, c) \cup {<<t, t>> : t \in DOMAIN S \ DOMAIN b.reg}
      \* A tag whose resource has several terms is not specified.
      tags == c.tagged.st # "skip" /\ c.alias = <<>>
  IN IF bv # "" THEN bv
     ELSE IF c.built.st # "ok" THEN ""
     ELSE LET v == HydVerdict(Hydrate(reg, SpecData(c.dataset), c.graph, b.refs[1], c.inputs), c.hy, b, qs) IN
          IF v # "" THEN v
          ELSE IF tags THEN Out(c.tagged, "tagged CBOR", AllTagErrs(c.hy.v, S, qs), c.tagged.st = "ok" => TypedCbor(c.hy.v, c.tagged.v, S, qs))
          ELSE ""

\* Terms given to resources, as quads.
IsNamed(x) == [s |-> x[1], p |-> T("is", "", ""), o |-> [x[2] EXCEPT !.k = "is:" \o @], g |-> NoGraph]
NTa(x) == <<x[1], NT(x[2])>>

DeiCore(b, c) ==
  LET d == Deh(WithPrelude(b.reg), Norm(c.value), c.graph, b.refs[1], c.inputs, "r", {})
      mine == UNION {{q.s, q.p, q.o, q.g} : q \in d.q} \cup Seq2Set(c.inputs)
      given == {NTa(x) : x \in {x \in d.a : x[1] \in mine /\ x[1] # x[2]}}
      A == d.q \cup {IsNamed(x) : x \in given}
      B == SpecData(c.de.q) \cup {IsNamed(NTa(x)) : x \in Seq2Set(c.de.a)}
      known == {t \in QTerms(A) : t.k = "blank"}
      Fr(t) == IF t.k = "blank" /\ t \notin known THEN [t EXCEPT !.k = "free"] ELSE t
      FrQ(q) == [s |-> Fr(q.s), p |-> Fr(q.p), o |-> Fr(q.o), g |-> Fr(q.g)]
  IN IF c.de.st = "ok" THEN
       IF ~d.ok THEN "dehydrates, but should report " \o ToString(d.errs)
       ELSE IF Iso(A, {FrQ(q) : q \in B}) THEN "" ELSE "dehydrates to another dataset"
     ELSE IF c.de.st # "err" THEN "dehydrate: " \o c.de.st
     ELSE IF d.ok THEN "does not dehydrate: " \o c.de.e
     ELSE IF c.de.e \in d.errs THEN ""
     ELSE "dehydrate reports " \o c.de.e \o " instead of " \o ToString(d.errs)

DeiVerdict(c) ==
  LET b == BuildAll(c.layouts)
      bv == BuildVerdict(b, c)
  IN IF bv # "" THEN bv
     ELSE IF c.built.st # "ok" THEN ""
     ELSE DeiCore(b, c)

(* The options of the simplified dehydration: how many inputs (for the     *)
(* layouts that do not say), the terms of those that the value does not    *)
(* name, and the names of anonymous resources.                             *)
OptVerdict(c) ==
  LET b == BuildAll(c.layouts)
      bv == BuildVerdict(b, c)
      root == b.refs[1]
      reg == WithPrelude(b.reg)
      n == IF root \in DOMAIN reg /\ reg[root].kind \notin {"always", "never"} THEN reg[root].nin
           ELSE IF c.count >= 0 THEN c.count ELSE 1
      d == Dehydrate(reg, Norm(c.value), NoGraph, root, n)
      In(t) == IF t.k # "input" THEN t
               ELSE IF c.iris THEN IriT("https://ex.org/input/" \o t.v) ELSE T("blank", "_:input" \o t.v, "")
      A == {[s |-> In(q.s), p |-> In(q.p), o |-> In(q.o), g |-> In(q.g)] : q \in d.q}
      known == {t \in QTerms(A) : t.k = "blank"}
      new == {t \in QTerms(SpecData(c.de.q)) : t.k = "blank"} \ known
      de == c.de
  IN IF bv # "" THEN bv
     ELSE IF c.built.st # "ok" THEN ""
     ELSE IF ~c.same THEN "another result for the same input"
     ELSE IF de.st = "ok" THEN
       IF ~d.ok THEN "dehydrates, but should report " \o ToString(d.errs)
       ELSE IF [i \in 1..Len(de.ins) |-> NT(de.ins[i])] # [i \in 1..Len(d.ins) |-> NT(In(d.ins[i]))] THEN "other input terms"
       ELSE IF \E t \in new : ~StartsWith(t.v, "_:" \o c.prefix) THEN "does not use the generator it is given"
       ELSE IF SameDataset(A, SpecData(de.q)) THEN "" ELSE "dehydrates to another dataset"
     ELSE IF de.st # "err" THEN "dehydrate: " \o de.st
     ELSE IF d.ok THEN "does not dehydrate: " \o de.e
     ELSE IF de.e \in d.errs THEN ""
     ELSE "dehydrate reports " \o de.e \o " instead of " \o ToString(d.errs)
=============================================================================
