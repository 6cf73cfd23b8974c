------------------------------ MODULE EnumMatch ------------------------------
(***************************************************************************)
(* All the matching problems of a small universe, to be run in the code.   *)
(***************************************************************************)
EXTENDS Rdf, Json, IOUtils, SequencesExt

CONSTANTS MaxQuads, MaxPats

A == IriT("http://e.x/a")
B == T("blank", "_:b", "")
Terms == {A, B}
Pats == {PVar(1), PVar(2), PRes(A)}
Quads == {[s |-> s, p |-> p, o |-> o, g |-> g] : s \in {A}, p \in {A, B}, o \in Terms, g \in {NoGraph, A, B}}
QPats == {[s |-> s, p |-> p, o |-> o, g |-> g] : s \in Pats, p \in Pats, o \in Pats, g \in {PRes(NoGraph)} \cup Pats}
Datasets == {SetToSeq(S) : S \in {S \in SUBSET Quads : Cardinality(S) <= MaxQuads}}
Inits == {<<Unbound, Unbound>>, <<A, Unbound>>, <<B, B>>}

Problems ==
  IF MaxPats = 1
  THEN {[dataset |-> d, pats |-> <<q>>, init |-> i] : d \in Datasets, q \in QPats, i \in Inits}
  ELSE {[dataset |-> d, pats |-> <<q, r>>, init |-> <<Unbound, Unbound>>] :
          d \in Datasets,
          q \in {q \in QPats : q.p = PRes(A)}, r \in {q \in QPats : q.p = PVar(2)}}

Cases == LET s == SetToSeq(Problems) IN
  [i \in 1..Len(s) |-> s[i] @@ [op |-> "match", case |-> "enum.match/" \o ToString(MaxPats) \o "/" \o ToString(i)]]

VARIABLE x
Init == x = ndJsonSerialize(IOEnv.OUT, Cases)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
