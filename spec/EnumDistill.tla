----------------------------- MODULE EnumDistill -----------------------------
(***************************************************************************)
(* All the behaviours of a small universe, to be run in the code: round    *)
(* trips of orderly layouts, dehydrations and hydrations of dense ones.    *)
(***************************************************************************)
EXTENDS Small, Json, IOUtils, SequencesExt

CONSTANTS What, Kind, Every

Id(l) == l @@ [id |-> EXN \o "L"]
Cases0 ==
  CASE What = "rt" -> {[op |-> "rt", layouts |-> <<l>>, value |-> v] :
                         <<l, v>> \in UNION {{<<l, v>> : v \in ValuesOf(l)} : l \in (IF Kind = "2" THEN Orderly2 ELSE Orderly1)}}
    [] What = "deh" -> {[op |-> "deh", layouts |-> <<l>>, value |-> v] :
                          <<l, v>> \in UNION {{<<l, v>> : v \in DValuesOf(l)} : l \in Dense(Kind)}}
    [] What = "hyd" -> {[op |-> "hyd", layouts |-> <<l>>, dataset |-> SetToSeq(D), graph |-> g, inputs |-> <<ResB>>] :
                          l \in Dense(Kind), D \in (IF Kind = "list" THEN DChains ELSE IF Kind = "graph" THEN DGraphs ELSE DData),
                          g \in (IF Kind = "graph" THEN {NoGraph, ResA} ELSE {NoGraph})}

\* One in Every of them.
Cases ==
  LET s == SetToSeq(Cases0) IN
  [i \in 1..((Len(s) + Every - 1) \div Every) |->
     s[(i - 1) * Every + 1] @@ [case |-> "enum." \o What \o "/" \o Kind \o "/" \o ToString((i - 1) * Every + 1)]]

VARIABLE x
Init == x = ndJsonSerialize(IOEnv.OUT, Cases)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
