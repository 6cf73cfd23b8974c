------------------------------ MODULE MCDistill ------------------------------
(***************************************************************************)
(* What the specification of (de)hydration itself guarantees, on all the   *)
(* orderly layouts and their values:                                       *)
(*   Trip:   what is written is read back;                                 *)
(*   Frame:  other data, in any graph, changes nothing;                    *)
(*   Needed: without any one of its quads, the dataset is not read as it was;*)
(*   Graph:  everything is in the current graph, or in those the layout    *)
(*           names.                                                        *)
(***************************************************************************)
EXTENDS Small

CONSTANTS Deep

VARIABLES l, v, reg, root, d
vars == <<l, v, reg, root, d>>

Init ==
  /\ l \in (IF Deep THEN Orderly2 ELSE Orderly1)
  /\ v \in ValuesOf(l)
  /\ LET b == BuildAll(<<l>>) IN reg = b.reg /\ root = b.refs[1]
  /\ d = Dehydrate(reg, Norm(v), NoGraph, root, 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* A sum that two of its variants fit.
Ambiguous == ~d.ok /\ d.errs = {"DataAmbiguity"}

Written == d.ok \/ d.errs \subseteq {"DataAmbiguity", "IncompatibleLayout"}

Read(D, g) == Hydrate(reg, D, g, root, d.ins)
Same(h) == h.ok /\ SetEq(Norm(v), h.v)

Trip == d.ok => Same(Read(d.q, NoGraph))

\* Quads that no layout speaks about.
Foreign ==
  {[s |-> s, p |-> IriT(EXN \o "foreign"), o |-> ResA, g |-> g] :
     s \in UNION {{q.s, q.o} : q \in d.q} \cup {ResA}, g \in {NoGraph, IriT(EXN \o "g")}}
  \cup {[q EXCEPT !.g = IriT(EXN \o "elsewhere")] : q \in d.q}
Frame == d.ok => Same(Read(d.q \cup Foreign, NoGraph))

Needed == d.ok => \A q \in d.q : Read(d.q \ {q}, NoGraph) # Read(d.q, NoGraph)

\* Dehydrating in a named graph is the same, with that graph in place of the default one
\* wherever the layout does not say otherwise.
InG(g) == Deh(reg, Norm(v), g, root, InputsOf(1), "r", {})
Graph ==
  LET H == IriT(EXN \o "current")
      there == InG(H)
      here == InG(NoGraph)
  IN /\ there.ok = here.ok
     /\ here.ok => /\ {[q EXCEPT !.g = NoGraph] : q \in there.q} = {[q EXCEPT !.g = NoGraph] : q \in here.q}
                   /\ {q.g : q \in there.q} \subseteq {H, NoGraph, IriT(EXN \o "g"), IriT(EXN \o "h")}
                   /\ there.a = here.a
=============================================================================
