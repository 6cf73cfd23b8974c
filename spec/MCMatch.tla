------------------------------- MODULE MCMatch -------------------------------
(***************************************************************************)
(* The matching machine: how substitutions are enumerated.                 *)
(*                                                                         *)
(* A stack of partial matchings, each with its substitution, the quads     *)
(* still to be tried for its current pattern (or none: the pattern is not  *)
(* chosen yet) and the remaining patterns.  The order in which quads are   *)
(* tried is left open.  Whatever it is, what comes out is exactly          *)
(* MatchSet, each substitution once; and the machine stops.                *)
(***************************************************************************)
EXTENDS Rdf

CONSTANTS MaxPats, MaxQuads

A == IriT("a")
B == IriT("b")
Terms == {A, B}
Pats == {PVar(1), PVar(2)} \cup {PRes(A)}
\* The predicate is always the same resource: the three other positions vary.
P == IriT("p")
Quads == {[s |-> s, p |-> P, o |-> o, g |-> g] : s \in Terms, o \in Terms, g \in {NoGraph, A}}
QPats == {[s |-> s, p |-> PRes(P), o |-> o, g |-> g] : s \in Pats, o \in Pats, g \in {PRes(NoGraph), PVar(2), PRes(A)}}

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

VARIABLES D, pats, init, stack, out

vars == <<D, pats, init, stack, out>>

Untried == [chosen |-> FALSE, todo |-> {}]

Init ==
  /\ D \in {S \in SUBSET Quads : Cardinality(S) <= MaxQuads}
  /\ pats \in SeqsUpTo(QPats, MaxPats)
  /\ init \in {<<Unbound, Unbound>>, <<A, Unbound>>}
  /\ stack = <<[sub |-> init, cur |-> Untried, rest |-> pats]>>
  /\ out = <<>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

\* The quads that agree with the constants of the pattern.
Candidates(qp) == {q \in D : MatchQuad(Nulls(2), qp, q) # {}}

Choose ==
  /\ stack # <<>> /\ ~Top.cur.chosen /\ Top.rest # <<>>
  /\ stack' = Append(Pop, [Top EXCEPT !.cur = [chosen |-> TRUE, todo |-> Candidates(Head(Top.rest))]])
  /\ UNCHANGED <<D, pats, init, out>>

Try ==
  /\ stack # <<>> /\ Top.cur.chosen
  /\ \E q \in Top.cur.todo :
       LET t == [Top EXCEPT !.cur.todo = @ \ {q}]
           m == MatchQuad(Top.sub, Head(Top.rest), q)
       IN stack' = IF m = {} THEN Append(Pop, t)
                   ELSE Append(Append(Pop, t), [sub |-> CHOOSE s \in m : TRUE, cur |-> Untried, rest |-> Tail(Top.rest)])
  /\ UNCHANGED <<D, pats, init, out>>

Exhaust ==
  /\ stack # <<>> /\ Top.cur.chosen /\ Top.cur.todo = {}
  /\ stack' = Pop
  /\ UNCHANGED <<D, pats, init, out>>

Yield ==
  /\ stack # <<>> /\ ~Top.cur.chosen /\ Top.rest = <<>>
  /\ out' = Append(out, Top.sub)
  /\ stack' = Pop
  /\ UNCHANGED <<D, pats, init>>

Next == Choose \/ Try \/ Exhaust \/ Yield
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Want == MatchSet(D, {init}, pats)

Sound == Seq2Set(out) \subseteq Want
Once == Cardinality(Seq2Set(out)) = Len(out)
Complete == stack = <<>> => Seq2Set(out) = Want
\* The partial matchings are disjoint: what is on the stack can still reach
\* what is missing.
Pending ==
  UNION {IF stack[i].cur.chosen
         THEN UNION {MatchSet(D, MatchQuad(stack[i].sub, Head(stack[i].rest), q), Tail(stack[i].rest)) : q \in stack[i].cur.todo}
         ELSE MatchSet(D, {stack[i].sub}, stack[i].rest) : i \in 1..Len(stack)}
NothingLost == Seq2Set(out) \cup Pending = Want
Stops == <>(stack = <<>>)
=============================================================================
