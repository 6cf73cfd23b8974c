----------------------------- MODULE MCRegular ------------------------------
(***************************************************************************)
(* The two definitions of the language of an expression agree: the         *)
(* denotation (sets of positions) and the partial derivatives, which the   *)
(* trace checks rely on.  All expressions built with at most Size nodes    *)
(* from three character classes, on all the words of length <= Words; and  *)
(* the derivatives of an expression never exceed its number of positions   *)
(* plus one, so that the exploration of an automaton terminates.           *)
(***************************************************************************)
EXTENDS Regular

CONSTANTS Size, Words

N(k, c) == [k |-> k, neg |-> FALSE, r |-> <<>>, c |-> c]
Atoms == {N("any", <<>>), N("seq", <<>>),
          [k |-> "set", neg |-> FALSE, r |-> <<<<1, 1>>>>, c |-> <<>>],
          [k |-> "set", neg |-> TRUE, r |-> <<<<1, 1>>, <<3, 4>>>>, c |-> <<>>]}

RECURSIVE Exprs(_)
Exprs(n) ==
  IF n <= 1 THEN Atoms
  ELSE LET one == {N(k, <<e>>) : k \in {"star", "plus", "opt"}, e \in Exprs(n - 1)}
           two == UNION {{N(k, <<a, b>>) : k \in {"seq", "alt"}, a \in Exprs(i), b \in Exprs(n - 1 - i)} : i \in 1..(n-2)}
       IN one \cup two

Sigma == {1, 2, 3}
AllWords == UNION {[1..n -> Sigma] : n \in 0..Words}

VARIABLES e, S, w     \* an expression, its remainders after w

Init == e \in UNION {Exprs(n) : n \in 1..Size} /\ S = {<<e>>} /\ w = <<>>
Read(ch) == S' = DerSet(S, ch) /\ w' = Append(w, ch) /\ e' = e
Next == Len(w) < Words /\ \E ch \in Sigma : Read(ch)
Spec == Init /\ [][Next]_<<e, S, w>>

Agreement == Accepting(S) = Matches(e, w)

RECURSIVE Positions(_)
Positions(x) == IF x.k \in {"any", "set"} THEN 1
                ELSE LET RECURSIVE Sum(_)
                         Sum(i) == IF i > Len(x.c) THEN 0 ELSE Positions(x.c[i]) + Sum(i + 1)
                     IN Sum(1)
Bounded == Cardinality(S) <= Positions(e) + 1
=============================================================================
