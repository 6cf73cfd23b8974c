------------------------------ MODULE Regular -------------------------------
(***************************************************************************)
(* Regular expressions, as the layout language writes them in "pattern",   *)
(* and the finite automata they are compiled to.                           *)
(*                                                                         *)
(* Characters are code points.  An expression is a record [k, neg, r, c]:  *)
(*   any | set (r: ranges <<lo, hi>>, neg) | seq | alt | star | plus | opt *)
(* Whether an automaton accepts exactly the words of an expression is      *)
(* decided for all words, by exploring the automaton together with the     *)
(* partial derivatives of the expression (there are finitely many).        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

InSet(e, ch) == e.k = "any" \/ ((\E i \in 1..Len(e.r) : e.r[i][1] <= ch /\ ch <= e.r[i][2]) # e.neg)

(****************************** denotation *********************************)

\* The positions of w that can be reached from those of I by reading e.
RECURSIVE Ends(_, _, _)
RECURSIVE EndsSeq(_, _, _, _)
RECURSIVE EndsStar(_, _, _)
Ends(e, w, I) ==
  CASE e.k \in {"any", "set"} -> {i + 1 : i \in {i \in I : i <= Len(w) /\ InSet(e, w[i])}}
    [] e.k = "seq" -> EndsSeq(e.c, 1, w, I)
    [] e.k = "alt" -> UNION {Ends(e.c[j], w, I) : j \in 1..Len(e.c)}
    [] e.k = "opt" -> I \cup Ends(e.c[1], w, I)
    [] e.k = "star" -> EndsStar(e.c[1], w, I)
    [] e.k = "plus" -> EndsStar(e.c[1], w, Ends(e.c[1], w, I))
EndsSeq(c, j, w, I) == IF j > Len(c) THEN I ELSE EndsSeq(c, j + 1, w, Ends(c[j], w, I))
EndsStar(e, w, I) == LET J == I \cup Ends(e, w, I) IN IF J = I THEN I ELSE EndsStar(e, w, J)

Matches(e, w) == Len(w) + 1 \in Ends(e, w, {1})

(************************** partial derivatives ****************************)

\* What remains to be read is a sequence of expressions.
RECURSIVE Null1(_)
Null1(e) ==
  CASE e.k \in {"any", "set"} -> FALSE
    [] e.k = "seq" -> \A i \in 1..Len(e.c) : Null1(e.c[i])
    [] e.k = "alt" -> \E i \in 1..Len(e.c) : Null1(e.c[i])
    [] e.k = "plus" -> Null1(e.c[1])
    [] OTHER -> TRUE
Null(l) == \A i \in 1..Len(l) : Null1(l[i])

Star(e) == [k |-> "star", neg |-> FALSE, r |-> <<>>, c |-> <<e>>]

RECURSIVE Der(_, _)
Der(l, ch) ==
  IF l = <<>> THEN {}
  ELSE LET e == Head(l)
           rest == Tail(l)
       IN CASE e.k \in {"any", "set"} -> IF InSet(e, ch) THEN {rest} ELSE {}
            [] e.k = "seq" -> Der(e.c \o rest, ch)
            [] e.k = "alt" -> UNION {Der(<<e.c[i]>> \o rest, ch) : i \in 1..Len(e.c)}
            [] e.k = "opt" -> Der(<<e.c[1]>> \o rest, ch) \cup Der(rest, ch)
            [] e.k = "star" -> {d \o l : d \in Der(e.c, ch)} \cup Der(rest, ch)
            [] e.k = "plus" -> {d \o <<Star(e.c[1])>> \o rest : d \in Der(e.c, ch)}
                               \cup (IF Null1(e.c[1]) THEN Der(rest, ch) ELSE {})
DerSet(S, ch) == TLCEval(UNION {Der(l, ch) : l \in S})
Accepting(S) == \E l \in S : Null(l)

RECURSIVE DerWord(_, _)
DerWord(S, w) == IF w = <<>> THEN S ELSE DerWord(DerSet(S, Head(w)), Tail(w))
DMatches(e, w) == Accepting(DerWord({<<e>>}, w))

(******************************** automata *********************************)

\* A real automaton [init, fin, tr]; -1 is the sink.
Targets(a, q, ch) == {t.p : t \in {a.tr[i] : i \in {i \in 1..Len(a.tr) :
                        a.tr[i].q = q /\ a.tr[i].lo <= ch /\ ch <= a.tr[i].hi}}}
Move(a, q, ch) == LET T == Targets(a, q, ch) IN IF T = {} THEN -1 ELSE CHOOSE p \in T : TRUE
Deterministic(a, Sigma) ==
  \A i \in 1..Len(a.tr) : \A j \in (i+1)..Len(a.tr) :
     ~(a.tr[i].q = a.tr[j].q /\ a.tr[i].p # a.tr[j].p /\ a.tr[i].lo <= a.tr[j].hi /\ a.tr[j].lo <= a.tr[i].hi)
Final(a, q) == \E i \in 1..Len(a.fin) : a.fin[i] = q

RECURSIVE Bounds(_)
Bounds(e) == UNION {{e.r[i][1], e.r[i][2] + 1} : i \in 1..Len(e.r)} \cup UNION {Bounds(e.c[i]) : i \in 1..Len(e.c)}
ABounds(a) == UNION {{a.tr[i].lo, a.tr[i].hi + 1} : i \in 1..Len(a.tr)}
\* One character of each class that the expressions and automata distinguish
\* (55296..57343 are no characters).
Reps(B) == {x \in B \cup {0, 57344} : x <= 1114111 /\ ~(55296 <= x /\ x <= 57343)}

\* Explores <<automaton state, remainders of e1, remainders of e2>>; the
\* words of the automaton are those of e1 that are also words of e2.
RECURSIVE Agree(_, _, _, _)
Agree(a, Sigma, todo, done) ==
  IF todo = {} THEN TRUE
  ELSE LET x == CHOOSE x \in todo : TRUE
           ok == Final(a, x[1]) = (Accepting(x[2]) /\ Accepting(x[3]))
           next == {y \in {<<Move(a, x[1], ch), DerSet(x[2], ch), DerSet(x[3], ch)>> : ch \in Sigma} :
                      ~(y[1] = -1 /\ (y[2] = {} \/ y[3] = {}))}
       IN ok /\ Agree(a, Sigma, (todo \cup next) \ (done \cup {x}), done \cup {x})

Anything == Star([k |-> "any", neg |-> FALSE, r |-> <<>>, c |-> <<>>])

\* The automaton accepts exactly the words of both expressions.
SameLanguage2(a, e1, e2) ==
  LET Sigma == TLCEval(Reps(Bounds(e1) \cup Bounds(e2) \cup ABounds(a))) IN
  Deterministic(a, Sigma) /\ Agree(a, Sigma, {<<a.init, {<<e1>>}, {<<e2>>}>>}, {})
SameLanguage(a, e) == SameLanguage2(a, e, Anything)

\* w is the only word of e.
Word(w) == [k |-> "seq", neg |-> FALSE, r |-> <<>>,
            c |-> TLCEval([i \in 1..Len(w) |-> [k |-> "set", neg |-> FALSE, r |-> <<<<w[i], w[i]>>>>, c |-> <<>>]])]
RECURSIVE Included(_, _, _, _)
\* Everything e1 still accepts, e2 accepts as well, and conversely.
Included(Sigma, todo, done, dummy) ==
  IF todo = {} THEN TRUE
  ELSE LET x == CHOOSE x \in todo : TRUE
           next == {y \in {<<DerSet(x[1], ch), DerSet(x[2], ch)>> : ch \in Sigma} : y # <<{}, {}>>}
       IN Accepting(x[1]) = Accepting(x[2]) /\ Included(Sigma, (todo \cup next) \ (done \cup {x}), done \cup {x}, dummy)
SameWords(e1, e2) ==
  Included(TLCEval(Reps(Bounds(e1) \cup Bounds(e2))), {<<{<<e1>>}, {<<e2>>}>>}, {}, 0)
=============================================================================
