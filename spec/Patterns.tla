------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Recorded uses of regular expressions and automata.                      *)
(***************************************************************************)
EXTENDS Trees, Regular

AutoVerdict(a, name, e1, e2) ==
  IF a.st = "err" THEN name \o ": " \o a.e
  ELSE IF a.st # "ok" THEN name \o ": " \o a.st
  ELSE IF SameLanguage2(a, e1, e2) THEN "" ELSE name \o ": accepts another language"

Re(k, c) == [k |-> k, neg |-> FALSE, r |-> <<>>, c |-> c]
\* e, from min to max times; at least min times.
Times(e, min, max) == Re("seq", TLCEval([i \in 1..max |-> IF i <= min THEN e ELSE Re("opt", <<e>>)]))
AtLeast(e, min) == Re("seq", TLCEval([i \in 1..(min + 1) |-> IF i <= min THEN e ELSE Star(e)]))

RECURSIVE ReachFrom(_, _)
ReachFrom(a, Q) ==
  LET R2 == Q \cup {a.tr[i].p : i \in {i \in 1..Len(a.tr) : a.tr[i].q \in Q}} IN
  IF R2 = Q THEN Q ELSE ReachFrom(a, R2)
StatesVerdict(a) ==
  LET all == ReachFrom(a, {a.init})
      Set(s) == {s[i] : i \in 1..Len(s)}
  IN IF a.st # "ok" THEN "states: " \o a.st
     ELSE IF {a.from[i].q : i \in 1..Len(a.from)} # all THEN "other states"
     ELSE IF \E i \in 1..Len(a.from) : Set(a.from[i].r) # ReachFrom(a, {a.from[i].q}) THEN "other reachable states"
     ELSE IF Set(a.finals) # all \cap Set(a.fin) \/ Set(a.start) # {a.init} THEN "other initial or final states"
     ELSE IF ~a.single THEN "a single word, or not"
     ELSE ""

RegexpVerdict(c) ==
  LET same == {n \in DOMAIN c.same : AutoVerdict(c.same[n], n, c.re, Anything) # ""}
      both == {n \in DOMAIN c.both : AutoVerdict(c.both[n], n, c.re, c.re2) # ""}
  IN IF same # {} THEN LET n == CHOOSE n \in same : TRUE IN AutoVerdict(c.same[n], n, c.re, Anything)
     ELSE IF both # {} THEN LET n == CHOOSE n \in both : TRUE IN AutoVerdict(c.both[n], n, c.re, c.re2)
     ELSE First(<<
       AutoVerdict(c.literal, "literal text", c.plain_re, Anything),
       AutoVerdict(c.literal_again, "literal text, written and parsed", c.plain_re, Anything),
       AutoVerdict(c.repeated, "repetition", Times(c.re2, c.times[1], c.times[2]), Anything),
       AutoVerdict(c.at_least, "unbounded repetition", AtLeast(c.re2, c.times[1]), Anything),
       AutoVerdict(c.pushed, "one after the other", Re("seq", <<c.re, c.re2>>), Anything),
       StatesVerdict(c.states),
       IF c.single.st = "none" THEN ""
       ELSE IF c.single.st # "ok" THEN "single word: " \o c.single.st
       ELSE IF SameWords(Word(c.single.w), c.re) THEN "" ELSE "single word: not the only word",
       IF c.rejected.st = "err" THEN "" ELSE "accepts a malformed expression" >>)
=============================================================================
