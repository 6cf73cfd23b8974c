------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* Pattern matching, histories of a layout builder, and combinations of    *)
(* registries.                                                             *)
(***************************************************************************)
EXTENDS Conform

(***************************** matching ************************************)

\* One result of the matching of the patterns of c in its dataset.
OneMatching(c, m) ==
  LET want == MatchSet(SpecData(c.dataset), {c.init}, c.pats)
      got == Seq2Set(m.all)
      n == Cardinality(want)
      Unique(u) ==
        CASE n = 0 -> u.st \in {"none", "empty"}
          [] n = 1 -> u.st = "some" /\ u.s \in want
          [] OTHER -> u.st = "amb"
  IN IF m.st # "ok" THEN "matching: " \o m.st
     ELSE IF ~(got \subseteq want) THEN "matches what it should not"
     ELSE IF ~(want \subseteq got) THEN "misses a match"
     ELSE IF Len(m.all) # n THEN "gives the same match twice"
     ELSE IF ~Unique(m.uniq) \/ m.uniq.st = "empty" THEN "unique match: " \o m.uniq.st
     ELSE IF ~Unique(m.req) \/ m.req.st = "none" THEN "required match: " \o m.req.st
     ELSE ""

MatchVerdict(c) ==
  LET a == OneMatching(c, c.out)
      b == OneMatching(c, c.rs)
  IN IF a # "" THEN a ELSE IF b # "" THEN "(Rust library) " \o b ELSE ""

(******************************* builders **********************************)
(* The state of a builder is its registry.  Compiling a layout extends it  *)
(* with the definitions of that layout, changing none that is there, or    *)
(* fails; a definition of an identifier that is already defined fails.     *)

\* The step st, in a builder whose (real) registry was old.
StepVerdict(old, st) ==
  LET ids == {old[i].id : i \in 1..Len(old)}
      b == BuildAll(<<st.layout>>)
      clash == \E t \in DOMAIN b.reg : t.k = "iri" /\ t \in ids
      errs == b.e \cup (IF clash THEN {"LayoutRedefinition"} ELSE {})
      new == SelectSeq(st.reg, LAMBDA x : x.id \notin ids)
      c == [reg |-> new, refs |-> st.refs, built |-> st.built]
  IN IF ~(Seq2Set(old) \subseteq Seq2Set(st.reg)) THEN "a definition is lost or changed"
     ELSE IF Len(st.reg) # Cardinality({st.reg[i].id : i \in 1..Len(st.reg)}) THEN "two layouts for one identifier"
     ELSE BuildVerdict([b EXCEPT !.e = errs], c)

RECURSIVE StepsVerdict(_, _, _)
StepsVerdict(old, steps, i) ==
  IF i > Len(steps) THEN ""
  ELSE LET v == StepVerdict(old, steps[i]) IN
       IF v # "" THEN "step " \o ToString(i) \o ": " \o v ELSE StepsVerdict(steps[i].reg, steps, i + 1)

HistVerdict(c) == StepsVerdict(<<>>, c.steps, 1)

(****************************** registries *********************************)

NoLayout == [kind |-> "-"]
Marker(m) == [kind |-> "unit", nin |-> 1, nintro |-> 0, ds |-> <<>>, ext |-> <<>>,
              cst |-> [k |-> "str", s |-> m, c |-> <<>>]]

\* A registry as a function; the last insertion wins.
RECURSIVE Inserted(_)
Inserted(l) ==
  IF l = <<>> THEN <<>>
  ELSE (IriT(l[Len(l)][1]) :> Marker(l[Len(l)][2])) @@ Inserted(SubSeq(l, 1, Len(l) - 1))

RECURSIVE RegOf(_, _)
RegOf(e, leaves) ==
  CASE e.k = "leaf" -> Inserted(leaves[e.i])
    [] e.k = "prelude" -> PreludeReg
    [] e.k = "none" -> <<>>
    [] e.k = "some" -> RegOf(e.a, leaves)
    [] e.k = "with" -> RegOf(e.a, leaves) @@ RegOf(e.b, leaves)
    [] e.k = "union" -> RegOf(e.b, leaves) @@ RegOf(e.a, leaves)

Lookup(reg, t) == IF t \in DOMAIN reg THEN reg[t] ELSE NoLayout

SameLay(A, B) ==
  IF A.kind = "-" \/ B.kind = "-" THEN A.kind = B.kind ELSE SameLayout(A, B, {})

\* <<leaf, position>> for all the insertions, in order.
Flat(leaves) ==
  LET F[i \in 0..Len(leaves)] ==
        IF i = 0 THEN <<>> ELSE F[i-1] \o [j \in 1..Len(leaves[i]) |-> <<i, j>>]
  IN F[Len(leaves)]

\* The operations of a builder, from the i-th in the state reg.
RECURSIVE OpsVerdict(_, _, _, _)
OpsVerdict(ops, out, reg, i) ==
  IF i > Len(ops) THEN
    IF /\ {out.reg[j].id : j \in 1..Len(out.reg)} = DOMAIN reg
       /\ Len(out.reg) = Cardinality(DOMAIN reg)
       /\ \A j \in 1..Len(out.reg) : SameLay(reg[out.reg[j].id], out.reg[j].lay)
    THEN "" ELSE "the builder makes other layouts than it was given"
  ELSE LET o == ops[i]
           r == out.res[i]
           id == IriT(o.id)
           there == id \in DOMAIN reg
           keep == o.k = "get_or_insert" /\ there
           next == IF keep THEN reg ELSE (id :> Marker(o.m)) @@ reg
           lay == IF o.k = "get_or_insert" THEN next[id] ELSE Lookup(reg, id) IN
       IF r.id # id THEN "step " \o ToString(i) \o ": gives another reference"
       ELSE IF ~SameLay(lay, r.lay) THEN "step " \o ToString(i) \o ": gives another layout"
       ELSE IF r.given # (IF keep THEN NoGraph ELSE id) THEN "step " \o ToString(i) \o ": makes a layout for another identifier"
       ELSE OpsVerdict(ops, out, next, i + 1)

RegsVerdict(c) ==
  LET o == c.out
      reg == RegOf(c.expr, c.leaves)
      fl == Flat(c.leaves)
  IN IF o.st # "ok" THEN "registries: " \o o.st
     ELSE IF \E i \in 1..Len(fl) :
               LET l == c.leaves[fl[i][1]]
                   before == Inserted(SubSeq(l, 1, fl[i][2] - 1))
                   id == IriT(l[fl[i][2]][1])
               IN o.olds[i].id # id \/ ~SameLay(Lookup(before, id), o.olds[i].old)
          THEN "insert returns another layout than the previous one"
     ELSE IF \E i \in 1..Len(c.ask) : ~SameLay(Lookup(reg, IriT(c.ask[i])), o.got[i].lay)
          THEN "another layout for " \o c.ask[CHOOSE i \in 1..Len(c.ask) : ~SameLay(Lookup(reg, IriT(c.ask[i])), o.got[i].lay)]
     ELSE IF \E i \in 1..Len(c.ask) : o.got[i].has # (IriT(c.ask[i]) \in DOMAIN reg)
          THEN "contains and get disagree"
     ELSE IF \E i \in 1..Len(c.ask) : ~o.got[i].same THEN "with(nothing) changes the registry"
     ELSE IF \E i \in 1..Len(c.ask) :
               o.presets[i] # (IF IriT(c.ask[i]) \in PreludeIds THEN From(c.ask[i], Len(TLDR) + 1) ELSE "")
          THEN "preset names"
     ELSE IF \E i \in 1..Len(c.leaves) :
               \/ Len(o.iters[i]) # Cardinality(DOMAIN Inserted(c.leaves[i]))
               \/ \E j \in 1..Len(o.iters[i]) :
                    ~SameLay(Lookup(Inserted(c.leaves[i]), o.iters[i][j].id), o.iters[i][j].lay)
          THEN "iterating over a registry"
     ELSE IF "ops" \in DOMAIN c THEN OpsVerdict(c.ops, o.ops, <<>>, 1)
     ELSE ""
=============================================================================
