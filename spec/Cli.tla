--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool: a process that loads layout files, reads its     *)
(* standard input, and either writes a result and exits with status 0, or  *)
(* writes nothing but a diagnostic and exits with status 1 (2 when it is   *)
(* called wrongly).                                                        *)
(*                                                                         *)
(* Its steps: load the main files, then the included ones, into a single   *)
(* registry where no layout is defined twice; select the layout (the one   *)
(* asked for, or that of the only main file); read; execute; write.        *)
(***************************************************************************)
EXTENDS Patterns

\* The files in the order they are loaded.
Loaded(c) == SelectSeq(c.files, LAMBDA f : f.main) \o SelectSeq(c.files, LAMBDA f : ~f.main)
NMain(c) == Cardinality({i \in 1..Len(c.files) : c.files[i].main})

Given(s) == IF StartsWith(s, "_:") THEN T("blank", s, "") ELSE IriT(s)

\* The tree document x says the (specified) value v, whose sets are bags.
RECURSIVE Says(_, _)
Says(v, x) ==
  CASE v.k = "bag" ->
         /\ x.k = "list"
         /\ Len(x.c) = LET RECURSIVE Sum(_)
                           Sum(S) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN y[2] + Sum(S \ {y})
                       IN Sum(v.m)
         /\ \A j \in 1..Len(x.c) : \E y \in v.m : Says(y[1], x.c[j])
         /\ \A y \in v.m : Cardinality({j \in 1..Len(x.c) : Says(y[1], x.c[j])}) >= y[2]
    [] v.k = "list" -> x.k = "list" /\ Len(x.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Says(v.c[i], x.c[i])
    [] v.k = "variant" -> Says(v.c[1], x)
    [] v.k = "map" ->
         /\ x.k = "map" /\ Len(x.c) = 2 * Cardinality(v.m)
         /\ \A y \in v.m : \E j \in 1..NPairs(x) : x.c[2*j-1].k = "str" /\ x.c[2*j-1].s = y[1].s /\ Says(y[2], x.c[2*j])
    [] v.k = "id" -> x.k = "str" /\ x.s = v.s
    [] v.k = "always" -> x.k = "unit"
    [] StartsWith(v.k, "unit:") -> Says([v EXCEPT !.k = From(@, 6)], x)
    [] v.k = "num" -> NumWritten(v.s, x, TRUE)
    [] OTHER -> x.k = v.k /\ x.s = v.s

\* The CBOR document x encodes the specified value v, with its tags.  (Plain
\* values go through serde, which has no large integers.)
RECURSIVE Encodes(_, _, _)
Encodes(v, x, S) ==
  LET tag == IF v.l.k = "none" \/ v.k = "always" THEN <<>> ELSE TagLit(S[v.l])
      tagged == tag # <<>>
      y == IF tagged THEN x.c[1] ELSE x
      \* constants and keys, which have no layout
      W == [v EXCEPT !.k = IF StartsWith(@, "unit:") THEN From(@, 6) ELSE @, !.l = NoL]
  IN /\ tagged => x.k = "tag" /\ x.s = TagNumeral(tag[1].v)
     /\ CASE StartsWith(v.k, "unit:") -> Encodes(W, y, S)
          [] v.k = "always" -> y.k = "unit"
          [] v.k = "variant" -> Encodes(v.c[1], y, S)
          [] v.k = "bag" ->
               /\ y.k = "list"
               /\ \A j \in 1..Len(y.c) : \E e \in v.m : Encodes(e[1], y.c[j], S)
               /\ \A e \in v.m : Cardinality({j \in 1..Len(y.c) : Encodes(e[1], y.c[j], S)}) >= e[2]
               /\ Len(y.c) = LET RECURSIVE Sum(_)
                                 Sum(E) == IF E = {} THEN 0 ELSE LET e == CHOOSE e \in E : TRUE IN e[2] + Sum(E \ {e})
                             IN Sum(v.m)
          [] v.k = "list" -> y.k = "list" /\ Len(y.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Encodes(v.c[i], y.c[i], S)
          [] v.k = "map" ->
               /\ y.k = "map" /\ Len(y.c) = 2 * Cardinality(v.m)
               /\ \A e \in v.m : \E j \in 1..NPairs(y) : Encodes(e[1], y.c[2*j-1], S) /\ Encodes(e[2], y.c[2*j], S)
          [] v.k = "id" -> y.k = "str" /\ y.s = v.s
          [] v.k = "num" -> CborNum(v.s, y) \/ (v.l = NoL /\ ~Short(v.s) /\ y.k = "float" /\ NumRead(v.s, y.s, FALSE))
          [] OTHER -> y.k = v.k /\ y.s = v.s

\* What keeps the value from being written.
RECURSIVE NoJson(_)
NoJson(v) ==
  CASE v.k \in {"bytes", "unit:bytes"} -> TRUE
    [] v.k \in {"num", "unit:num"} -> Fraction(v.s)
    [] v.k \in {"map", "bag", "unit:map"} -> \E x \in v.m : (v.k # "bag" /\ (x[1].k # "str" \/ NoJson(x[2]))) \/ (v.k = "bag" /\ NoJson(x[1]))
    [] OTHER -> \E i \in 1..Len(v.c) : NoJson(v.c[i])

RECURSIVE BadTag(_, _)
BadTag(v, S) ==
  \/ v.l.k # "none" /\ v.k # "always" /\ TagErrs(S[v.l]) # {}
  \/ /\ ~StartsWith(v.k, "unit:")
     /\ \/ \E i \in 1..Len(v.c) : BadTag(v.c[i], S)
        \/ v.k = "bag" /\ \E x \in v.m : BadTag(x[1], S)
        \/ v.k = "map" /\ \E x \in v.m : BadTag(x[2], S)

(* The outcome of a run: "ok" and what its output must be, or "err".       *)
Failed(r) ==
  IF r.rc # 1 THEN "exit status " \o ToString(r.rc) \o " instead of 1"
  ELSE IF ~r.silent THEN "fails, but writes a result"
  ELSE IF ~r.says THEN "fails without a diagnostic"
  ELSE ""

Succeeds(r, good) ==
  IF r.rc # 0 THEN "exit status " \o ToString(r.rc) \o " instead of 0"
  ELSE IF ~r.wf THEN "the output is malformed"
  ELSE IF good THEN "" ELSE "the output is something else"

CliVerdict(c) ==
  LET fs == Loaded(c)
      r == c.res
      bad == \E i \in 1..Len(fs) : fs[i].st # "ok"
      b == BuildAll(TLCEval([i \in 1..Len(fs) |-> fs[i].layout]))
      S == IF c.noprelude THEN b.reg ELSE WithPrelude(b.reg)
      named == c.layout # ""
      noroot == ~named /\ NMain(c) # 1
      root == IF named THEN Given(c.layout) ELSE b.refs[1]
      doc == DocValue(c.doc)
  IN IF c.usage # 0 THEN IF r.rc = 2 THEN "" ELSE "exit status " \o ToString(r.rc) \o " instead of 2"
     ELSE IF bad \/ b.e # {} THEN Failed(r)
     ELSE IF c.cmd = "none" THEN Succeeds(r, r.silent)
     ELSE IF c.badin THEN Failed(r)
     ELSE CASE c.cmd = "tree" ->
                 IF c.out # "json" THEN Succeeds(r, Encodes(doc, r.v, S))
                 ELSE IF NoJson(doc) THEN Failed(r) ELSE Succeeds(r, Says(doc, r.v))
            [] c.cmd = "rdf" -> Succeeds(r, SpecData(r.q) = SpecData(c.dataset))
            [] c.cmd = "hydrate" ->
                 IF noroot THEN Failed(r)
                 ELSE LET h == Hydrate(S, SpecData(c.dataset), NoGraph, root, c.inputs) IN
                      IF ~h.ok THEN Failed(r)
                      ELSE IF c.out = "json" THEN IF NoJson(h.v) THEN Failed(r) ELSE Succeeds(r, Says(h.v, r.v))
                      ELSE IF BadTag(h.v, S) THEN Failed(r) ELSE Succeeds(r, Encodes(h.v, r.v, S))
            [] c.cmd = "dehydrate" ->
                 IF noroot THEN Failed(r)
                 ELSE LET d == Dehydrate(S, doc, NoGraph, root, InputCount(S, root)) IN
                      IF ~d.ok THEN Failed(r)
                      ELSE Succeeds(r, SameDataset({Named(q) : q \in d.q}, SpecData(r.q)))
=============================================================================
