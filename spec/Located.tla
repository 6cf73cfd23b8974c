------------------------------ MODULE Located ------------------------------
(***************************************************************************)
(* The grammar of layout texts: the faults of any JSON document, and where *)
(* they are.  A document is a layout when it has no fault; otherwise each  *)
(* parser refuses it, and the one that keeps track of positions (and the   *)
(* command line tool) report one of its faults, where it is.               *)
(*                                                                         *)
(* A document: [t |-> kind, s |-> string or notation, a |-> items,         *)
(* e |-> entries [k |-> key, o |-> fragment of the key, v |-> document],   *)
(* o |-> fragment].  Fragments are numbered in the order of the text.      *)
(***************************************************************************)
EXTENDS Modules

Fault(k, at, key, exp, found, other) ==
  [k |-> k, at |-> at, key |-> key, exp |-> exp, found |-> found, other |-> other]
Simple(k, at, key) == {Fault(k, at, key, {}, "", 0)}
Unexp(v, exp) == {Fault("Unexpected", v.o, "", exp, v.t, 0)}

LayoutTypes == {"id", "unit", "boolean", "number", "bytes", "string", "record", "sum",
                "list", "set", "tuple", "union", "intersection"}

\* IRI references: without scheme, no colon in the first segment.
IriRefOk(s) ==
  LET r == Split(s) IN
  /\ Chars(s) \cap Forbidden = {} /\ PctOk(s) /\ PartsOk(r)
  /\ (~r.hasScheme /\ ~r.hasAuth) => Find(r.path, 1, {":"}) >= Find(r.path, 1, {"/"})

NameStart == Alpha \cup Digit \cup {"_", ":"}
BlankOk(s) ==
  /\ StartsWith(s, "_:") /\ Len(s) > 2 /\ At(s, 3) \in NameStart
  /\ Chars(From(s, 3)) \cap Forbidden = {}
  /\ Chars(From(s, 3)) \cap {"#", "[", "]", "/", "%", "?", "(", ")"} = {}

\* Languages: subtags of 1 to 8 letters or digits, the first one of letters.
RECURSIVE LangParts(_, _)
LangParts(s, first) ==
  LET i == Find(s, 1, {"-"})
      p == Upto(s, i - 1)
  IN /\ Len(p) \in (IF first THEN 2..8 ELSE 1..8)
     /\ Chars(p) \subseteq (IF first THEN Alpha ELSE Alpha \cup Digit)
     /\ i <= Len(s) => LangParts(From(s, i + 1), FALSE)
LangOk(s) == LangParts(s, TRUE)

\* Regular expressions: closed groups, classes and escape sequences.
\* m: where we are ("out", or in a class: "start", "first", "dash", "end").
RECURSIVE RegScan(_, _, _, _)
RegScan(s, i, depth, m) ==
  IF i > Len(s) THEN IF m # "out" THEN "incomplete character set"
                     ELSE IF depth > 0 THEN "missing closing `)`" ELSE ""
  ELSE LET c == At(s, i)
           j == IF c = "\\" THEN i + 2 ELSE i + 1
       IN IF c = "\\" /\ i = Len(s) THEN "incomplete escape sequence"
          ELSE CASE m = "out" /\ c = "(" -> RegScan(s, j, depth + 1, m)
                 [] m = "out" /\ c = ")" -> IF depth > 0 THEN RegScan(s, j, depth - 1, m) ELSE "missing opening `(`"
                 [] m = "out" /\ c = "[" -> RegScan(s, j, depth, "start")
                 [] m = "out" -> RegScan(s, j, depth, m)
                 [] m = "start" /\ c = "^" -> RegScan(s, j, depth, "first")
                 [] m = "dash" /\ c = "-" -> RegScan(s, j, depth, "end")
                 [] m = "end" -> RegScan(s, j, depth, "first")
                 [] c = "]" -> RegScan(s, j, depth, "out")
                 [] OTHER -> RegScan(s, j, depth, "dash")
\* "" or what is wrong with it.
RegFault(s) == RegScan(s, 1, 0, "out")

\* The notation of a 64 bits integer.
IntOk(s) ==
  LET n == IF StartsWith(s, "-") THEN From(s, 2) ELSE s
      m == IF n = s THEN "9223372036854775807" ELSE "9223372036854775808"
  IN Chars(n) \subseteq Digit /\ AtMost(n, m)

(***************************** The entries ********************************)
(* <<key, what its value is, whether it is required>>                      *)

Header == <<<<"base", "iri", FALSE>>, <<"prefixes", "prefixes", FALSE>>, <<"id", "iri", FALSE>>,
            <<"input", "strings", FALSE>>, <<"intro", "strings", FALSE>>, <<"dataset", "dataset", FALSE>>,
            <<"extra", "extra", FALSE>>, <<"type", "any", TRUE>>>>
Entries(ty) ==
  CASE ty \in {"union", "intersection"} -> Header
    [] ty = "unit" -> Header \o <<<<"const", "any", FALSE>>>>
    [] ty = "boolean" -> Header \o <<<<"resource", "pattern", FALSE>>, <<"datatype", "iri", FALSE>>>>
    [] ty \in {"number", "bytes"} -> Header \o <<<<"resource", "pattern", FALSE>>, <<"datatype", "iri", TRUE>>>>
    [] ty = "string" -> Header \o <<<<"resource", "pattern", FALSE>>, <<"datatype", "iri", FALSE>>, <<"pattern", "regexp", FALSE>>>>
    [] ty = "id" -> Header \o <<<<"resource", "pattern", FALSE>>, <<"pattern", "regexp", FALSE>>>>
    [] ty = "record" -> Header \o <<<<"fields", "fields", FALSE>>>>
    [] ty = "sum" -> Header \o <<<<"variants", "variants", FALSE>>>>
    [] ty = "list" -> Header \o <<<<"node", "node", TRUE>>, <<"head", "pattern", FALSE>>, <<"tail", "pattern", FALSE>>>>
    [] ty = "set" -> Header \o <<<<"item", "item", TRUE>>>>
    [] ty = "tuple" -> Header \o <<<<"items", "items", FALSE>>>>
    [] ty = "field" -> <<<<"intro", "strings", FALSE>>, <<"value", "format", TRUE>>, <<"dataset", "dataset", FALSE>>,
                         <<"property", "pattern", FALSE>>, <<"required", "boolean", FALSE>>>>
    [] ty = "item" -> <<<<"intro", "strings", FALSE>>, <<"value", "format", TRUE>>, <<"dataset", "dataset", FALSE>>,
                        <<"property", "pattern", FALSE>>>>
    [] ty = "variant" -> <<<<"intro", "strings", FALSE>>, <<"value", "format", TRUE>>, <<"dataset", "dataset", FALSE>>>>
    [] ty = "listnode" -> <<<<"head", "string", FALSE>>, <<"rest", "string", FALSE>>, <<"intro", "strings", FALSE>>,
                            <<"value", "format", TRUE>>, <<"dataset", "dataset", FALSE>>>>
    [] ty = "valueformat" -> <<<<"layout", "layoutref", TRUE>>, <<"input", "patterns", FALSE>>, <<"graph", "graph", FALSE>>>>
    [] ty = "typed" -> <<<<"value", "string", TRUE>>, <<"type", "iri", TRUE>>>>
    [] ty = "tagged" -> <<<<"value", "string", TRUE>>, <<"language", "language", FALSE>>>>

Keyed(v, k) == SelectSeq(v.e, LAMBDA e : e.k = k)
HasKey(v, k) == \E i \in 1..Len(v.e) : v.e[i].k = k

\* Optional entries for which null stands for no entry.
Nullable(ty, x) ==
  ~x[3] /\ x[1] \notin {"head", "tail"} /\ (x[2] \in {"iri", "pattern", "regexp"} \/ (ty = "listnode" /\ x[1] = "dataset"))

RECURSIVE Faults(_, _)
EntryFaults(ty, v) ==
  LET es == Entries(ty)
      keys == {es[i][1] : i \in 1..Len(es)} IN
  UNION {IF v.e[i].k \in keys THEN {} ELSE Simple("UnexpectedEntry", v.e[i].o, v.e[i].k) : i \in 1..Len(v.e)}
  \cup UNION {LET x == es[i]
                  s == Keyed(v, x[1])
              IN IF Len(s) = 0 THEN (IF x[3] THEN Simple("MissingRequiredEntry", v.o, x[1]) ELSE {})
                 ELSE IF Len(s) = 1 THEN (IF s[1].v.t = "null" /\ Nullable(ty, x) THEN {} ELSE Faults(x[2], s[1].v))
                 ELSE {Fault("DuplicateEntry", s[p].o, x[1], {}, "", s[q].o) : p \in 1..Len(s), q \in 1..Len(s)}
                      \ {Fault("DuplicateEntry", s[p].o, x[1], {}, "", s[p].o) : p \in 1..Len(s)}
              : i \in 1..Len(es)}

ObjF(ty, v) == IF v.t = "object" THEN EntryFaults(ty, v) ELSE Unexp(v, {"object"})
StrF(v, ok, k) ==
  IF v.t # "string" THEN Unexp(v, {"string"}) ELSE IF ok THEN {} ELSE Simple(k, v.o, v.s)
\* The string of v, if it is one.
StrOf(v) == IF v.t = "string" THEN v.s ELSE "a"
AllItems(ty, v) == UNION {Faults(ty, v.a[i]) : i \in 1..Len(v.a)}
AllValues(ty, v) == UNION {Faults(ty, v.e[i].v) : i \in 1..Len(v.e)}

Faults(ty, v) ==
  CASE ty = "any" -> {}
    [] ty = "string" -> StrF(v, TRUE, "")
    [] ty = "boolean" -> IF v.t = "boolean" THEN {} ELSE Unexp(v, {"boolean"})
    [] ty = "iri" -> StrF(v, IriRefOk(StrOf(v)), "InvalidCompactIri")
    [] ty = "language" -> StrF(v, LangOk(StrOf(v)), "InvalidLangTag")
    [] ty = "regexp" -> IF v.t # "string" THEN Unexp(v, {"string"})
                        ELSE IF RegFault(v.s) = "" THEN {} ELSE Simple("InvalidRegex", v.o, RegFault(v.s))
    [] ty = "strings" -> IF v.t = "array" THEN AllItems("string", v) ELSE Faults("string", v)
    [] ty = "patterns" -> IF v.t = "array" THEN AllItems("pattern", v) ELSE Faults("pattern", v)
    [] ty = "pattern" ->
         IF v.t = "string" THEN (IF BlankOk(v.s) \/ IriRefOk(v.s) THEN {} ELSE Simple("InvalidPattern", v.o, v.s))
         ELSE IF v.t = "object" THEN EntryFaults(IF HasKey(v, "type") THEN "typed" ELSE "tagged", v)
         ELSE Unexp(v, {"string", "object"})
    [] ty = "graph" -> IF v.t = "null" THEN {} ELSE Faults("pattern", v)
    [] ty = "prefixes" -> IF v.t = "object" THEN AllValues("iri", v) ELSE Unexp(v, {"object"})
    [] ty = "extra" ->
         IF v.t # "object" THEN Unexp(v, {"object"})
         ELSE AllValues("resource", v)
              \cup UNION {IF IriRefOk(v.e[i].k) THEN {} ELSE Simple("InvalidCompactIri", v.e[i].o, v.e[i].k) : i \in 1..Len(v.e)}
    [] ty = "resource" ->
         (CASE v.t \in {"boolean", "string"} -> {}
            [] v.t = "number" -> IF IntOk(v.s) THEN {}
                                 ELSE Simple("ExpectedInteger", v.o, v.s) \cup Simple("IntegerOverflow", v.o, v.s)
            [] v.t = "object" -> EntryFaults("typed", v)
            [] OTHER -> Unexp(v, {"boolean", "number", "string", "object"}))
    [] ty = "dataset" -> IF v.t = "array" THEN AllItems("quad", v) ELSE Unexp(v, {"array"})
    [] ty = "quad" ->
         IF v.t # "array" THEN Unexp(v, {"array"})
         ELSE IF Len(v.a) < 3 THEN Simple("MissingQuadPattern", v.o, "")
         ELSE IF Len(v.a) > 4 THEN Simple("TooManyQuadPatterns", v.o, "")
         ELSE UNION {Faults("pattern", v.a[i]) : i \in 1..3} \cup (IF Len(v.a) = 4 THEN Faults("graph", v.a[4]) ELSE {})
    [] ty = "fields" -> IF v.t = "object" THEN AllValues("field", v) ELSE Unexp(v, {"object"})
    [] ty = "variants" -> IF v.t = "object" THEN AllValues("variant", v) ELSE Unexp(v, {"object"})
    [] ty = "items" -> IF v.t = "array" THEN AllItems("item", v) ELSE Unexp(v, {"array"})
    [] ty \in {"field", "variant", "item"} -> ObjF(ty, v)
    [] ty \in {"format", "node", "layoutref"} ->
         (CASE v.t = "string" -> Faults("iri", v)
            [] v.t = "boolean" -> {}
            [] v.t = "object" ->
                 IF ty = "layoutref" \/ HasKey(v, "type") THEN Faults("layout", v)
                 ELSE EntryFaults(IF ty = "node" THEN "listnode" ELSE "valueformat", v)
            [] OTHER -> Unexp(v, {"string", "object", "boolean"}))
    [] ty = "layout" ->
         (CASE v.t = "boolean" -> {}
            [] v.t = "object" ->
                 LET s == Keyed(v, "type") IN
                 IF Len(s) = 0 THEN Simple("MissingType", v.o, "")
                 ELSE IF Len(s) > 1 THEN {Fault("DuplicateEntry", s[p].o, "type", {}, "", s[3 - p].o) : p \in 1..2}
                 ELSE IF s[1].v.t # "string" THEN Unexp(s[1].v, {"string"})
                 ELSE IF s[1].v.s \notin LayoutTypes THEN {Fault("InvalidType", s[1].v.o, "", LayoutTypes, s[1].v.s, 0)}
                 ELSE EntryFaults(s[1].v.s, v)
            [] OTHER -> Unexp(v, {"boolean", "object"}))

(******************************* Messages *********************************)

\* The kinds, in the order of messages.
RECURSIVE Commas(_)
Commas(o) == IF Len(o) = 1 THEN o[1] ELSE o[1] \o ", " \o Commas(Tail(o))
Kinds(exp) == Commas(SelectSeq(<<"null", "boolean", "number", "string", "array", "object">>, LAMBDA k : k \in exp))
Message(f) ==
  CASE f.k = "Unexpected" -> "expected " \o Kinds(f.exp) \o ", found " \o f.found
    [] f.k = "MissingRequiredEntry" -> "missing required entry `" \o f.key \o "`"
    [] f.k = "DuplicateEntry" -> "duplicate entry `" \o f.key \o "`"
    [] f.k = "UnexpectedEntry" -> "unexpected entry `" \o f.key \o "`"
    [] f.k = "MissingType" -> "missing `type` entry"
    [] f.k = "InvalidType" -> "invalid type value"
    [] f.k = "InvalidPattern" -> "invalid IRI or blank node identifier `" \o f.key \o "`"
    [] f.k = "InvalidLangTag" -> "invalid language tag `" \o f.key \o "`"
    [] f.k = "InvalidCompactIri" -> "invalid compact IRI `" \o f.key \o "`"
    [] f.k = "MissingQuadPattern" -> "quad must have at least 3 patterns (subject, predicate, object)"
    [] f.k = "TooManyQuadPatterns" -> "quad must have at most 4 patterns (subject, predicate, object, graph)"
    [] f.k = "ExpectedInteger" -> "expected integer number, found " \o f.key
    [] f.k = "IntegerOverflow" -> "integer number is too large: " \o f.key
    [] f.k = "InvalidRegex" -> "invalid regular expression: " \o f.key

NormFault(e) == [e EXCEPT !.exp = {e.exp[i] : i \in 1..Len(e.exp)}]

\* What the tool prints of the fault f is r.
Prints(c, r, f) ==
  /\ c.pos[f.at + 1] = <<r.line, r.col>>
  /\ \E i \in 1..Len(r.lines) : r.lines[i] = Message(f)
  /\ f.k = "InvalidType" =>
       \E i \in 1..Len(r.notes) : r.notes[i] = "found type `" \o f.found \o "`"
  /\ f.k = "DuplicateEntry" => r.also = 1

\* Serde reads any structure from an array, too.
AsArray(fs) == \A f \in fs : f.k = "Unexpected" /\ f.found = "array" /\ "object" \in f.exp

LocVerdict(c) ==
  LET fs == TLCEval(Faults("layout", c.doc))
      t == c.tracked
      r == c.tool_res
      Names == {f.k : f \in fs}
  IN IF c.serde.st = "panic" THEN "serde: panic"
     ELSE IF c.serde.st = "ok" /\ ~AsArray(fs) THEN "serde: accepts what is no layout"
     ELSE IF c.serde.st = "err" /\ fs = {} THEN "serde: refuses a layout"
     ELSE IF t.st = "panic" THEN "tracked: panic"
     ELSE IF t.st = "ok" /\ fs # {} THEN "tracked: accepts what is no layout"
     ELSE IF t.st = "err" /\ fs = {} THEN "tracked: refuses a layout"
     ELSE IF t.st = "ok" /\ ~c.same THEN "the front ends read different layouts"
     ELSE IF t.st = "err" /\ \A f \in fs : f # NormFault(t.e)
          THEN IF \E f \in fs : f.k = t.e.k THEN "wrong place or details: " \o t.e.k ELSE "no such fault: " \o t.e.k
     ELSE IF t.st = "err" /\ t.m # Message(NormFault(t.e)) THEN "message of " \o t.e.k
     ELSE IF r.st = "skip" THEN ""
     ELSE IF ~r.silent THEN "tool: writes to its output"
     ELSE IF fs = {} THEN (IF r.rc = 0 \/ (r.rc = 1 /\ r.says) THEN "" ELSE "tool: fails on a layout")
     ELSE IF r.rc # 1 THEN "tool: status"
     ELSE IF \E f \in fs : Prints(c, r, f) THEN "" ELSE "tool: reports another fault, or another place"
=============================================================================
