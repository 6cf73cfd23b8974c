------------------------------ MODULE Modules -------------------------------
(***************************************************************************)
(* Rust modules generated from layouts.  The type generated for a layout   *)
(* must stand for that layout: the attributes and the types of its fields, *)
(* read back as a layout (see Derived for what they mean), compile to what *)
(* the layout compiles to.  A layout for which this is not possible is     *)
(* refused.                                                                *)
(***************************************************************************)
EXTENDS Derived

(*************************** identifiers of types **************************)

PathOf(s) ==
  LET a == Upto(s, Find(s, 1, {"?", "#"}) - 1)
      i == Find(a, 1, {":"})
  IN From(a, IF At(a, i + 1) = "/" /\ At(a, i + 2) = "/" THEN Find(a, i + 3, {"/"}) ELSE i + 1)
LastPart(s) ==
  LET h == Find(s, 1, {"#"}) IN
  IF h <= Len(s) THEN From(s, h + 1)
  ELSE LET p == PathOf(s) IN From(p, RFind(p, Len(p), {"/"}) + 1)

LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Upcase(c) == IF c \in Lower THEN UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c] ELSE c
RECURSIVE Pascal(_, _)
Pascal(s, up) ==
  IF s = "" THEN ""
  ELSE LET c == At(s, 1) IN
       IF c \in {"_", " ", "\t", "\n"} THEN Pascal(From(s, 2), TRUE)
       ELSE (IF up THEN Upcase(c) ELSE c) \o Pascal(From(s, 2), FALSE)

Keywords ==
  {"_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn",
   "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match",
   "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super",
   "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"}
IsIdent(s) ==
  /\ s # "" /\ s \notin Keywords
  /\ Chars(s) \subseteq Alpha \cup Digit \cup {"_"} /\ At(s, 1) \notin Digit

(* "" when there is none. *)
TypeName(id) ==
  IF id.k # "iri" THEN ""
  ELSE LET p == Pascal(LastPart(id.v), TRUE) IN IF IsIdent(p) THEN p ELSE ""

(* The longest of the prefixes of extern modules, and its path.            *)
ModuleOf(ms, iri) ==
  LET own == {i \in 1..Len(ms) : StartsWith(iri, ms[i][1])} IN
  IF own = {} THEN ""
  ELSE ms[CHOOSE i \in own : \A j \in own : Len(ms[j][1]) <= Len(ms[i][1])][2] \o "/"

\* How the types of fields are recorded.
TypeRef(ms, id) ==
  IF id.k # "iri" THEN ""
  ELSE IF id \in PreludeIds THEN id.v
  ELSE IF TypeName(id) = "" THEN "" ELSE "urn:rust:" \o ModuleOf(ms, id.v) \o TypeName(id)

(******************************** refusals *********************************)

NumberTypes ==
  [unsignedByte |-> "u8", unsignedShort |-> "u16", unsignedInt |-> "u32", unsignedLong |-> "u64",
   byte |-> "i8", short |-> "i16", int |-> "i32", long |-> "i64"]
HasType(dt) == \E n \in DOMAIN NumberTypes : dt = XSD \o n
RustOf(L) ==
  CASE L.kind = "boolean" -> "bool"
    [] L.kind = "number" -> NumberTypes[CHOOSE n \in DOMAIN NumberTypes : L.dt = XSD \o n]
    [] L.kind = "string" -> "String"
    [] L.kind = "bytes" -> "Vec<u8>"
    [] L.kind = "id" -> TLDR \o "id"
    [] OTHER -> ""

\* Only variables and IRIs can be written in attributes.
Writable(p) == p.var \/ p.r.k = "iri"
QuadWritable(q) == Writable(q.s) /\ Writable(q.p) /\ Writable(q.o) /\ (~q.hasg \/ Writable(q.g))
CompErrs(ms, L, c) ==
  (IF TypeRef(ms, c.layout) = "" THEN {"MissingTypeIdentifier"} ELSE {})
  \cup (IF (\A i \in 1..Len(c.ds) : QuadWritable(c.ds[i])) /\ (\A i \in 1..Len(c.input) : Writable(c.input[i]))
           /\ (~c.hasgraph \/ c.graph = PRes(NoGraph) \/ Writable(c.graph)) THEN {} ELSE {"NoIriRepresentation"})
  \cup (IF L.kind = "record" /\ ~IsIdent(c.name) THEN {"InvalidFieldIdent"} ELSE {})
  \cup (IF L.kind = "sum" /\ ~IsIdent(c.name) THEN {"InvalidVariantIdent"} ELSE {})
LayErrs(ms, id, L) ==
  (IF TypeName(id) = "" THEN {"MissingTypeIdentifier"} ELSE {})
  \cup (IF L.kind \in {"always", "never"} THEN {} ELSE
        (IF \A i \in 1..Len(L.ds) : QuadWritable(L.ds[i]) THEN {} ELSE {"NoIriRepresentation"})
        \cup (IF L.kind \in {"boolean", "number", "string", "bytes", "id"} /\ ~Writable(L.res) THEN {"NoIriRepresentation"} ELSE {})
        \cup (IF L.kind = "list" /\ ~(Writable(L.head) /\ Writable(L.tail)) THEN {"NoIriRepresentation"} ELSE {})
        \cup (IF L.kind = "number" /\ ~HasType(L.dt) THEN {"UnsupportedNumberDatatype"} ELSE {})
        \cup (IF HasComps(L) THEN UNION {CompErrs(ms, L, L.comps[i]) : i \in 1..Len(L.comps)} ELSE {}))

(******************************** verdicts *********************************)

\* What a type does not say: the constant that a unit stands for, and extra
\* properties (which have no effect on data).
Bare(L) ==
  LET M == [L EXCEPT !.ext = <<>>] IN
  IF L.kind = "unit" THEN [M EXCEPT !.cst = [k |-> "unit", s |-> "", c |-> <<>>]] ELSE M

TypeVerdict(ms, id, L, x) ==
  LET errs == LayErrs(ms, id, L) IN
  CASE L.kind \in {"always", "never"} -> ""
    [] x.st = "panic" -> "panics"
    [] x.st = "err" -> IF x.e \in errs THEN "" ELSE "is refused: " \o x.e
    [] errs # {} -> "should be refused: " \o ToString(errs)
    [] x.st # "ok" -> "is not Rust: " \o x.st
    [] x.type.name # TypeName(id) -> "is named " \o x.type.name
    [] OTHER ->
         LET b == BuildAll(<<x.type.layout>>)
             M == b.reg[b.refs[1]]
             pairs == IF HasComps(L) THEN {<<L.comps[i].layout, IriT(TypeRef(ms, L.comps[i].layout))>> : i \in 1..Len(L.comps)} ELSE {}
         IN IF b.e # {} THEN "stands for no layout: " \o ToString(b.e)
            ELSE IF x.type.rust # RustOf(L) THEN "holds a " \o x.type.rust
            ELSE IF ~SameLayout(Bare(L), Bare(M), pairs) THEN "stands for another layout"
            ELSE ""

GenVerdict(c) ==
  LET b == BuildAll(c.layouts) IN
  IF b.e # {} \/ c.built.st # "ok" THEN "NOT-FAITHFUL"
  ELSE LET named == {t \in DOMAIN b.reg : t.k = "iri"}
           seen == {i \in 1..Len(c.out) : c.out[i].id.k = "iri"}
           bad == {i \in seen : c.out[i].id \in named /\ TypeVerdict(c.modules, c.out[i].id, b.reg[c.out[i].id], c.out[i]) # ""}
       IN IF {c.out[i].id : i \in seen} # named THEN "other layouts are generated"
          ELSE IF \E i \in (1..Len(c.out)) \ seen : c.out[i].st # "err" THEN "a layout without a name is generated"
          ELSE IF bad = {} THEN ""
          ELSE LET i == CHOOSE i \in bad : TRUE IN
               c.out[i].id.v \o " " \o TypeVerdict(c.modules, c.out[i].id, b.reg[c.out[i].id], c.out[i])

(********************************* the tool ********************************)
(* tldr-rs FILES [-l LAYOUT]: writes the type of the layout, or of that of *)
(* the only file (layouts of the prelude are primitive types already).     *)

ToolVerdict(c) ==
  LET bad == \E i \in 1..Len(c.files) : c.files[i].st # "ok"
      b == BuildAll(TLCEval([i \in 1..Len(c.files) |-> c.files[i].layout]))
      S == b.reg
      root == IF c.layout # "" THEN IriT(c.layout) ELSE b.refs[1]
      r == c.res
      fails == IF r.rc = 0 THEN "succeeds" ELSE IF ~r.silent THEN "fails, but writes something"
               ELSE IF ~r.says THEN "fails without a diagnostic" ELSE ""
  IN IF c.usage # 0 THEN IF r.rc = 2 THEN "" ELSE "exit status " \o ToString(r.rc) \o " instead of 2"
     ELSE IF bad \/ b.e # {} \/ (c.layout = "" /\ Len(c.files) # 1) THEN fails
     ELSE IF root \notin DOMAIN S THEN fails
     ELSE IF LayErrs(<<>>, root, S[root]) # {} /\ S[root].kind \notin {"always", "never"} THEN fails
     ELSE IF r.rc # 0 THEN IF TypeName(root) = "" THEN fails ELSE "exit status " \o ToString(r.rc) \o " instead of 0"
     ELSE TypeVerdict(<<>>, root, S[root], r)
=============================================================================
