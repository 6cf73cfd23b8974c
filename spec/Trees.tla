-------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Tree values and the notations they are exchanged in: JSON (two parsers, *)
(* two writers) and CBOR (with the tags that layouts ask for).             *)
(*                                                                         *)
(* Numbers are rationals, of any size: a JSON numeral denotes exactly the  *)
(* decimal it writes.  JSON has no byte strings, no keys that are not      *)
(* strings, and no rationals without finite decimal expansion.             *)
(***************************************************************************)
EXTENDS Histories

\* Values and documents as they are logged: [k, s, c].
NPairs(v) == Len(v.c) \div 2

(* A document denotes a value; the last entry of an object with some key   *)
(* is the one that counts.                                                 *)
RECURSIVE DocValue(_)
DocValue(d) ==
  CASE d.k = "num" -> Node("num", NormNum(d.s), <<>>, {}, NoL)
    [] d.k = "list" -> Node("list", "", TLCEval([i \in 1..Len(d.c) |-> DocValue(d.c[i])]), {}, NoL)
    [] d.k = "map" ->
         \* Keys of JSON are strings, those of CBOR any value; the last entry wins.
         LET keys == TLCEval([i \in 1..NPairs(d) |-> DocValue(d.c[2*i-1])])
             last == {i \in 1..NPairs(d) : \A j \in (i+1)..NPairs(d) : keys[j] # keys[i]} IN
         Node("map", "", <<>>, {<<keys[i], DocValue(d.c[2*i])>> : i \in last}, NoL)
    [] OTHER -> Node(d.k, d.s, <<>>, {}, NoL)

Fraction(s) == "/" \in Chars(s)
NDigits(s) == Len(DropLead(MapStr(LAMBDA c : IF c \in Digit THEN c ELSE "", s, 1), "0"))
\* Writers that go through binary floating point are exact on these.
Short(s) ==
  IF Fraction(s) THEN FALSE
  ELSE NDigits(s) <= 15 \/
       (IsInteger(s) /\ IF StartsWith(s, "-") THEN AtMost(UnSign(s), "9223372036854775807")
                        ELSE AtMost(s, "18446744073709551615"))

RECURSIVE JsonErrs(_)
JsonErrs(v) ==
  CASE v.k = "num" -> IF Fraction(v.s) THEN {"Number"} ELSE {}
    [] v.k = "bytes" -> {"ByteString"}
    [] v.k = "list" -> UNION {JsonErrs(v.c[i]) : i \in 1..Len(v.c)}
    [] v.k = "map" -> UNION {(IF v.c[2*i-1].k # "str" THEN {"NonStringKey"} ELSE {})
                             \cup JsonErrs(v.c[2*i]) : i \in 1..NPairs(v)}
    [] OTHER -> {}

RECURSIVE HasKind(_, _)
HasKind(v, K) == v.k \in K \/ \E i \in 1..Len(v.c) : HasKind(v.c[i], K)
RECURSIVE Nums(_)
Nums(v) == (IF v.k = "num" THEN {v.s} ELSE {}) \cup UNION {Nums(v.c[i]) : i \in 1..Len(v.c)}

\* The first nine decimals of a / b.
RECURSIVE LongDiv(_, _, _)
LongDiv(a, b, k) == IF k = 0 THEN "" ELSE ToString((10 * a) \div b) \o LongDiv((10 * a) % b, b, k - 1)
\* The decimal that starts the expansion of the number n ("" when it is not followed).
Decimal(n) ==
  IF ~Fraction(n) THEN n
  ELSE LET i == Find(n, 1, {"/"})
           a == UnSign(Upto(n, i - 1))
           b == From(n, i + 1) IN
       IF Len(a) > 8 \/ Len(b) > 8 THEN ""
       ELSE (IF StartsWith(n, "-") THEN "-" ELSE "") \o ToString(NatVal(a) \div NatVal(b))
            \o "." \o LongDiv(NatVal(a) % NatVal(b), NatVal(b), 9)

\* The canonical decimals a and b have the same sign and, but for rounding,
\* the same first eight digits.
Close(a, b) ==
  LET ua == UnSign(a)
      ub == UnSign(b)
      da == Find(ua, 1, {"."})
      db == Find(ub, 1, {"."})
      k == IF da > db THEN da ELSE db
      A == Zeros(k - da) \o Upto(ua, da - 1) \o From(ua, da + 1)
      B == Zeros(k - db) \o Upto(ub, db - 1) \o From(ub, db + 1)
      za == Len(A) - Len(DropLead(A, "0"))
      zb == Len(B) - Len(DropLead(B, "0"))
      z == IF za < zb THEN za ELSE zb
      na == NatVal(Upto(From(A, z + 1) \o Zeros(8), 8))
      nb == NatVal(Upto(From(B, z + 1) \o Zeros(8), 8))
  IN \/ da > 300 \/ za >= 300         \* beyond the range of binary floating point
     \/ StartsWith(a, "-") = StartsWith(b, "-") /\ na <= nb + 1 /\ nb <= na + 1

\* The number n, read back as the numeral s: exactly, or as closely as
\* binary floating point can.
NumRead(n, s, exact) ==
  IF exact \/ Short(n) THEN NormNum(s) = n
  ELSE Decimal(n) = "" \/ Close(NormDecimal(Decimal(n)), NormNum(s))
NumWritten(n, x, exact) == x.k = "num" /\ NumRead(n, x.s, exact)

\* v is written as x.
RECURSIVE Written(_, _, _)
Written(v, x, exact) ==
  CASE v.k = "num" -> NumWritten(v.s, x, exact)
    [] v.k = "bytes" ->      \* only serde writes them
         /\ x.k = "list" /\ 2 * Len(x.c) = Len(v.s)
         /\ \A i \in 1..Len(x.c) : x.c[i].k = "num" /\ x.c[i].s = HexToDec(SubSeq(v.s, 2*i-1, 2*i))
    [] v.k = "list" -> x.k = "list" /\ Len(x.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Written(v.c[i], x.c[i], exact)
    [] v.k = "map" ->
         /\ x.k = "map" /\ Len(x.c) = Len(v.c)
         /\ \A i \in 1..NPairs(v) : \E j \in 1..NPairs(x) :
              x.c[2*j-1].k = "str" /\ x.c[2*j-1].s = v.c[2*i-1].s /\ Written(v.c[2*i], x.c[2*j], exact)
    [] OTHER -> x.k = v.k /\ x.s = v.s

Quoted(s) == "\"" \o MapStr(LAMBDA c : IF c \in {"\"", "\\"} THEN "\\" \o c ELSE c, s, 1) \o "\""
RECURSIVE Display(_)
RECURSIVE DisplaySeq(_, _)
RECURSIVE DisplayMap(_, _)
Display(v) ==
  CASE v.k = "unit" -> "null"
    [] v.k \in {"bool", "num"} -> v.s
    [] v.k = "bytes" -> "x" \o v.s
    [] v.k = "str" -> Quoted(v.s)
    [] v.k = "list" -> "[" \o DisplaySeq(v.c, 1) \o "]"
    [] v.k = "map" -> "{" \o DisplayMap(v.c, 1) \o "}"
DisplaySeq(c, i) ==
  IF i > Len(c) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o Display(c[i]) \o DisplaySeq(c, i + 1)
DisplayMap(c, i) ==
  IF 2 * i > Len(c) THEN ""
  ELSE (IF i > 1 THEN "," ELSE "") \o Display(c[2*i-1]) \o ":" \o Display(c[2*i]) \o DisplayMap(c, i + 1)

(********************************** CBOR ***********************************)

\* The CBOR node x denotes the number n.
CborNum(n, x) ==
  IF IsInteger(n)
  THEN \/ x.k = "num" /\ x.s = n
       \/ x.k = "tag" /\ x.s = "2" /\ x.c[1].k = "bytes" /\ HexToDec(x.c[1].s) = n
       \/ x.k = "tag" /\ x.s = "3" /\ x.c[1].k = "bytes" /\ "-" \o HexToDecPlus1(x.c[1].s) = n
  ELSE x.k = "float" /\ NumRead(n, x.s, FALSE)

RECURSIVE Cbor(_, _)
Cbor(v, x) ==
  CASE v.k = "num" -> CborNum(v.s, x)
    [] v.k = "list" -> x.k = "list" /\ Len(x.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Cbor(v.c[i], x.c[i])
    [] v.k = "map" ->
         /\ x.k = "map" /\ Len(x.c) = Len(v.c)
         /\ \A i \in 1..NPairs(v) : \E j \in 1..NPairs(x) :
              Cbor(v.c[2*i-1], x.c[2*j-1]) /\ Cbor(v.c[2*i], x.c[2*j])
    [] OTHER -> x.k = v.k /\ x.s = v.s

\* Fractions that binary floating point can hold.
Dyadic(s) ==
  LET d == Find(s, 1, {"."}) IN
  ~Fraction(s) /\ From(s, d + 1) \in {"", "5", "25", "75", "125", "375", "625", "875"}
CborExact(s) == Dyadic(s) /\ Short(s)

CborTag == IriT("https://schema.treeldr.org/cbor#tag")
TagTypes == {XSD \o s : s \in {"unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"}}
IsU64(s) ==
  LET u == IF StartsWith(s, "+") THEN From(s, 2) ELSE s IN
  u # "" /\ Chars(u) \subseteq Digit /\ AtMost(DropLead(u, "0"), "18446744073709551615")
TagNumeral(s) == NormDecimal(s)

\* The value of the tag property of a layout; <<>> when it has none.
TagLit(L) ==
  IF L.kind \in {"always", "never"} THEN <<>>
  ELSE LET I == {i \in 1..Len(L.ext) : L.ext[i][1] = CborTag} IN
       IF I = {} THEN <<>> ELSE <<L.ext[CHOOSE i \in I : TRUE][2]>>
TagErrs(L) ==
  LET t == TagLit(L) IN
  IF t = <<>> THEN {}
  ELSE IF t[1].t \notin TagTypes THEN {"Type"}
  ELSE IF ~IsU64(t[1].v) THEN {"Value"} ELSE {}

LayoutOfNode(v, S, ps) == S[Image(ps, v.l)]
RECURSIVE AllTagErrs(_, _, _)
AllTagErrs(v, S, ps) ==
  (IF v.l.k = "none" THEN {} ELSE TagErrs(LayoutOfNode(v, S, ps)))
  \cup (IF v.k = "always" \/ StartsWith(v.k, "unit:") THEN {}
        ELSE UNION {IF v.k = "map" /\ i % 2 = 1 THEN {} ELSE AllTagErrs(v.c[i], S, ps) : i \in 1..Len(v.c)})

\* The typed value v is encoded as x, with its tags.
RECURSIVE TypedCbor(_, _, _, _)
TypedCbor(v, x, S, ps) ==
  LET tag == IF v.l.k = "none" THEN <<>> ELSE TagLit(LayoutOfNode(v, S, ps))
      tagged == tag # <<>>
      y == IF tagged THEN x.c[1] ELSE x
  IN /\ tagged => x.k = "tag" /\ x.s = TagNumeral(tag[1].v)
     /\ CASE v.k = "always" \/ StartsWith(v.k, "unit:") -> Cbor(StripReal(v), y)
          [] v.k = "variant" -> TypedCbor(v.c[1], y, S, ps)
          [] v.k = "list" ->
               y.k = "list" /\ Len(y.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : TypedCbor(v.c[i], y.c[i], S, ps)
          [] v.k = "map" ->
               /\ y.k = "map" /\ Len(y.c) = Len(v.c)
               /\ \A i \in 1..NPairs(v) : \E j \in 1..NPairs(y) :
                    Cbor(StripReal(v.c[2*i-1]), y.c[2*j-1]) /\ TypedCbor(v.c[2*i], y.c[2*j], S, ps)
          [] OTHER -> Cbor(StripReal(v), y)

(******************************** verdicts *********************************)

First(vs) ==   \* the first complaint
  LET I == {i \in 1..Len(vs) : vs[i] # ""} IN
  IF I = {} THEN "" ELSE vs[CHOOSE i \in I : \A j \in I : i <= j]

Out(r, name, errs, good) ==
  IF r.st = "skip" THEN ""
  ELSE IF r.st \notin {"ok", "err"} THEN name \o ": " \o r.st
  ELSE IF r.st = "err" THEN
    IF errs = {} THEN name \o " fails: " \o r.e
    ELSE IF r.e \in errs THEN "" ELSE name \o " reports " \o r.e \o " instead of " \o ToString(errs)
  ELSE IF errs # {} THEN name \o " succeeds, but should report " \o ToString(errs)
  ELSE IF good THEN "" ELSE name \o " gives something else"

JsonVerdict(c) ==
  LET d == DocValue(c.doc)
      v == c.value
      nv == Norm(v)
      errs == JsonErrs(v)
      In(r, name) == Out(r, name, {}, r.st = "ok" => Norm(r.v) = d)
      o == c.out
      Ok2(r, P(_)) == r.st = "ok" => P(r.v)
      keys == "NonStringKey" \in errs
      exact == \A n \in Nums(v) : CborExact(n)
  IN First(<<
       In(c.in.js, "reading JSON"), In(c.in.tf, "reading tracked JSON"),
       In(c.in.sv, "reading a serde_json value"), In(c.in.sd, "deserializing JSON"),
       Out(o.js, "writing JSON", errs, Ok2(o.js, LAMBDA x : Written(v, x, TRUE))),
       Out(o.sv, "writing a serde_json value", errs, Ok2(o.sv, LAMBDA x : Written(v, x, FALSE))),
       IF keys THEN "" ELSE Out(o.ser, "serializing to JSON", {}, Ok2(o.ser, LAMBDA x : Written(v, x, FALSE))),
       Out(o.back, "JSON and back", errs, Ok2(o.back, LAMBDA x : Norm(x) = nv)),
       IF \E n \in Nums(v) : ~IsInteger(n) THEN ""
       ELSE Out(o.disp, "displaying", {}, o.disp.st = "ok" => o.disp.s = Display(v)),
       Out(o.cbor, "converting to CBOR", {}, Ok2(o.cbor, LAMBDA x : Cbor(v, x))),
       IF ~exact THEN "" ELSE Out(o.cback, "CBOR and back", {}, Ok2(o.cback, LAMBDA x : Norm(x) = nv)) >>)

(* Numbers: exact rationals, written as decimals or as fractions.          *)
\* Is s a numeral with an optional exponent?
IsNumeral(s) ==
  LET i == Find(s, 1, {"e", "E"})
      ex == From(s, i + 1) IN
  /\ IsDecimal(Upto(s, i - 1))
  /\ i > Len(s) \/ (UnSign(ex) # "" /\ Chars(UnSign(ex)) \subseteq Digit)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Strip(_, _)
Strip(n, p) == IF n % p = 0 THEN Strip(n \div p, p) ELSE n

\* A fraction of small integers, in lowest terms: sign, numerator, denominator.
FracOf(s) ==
  LET i == Find(s, 1, {"/"})
      p == NatVal(UnSign(Upto(s, i - 1)))
      q == NatVal(From(s, i + 1))
      g == Gcd(p, q)
  IN [neg |-> StartsWith(s, "-") /\ p # 0, p |-> p \div g, q |-> q \div g]
FracStr(f) == (IF f.neg THEN "-" ELSE "") \o ToString(f.p) \o (IF f.q = 1 THEN "" ELSE "/" \o ToString(f.q))
\* All of the decimals (there are at most seven for such denominators).
FracDec(f) == NormDecimal((IF f.neg THEN "-" ELSE "") \o ToString(f.p \div f.q) \o "." \o LongDiv(f.p % f.q, f.q, 9))

\* The number denoted by s: its decimal representation (if any), and its fraction.
NumOf(s) ==
  IF Fraction(s)
  THEN LET f == FracOf(s) IN
       [dec |-> IF Strip(Strip(f.q, 2), 5) = 1 THEN <<FracDec(f)>> ELSE <<>>,
        about |-> FracDec(f), disp |-> FracStr(f)]
  ELSE [dec |-> <<NormNum(s)>>, about |-> NormNum(s), disp |-> IF IsInteger(NormNum(s)) THEN NormNum(s) ELSE ""]

OneNumber(s, r) ==
  IF ~(Fraction(s) \/ IsNumeral(s))
  THEN IF r.st = "err" THEN "" ELSE "a number is read from " \o s
  ELSE IF r.st # "ok" THEN "reading a number: " \o r.st
  ELSE LET n == NumOf(s)
           int == n.dec # <<>> /\ IsInteger(n.dec[1])
       IN IF r.dec # n.dec THEN "another decimal representation"
          ELSE IF n.disp # "" /\ r.disp # n.disp THEN "displayed as another number"
          ELSE IF r.int # (IF int THEN n.dec ELSE <<>>) THEN "another integer"
          ELSE IF ~(IF n.dec # <<>> THEN NumRead(n.about, r.native, FALSE) ELSE Close(n.about, NormNum(r.native))) THEN "another native number"
          ELSE IF ~(IF n.dec # <<>> /\ NDigits(n.about) <= 15 THEN NormNum(r.float) = n.about ELSE Close(n.about, NormNum(r.float)))
               THEN "another float"
          ELSE IF ~(IF n.dec # <<>> /\ CborExact(n.about) /\ NDigits(n.about) <= 15 THEN r.back = n.about ELSE Close(n.about, NormNum(r.back)))
               THEN "another number from a float"
          ELSE IF \E i \in 1..Len(r.same) : ~r.same[i] THEN "conversions disagree"
          ELSE ""

\* The order of two canonical decimals.
DecLess(a, b) ==
  LET na == StartsWith(a, "-")
      nb == StartsWith(b, "-")
      ua == UnSign(a)
      ub == UnSign(b)
      da == Find(ua, 1, {"."})
      db == Find(ub, 1, {"."})
      fa == From(ua, da + 1)
      fb == From(ub, db + 1)
      k == IF da > db THEN da ELSE db
      l == IF Len(fa) > Len(fb) THEN Len(fa) ELSE Len(fb)
      A == Zeros(k - da) \o Upto(ua, da - 1) \o fa \o Zeros(l - Len(fa))
      B == Zeros(k - db) \o Upto(ub, db - 1) \o fb \o Zeros(l - Len(fb))
  IN IF na # nb THEN na
     ELSE IF na THEN A # B /\ LexLeq(B, A) ELSE A # B /\ LexLeq(A, B)

\* Fractions are compared with fractions by cross products.
FracLess(f, g) ==
  LET x == f.p * g.q
      y == g.p * f.q
  IN IF f.neg # g.neg THEN f.neg ELSE IF f.neg THEN y < x ELSE x < y

NumVerdict(c) ==
  LET va == OneNumber(c.a, c.ra)
      vb == OneNumber(c.b, c.rb)
      x == NumOf(c.a)
      y == NumOf(c.b)
      order == IF Fraction(c.a) /\ Fraction(c.b)
               THEN LET f == FracOf(c.a)
                        g == FracOf(c.b) IN IF f = g THEN "=" ELSE IF FracLess(f, g) THEN "<" ELSE ">"
               ELSE IF x.about = y.about /\ x.dec # <<>> /\ y.dec # <<>> THEN "="
               ELSE IF DecLess(x.about, y.about) THEN "<" ELSE ">"
  IN IF va # "" THEN va
     ELSE IF vb # "" THEN vb
     ELSE IF c.ra.st # "ok" \/ c.rb.st # "ok" THEN ""
     ELSE IF c.cmp.st # "ok" THEN "comparing numbers: " \o c.cmp.st
     ELSE IF ~c.cmp.agree THEN "equality and order disagree"
     ELSE IF x.about = y.about /\ (x.dec = <<>>) # (y.dec = <<>>) THEN ""    \* too close to tell
     ELSE IF c.cmp.e = order THEN "" ELSE "compares as " \o c.cmp.e

CborVerdict(c) ==
  LET b == BuildAll(c.layouts)
      bv == BuildVerdict(b, c)
      ps == AllPairs(b, c)
      S == WithPrelude(b.reg)
      prelude == {<<t, t>> : t \in DOMAIN S \ DOMAIN b.reg}
      qs == ps \cup prelude
      errs == AllTagErrs(c.hy.v, S, qs)
  IN IF bv # "" THEN bv
     ELSE IF c.hy.st = "skip" THEN ""
     ELSE First(<<
       Out(c.tagged, "tagged CBOR", errs, c.tagged.st = "ok" => TypedCbor(c.hy.v, c.tagged.v, S, qs)),
       Out(c.plain, "CBOR", {}, c.plain.st = "ok" => Cbor(StripReal(c.hy.v), c.plain.v)),
       Out(c.untyped, "untyped CBOR", {}, c.untyped.st = "ok" => Cbor(StripReal(c.hy.v), c.untyped.v)) >>)

(* The notations of the layout language: a text is either no layout, for   *)
(* every parser, or the same layout for all of them, also once written     *)
(* again.                                                                  *)
FrontVerdict(c) ==
  LET b == BuildAll(c.layouts)
      V(r) == IF c.spoiled
              THEN IF r.built.st = "parse-err" THEN "" ELSE r.via \o ": accepts what is no layout"
              ELSE LET v == BuildVerdict(b, r) IN IF v = "" THEN "" ELSE r.via \o ": " \o v
  IN First(TLCEval([i \in 1..Len(c.runs) |-> V(c.runs[i])]))
=============================================================================
