------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Character level helpers on TLC strings, and IRI (RFC 3987) references:  *)
(* decomposition, validity and resolution (RFC 3986, section 5.2.2).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
          "r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
          "R","S","T","U","V","W","X","Y","Z"}
Alpha == Lower \cup Upper
Digit == {"0","1","2","3","4","5","6","7","8","9"}
HexDigit == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)
StartsWith(s, p) == Len(s) >= Len(p) /\ Upto(s, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p
Chars(s) == {At(s, i) : i \in 1..Len(s)}

\* First position >= i whose character is in `stops`, Len(s)+1 if none.
RECURSIVE Find(_, _, _)
Find(s, i, stops) ==
  IF i > Len(s) THEN i
  ELSE IF At(s, i) \in stops THEN i
  ELSE Find(s, i + 1, stops)

\* Last position <= i whose character is in `stops`, 0 if none.
RECURSIVE RFind(_, _, _)
RFind(s, i, stops) ==
  IF i < 1 THEN 0
  ELSE IF At(s, i) \in stops THEN i
  ELSE RFind(s, i - 1, stops)

RECURSIVE DropLead(_, _)
DropLead(s, c) == IF Len(s) > 0 /\ At(s, 1) = c THEN DropLead(From(s, 2), c) ELSE s
RECURSIVE DropTrail(_, _)
DropTrail(s, c) ==
  IF Len(s) > 0 /\ At(s, Len(s)) = c THEN DropTrail(Upto(s, Len(s) - 1), c) ELSE s

(*********************************** IRIs **********************************)

SchemeChars == Alpha \cup Digit \cup {"+", "-", "."}

\* Characters that can appear in no IRI component.  (Anything outside ASCII
\* is accepted, as in ucschar; the traces only use a few such characters.)
Forbidden == {" ", "<", ">", "\"", "{", "}", "|", "\\", "^", "`", "\t", "\n", "\r"}

PctOk(s) ==
  \A i \in 1..Len(s) :
    At(s, i) = "%" => i + 2 <= Len(s) /\ At(s, i+1) \in HexDigit /\ At(s, i+2) \in HexDigit

\* Brackets are only for IP literals, which the traces do not use; a second
\* '#' cannot occur inside a fragment.
PartsOk(r) ==
  /\ Chars(r.frag) \cap {"#", "[", "]"} = {}
  /\ Chars(r.path) \cap {"[", "]"} = {}
  /\ Chars(r.query) \cap {"[", "]"} = {}
  /\ Chars(r.auth) \cap {"[", "]"} = {}

Split(s) ==
  LET i == Find(s, 1, {":", "/", "?", "#"})
      hasScheme == /\ i <= Len(s) /\ At(s, i) = ":" /\ i > 1
                   /\ At(s, 1) \in Alpha
                   /\ \A j \in 1..(i-1) : At(s, j) \in SchemeChars
      scheme == IF hasScheme THEN Upto(s, i - 1) ELSE ""
      r1 == IF hasScheme THEN From(s, i + 1) ELSE s
      hasAuth == StartsWith(r1, "//")
      a1 == IF hasAuth THEN From(r1, 3) ELSE ""
      ai == Find(a1, 1, {"/", "?", "#"})
      auth == IF hasAuth THEN Upto(a1, ai - 1) ELSE ""
      r2 == IF hasAuth THEN From(a1, ai) ELSE r1
      pi == Find(r2, 1, {"?", "#"})
      path == Upto(r2, pi - 1)
      r3 == From(r2, pi)
      hasQuery == StartsWith(r3, "?")
      q1 == IF hasQuery THEN From(r3, 2) ELSE r3
      qi == Find(q1, 1, {"#"})
      query == IF hasQuery THEN Upto(q1, qi - 1) ELSE ""
      r4 == IF hasQuery THEN From(q1, qi) ELSE r3
      hasFrag == StartsWith(r4, "#")
      frag == IF hasFrag THEN From(r4, 2) ELSE ""
  IN [hasScheme |-> hasScheme, scheme |-> scheme, hasAuth |-> hasAuth, auth |-> auth,
      path |-> path, hasQuery |-> hasQuery, query |-> query,
      hasFrag |-> hasFrag, frag |-> frag]

IsIri(s) ==
  IF StartsWith(s, "https://") /\ Chars(s) \cap (Forbidden \cup {"%", "[", "]", "#"}) = {} THEN TRUE
  ELSE LET r == Split(s) IN
       r.hasScheme /\ Chars(s) \cap Forbidden = {} /\ PctOk(s) /\ PartsOk(r)

\* The scheme of an IRI reference, "" if it is relative.
SchemeOf(s) ==
  IF StartsWith(s, "https:") THEN "https"
  ELSE IF StartsWith(s, "http:") THEN "http"
  ELSE LET r == Split(s) IN IF r.hasScheme THEN r.scheme ELSE ""

RECURSIVE RemoveDots(_, _)
RemoveDots(in, out) ==
  IF in = "" THEN out
  ELSE IF StartsWith(in, "../") THEN RemoveDots(From(in, 4), out)
  ELSE IF StartsWith(in, "./") THEN RemoveDots(From(in, 3), out)
  ELSE IF StartsWith(in, "/./") THEN RemoveDots(From(in, 3), out)
  ELSE IF in = "/." THEN RemoveDots("/", out)
  ELSE IF StartsWith(in, "/../") THEN
         RemoveDots(From(in, 4), Upto(out, RFind(out, Len(out), {"/"}) - 1))
  ELSE IF in = "/.." THEN RemoveDots("/", Upto(out, RFind(out, Len(out), {"/"}) - 1))
  ELSE IF in \in {".", ".."} THEN out
  ELSE LET i == Find(in, 2, {"/"}) IN RemoveDots(From(in, i), out \o Upto(in, i - 1))

Unsplit(r) ==
  (IF r.hasScheme THEN r.scheme \o ":" ELSE "") \o
  (IF r.hasAuth THEN "//" \o r.auth ELSE "") \o r.path \o
  (IF r.hasQuery THEN "?" \o r.query ELSE "") \o
  (IF r.hasFrag THEN "#" \o r.frag ELSE "")

\* RFC 3986, 5.2.2 (strict).
Resolve(base, ref) ==
  LET b == Split(base)
      r == Split(ref)
      merged == IF b.hasAuth /\ b.path = "" THEN "/" \o r.path
                ELSE Upto(b.path, RFind(b.path, Len(b.path), {"/"})) \o r.path
      t == IF r.hasScheme THEN [r EXCEPT !.path = RemoveDots(r.path, "")]
           ELSE IF r.hasAuth THEN
             [r EXCEPT !.hasScheme = TRUE, !.scheme = b.scheme, !.path = RemoveDots(r.path, "")]
           ELSE IF r.path = "" THEN
             [b EXCEPT !.hasQuery = b.hasQuery \/ r.hasQuery,
                       !.query = IF r.hasQuery THEN r.query ELSE b.query,
                       !.hasFrag = r.hasFrag, !.frag = r.frag]
           ELSE IF StartsWith(r.path, "/") THEN
             [b EXCEPT !.path = RemoveDots(r.path, ""),
                       !.hasQuery = r.hasQuery, !.query = r.query,
                       !.hasFrag = r.hasFrag, !.frag = r.frag]
           ELSE
             [b EXCEPT !.path = RemoveDots(merged, ""),
                       !.hasQuery = r.hasQuery, !.query = r.query,
                       !.hasFrag = r.hasFrag, !.frag = r.frag]
  IN Unsplit(t)

(********************************* decimals ********************************)

\* [+-]? ( digits ( '.' digits? )? | '.' digits )     (xsd:decimal)
UnSign(s) == IF Len(s) > 0 /\ At(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s
IsDecimal(s) ==
  LET u == UnSign(s)
      d == Find(u, 1, {"."})
      ip == Upto(u, d - 1)
      fp == From(u, d + 1)
  IN /\ Chars(ip) \subseteq Digit
     /\ Chars(fp) \subseteq Digit
     /\ Len(ip) + Len(fp) > 0

\* The canonical numeral of the decimal denoted by s.
NormDecimal(s) ==
  LET u == UnSign(s)
      neg == Len(s) > 0 /\ At(s, 1) = "-"
      d == Find(u, 1, {"."})
      ip0 == DropLead(Upto(u, d - 1), "0")
      ip == IF ip0 = "" THEN "0" ELSE ip0
      fp == DropTrail(From(u, d + 1), "0")
      mag == IF fp = "" THEN ip ELSE ip \o "." \o fp
  IN IF neg /\ mag # "0" THEN "-" \o mag ELSE mag

DigitVal(c) == (CHOOSE i \in 1..10 : <<"0","1","2","3","4","5","6","7","8","9">>[i] = c) - 1
RECURSIVE NatVal(_)
NatVal(s) == IF s = "" THEN 0 ELSE 10 * NatVal(Upto(s, Len(s) - 1)) + DigitVal(At(s, Len(s)))
\* Numerals of the same length, without sign.
RECURSIVE LexLeq(_, _)
LexLeq(s, m) ==
  IF s = "" THEN TRUE
  ELSE LET a == DigitVal(At(s, 1))
           b == DigitVal(At(m, 1))
       IN a < b \/ (a = b /\ LexLeq(From(s, 2), From(m, 2)))
AtMost(s, m) == Len(s) < Len(m) \/ (Len(s) = Len(m) /\ LexLeq(s, m))

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)

\* The canonical numeral of a decimal with an optional exponent.
NormNum(s) ==
  LET i == Find(s, 1, {"e", "E"})
      mant == Upto(s, i - 1)
      ex == From(s, i + 1)
      exn == NatVal(UnSign(ex))
      u == UnSign(mant)
      d == Find(u, 1, {"."})
      ip == Upto(u, d - 1)
      fp == From(u, d + 1)
      sgn == IF Len(s) > 0 /\ At(s, 1) = "-" THEN "-" ELSE ""
      up == LET f == fp \o Zeros(exn - Len(fp)) IN ip \o Upto(f, exn) \o "." \o From(f, exn + 1)
      down == LET n == Zeros(exn + 1 - Len(ip)) \o ip
              IN Upto(n, Len(n) - exn) \o "." \o From(n, Len(n) - exn + 1) \o fp
  IN IF i > Len(s) THEN NormDecimal(s)
     ELSE IF Chars(ip \o fp) \subseteq {"0"} THEN "0"
     ELSE NormDecimal(sgn \o (IF StartsWith(ex, "-") THEN down ELSE up))

(********************************** bytes **********************************)

\* Byte strings are handled as lower case hexadecimal.
HexChars == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) ==
  CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12
    [] c = "D" -> 13 [] c = "E" -> 14 [] c = "F" -> 15
    [] OTHER -> (CHOOSE i \in 1..16 : HexChars[i] = c) - 1
IsHex(s) == Len(s) % 2 = 0 /\ Chars(s) \subseteq HexDigit

RECURSIVE MapStr(_, _, _)
MapStr(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(At(s, i)) \o MapStr(F, s, i + 1)
LowerHex(s) == MapStr(LAMBDA c : HexChars[HexVal(c) + 1], s, 1)

B64Chars ==
  <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U",
    "V","W","X","Y","Z","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
    "q","r","s","t","u","v","w","x","y","z","0","1","2","3","4","5","6","7","8","9","+","/">>
B64Val(c) == (CHOOSE i \in 1..64 : B64Chars[i] = c) - 1
B64Set == {B64Chars[i] : i \in 1..64}

\* Spaces may separate the digits.  The decoder the project uses does not ask
\* for the padding either, and drops the bits that make no whole byte.
B64Body(s) == Upto(s, Find(s, 1, {"="}) - 1)
NoSpace(s) == MapStr(LAMBDA c : IF c = " " THEN "" ELSE c, s, 1)
IsBase64(s) ==
  LET body == B64Body(s) IN
  /\ Chars(body) \subseteq B64Set \cup {" "}
  /\ Chars(From(s, Len(body) + 1)) \subseteq {"=", " "}

\* Three bytes (six hexadecimal digits) are four base 64 digits.
RECURSIVE HexToBase64(_)
HexToBase64(h) ==
  IF h = "" THEN ""
  ELSE LET k == IF Len(h) >= 6 THEN 6 ELSE Len(h)
           p == Upto(h, k) \o Upto("0000", 6 - k)
           D(i) == HexVal(At(p, i))
           \* 6 digits of 4 bits -> 4 digits of 6 bits
           s1 == D(1) * 4 + D(2) \div 4
           s2 == (D(2) % 4) * 16 + D(3)
           s3 == D(4) * 4 + D(5) \div 4
           s4 == (D(5) % 4) * 16 + D(6)
       IN B64Chars[s1 + 1] \o B64Chars[s2 + 1]
          \o (IF k >= 4 THEN B64Chars[s3 + 1] ELSE "=")
          \o (IF k = 6 THEN B64Chars[s4 + 1] ELSE "=")
          \o HexToBase64(From(h, k + 1))

RECURSIVE B64Digits(_)
B64Digits(s) ==
  IF s = "" THEN ""
  ELSE LET q == Upto(s, 4)
           V(i) == IF i > Len(q) THEN 0 ELSE B64Val(At(q, i))
           H(x) == HexChars[x + 1]
           full == H(V(1) \div 4) \o H((V(1) % 4) * 4 + V(2) \div 16)
                   \o H(V(2) % 16) \o H(V(3) \div 4)
                   \o H((V(3) % 4) * 4 + V(4) \div 16) \o H(V(4) % 16)
       IN Upto(full, 2 * ((6 * Len(q)) \div 8)) \o B64Digits(From(s, 5))
Base64ToHex(s) == B64Digits(NoSpace(B64Body(s)))

\* Numerals as sequences of digits, for what exceeds TLC's integers.
RECURSIVE TimesPlus(_, _, _)
TimesPlus(ds, m, a) ==   \* ds * m + a
  IF ds = <<>> THEN (IF a = 0 THEN <<>> ELSE Append(TimesPlus(<<>>, m, a \div 10), a % 10))
  ELSE LET x == ds[Len(ds)] * m + a
       IN Append(TimesPlus(SubSeq(ds, 1, Len(ds) - 1), m, x \div 10), x % 10)
RECURSIVE HexDigits(_, _)
HexDigits(h, ds) == IF h = "" THEN ds ELSE HexDigits(From(h, 2), TimesPlus(ds, 16, HexVal(At(h, 1))))
RECURSIVE Numeral(_)
Numeral(ds) == IF ds = <<>> THEN "" ELSE HexChars[Head(ds) + 1] \o Numeral(Tail(ds))
HexToDec(h) == NormDecimal(Numeral(HexDigits(h, <<0>>)))
HexToDecPlus1(h) == NormDecimal(Numeral(TimesPlus(HexDigits(h, <<0>>), 1, 1)))

IsInteger(s) == IsDecimal(s) /\ Chars(UnSign(s)) \subseteq Digit
=============================================================================
