------------------------------ MODULE Prelude -------------------------------
(***************************************************************************)
(* The layouts that come with TreeLDR, under https://treeldr.org/prelude#. *)
(***************************************************************************)
EXTENDS Distill

TLDR == "https://treeldr.org/prelude#"

PreludeTypes ==
  [unit |-> "unit", boolean |-> "boolean", string |-> "string", id |-> "id",
   u8 |-> "unsignedByte", u16 |-> "unsignedShort", u32 |-> "unsignedInt", u64 |-> "unsignedLong",
   i8 |-> "byte", i16 |-> "short", i32 |-> "int", i64 |-> "long"]

PreludeLayout(n) ==
  LET h(kind) == [kind |-> kind, nin |-> 1, nintro |-> 0, ds |-> <<>>, ext |-> <<>>]
      t == PreludeTypes[n]
  IN CASE n = "unit" -> h("unit") @@ [cst |-> [k |-> "unit", s |-> "", c |-> <<>>]]
       [] n = "id" -> h("id") @@ [res |-> PVar(1), dt |-> "", pat |-> ""]
       [] n \in {"boolean", "string"} -> h(n) @@ [res |-> PVar(1), dt |-> XSD \o t, pat |-> ""]
       [] OTHER -> h("number") @@ [res |-> PVar(1), dt |-> XSD \o t, pat |-> ""]

PreludeIds == {IriT(TLDR \o n) : n \in DOMAIN PreludeTypes}
PreludeReg == TLCEval([t \in PreludeIds |->
                 PreludeLayout(CHOOSE n \in DOMAIN PreludeTypes : TLDR \o n = t.v)])

\* The first registry takes precedence.
WithPrelude(reg) == reg @@ PreludeReg
=============================================================================
