------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* The builder of layouts as a state machine: a registry, to which each    *)
(* compilation adds definitions.  Identifiers of anonymous layouts come    *)
(* from the generator of the compilation: that of the builder's user       *)
(* ("shared"), or a new one each time, which draws names again until they  *)
(* are free.  A compilation that fails may leave the definitions it had    *)
(* already made.                                                           *)
(*                                                                         *)
(* The behaviours of this machine are enumerated (Cases) and replayed in   *)
(* the code.                                                               *)
(***************************************************************************)
EXTENDS Small, Json, IOUtils, SequencesExt

CONSTANTS Steps, Every

\* Definitions: new, conflicting, nested, anonymous, broken at various places.
Leaf(t) == [t |-> t]
Ref(v) == [k |-> "ref", v |-> v]
Sub(l) == [k |-> "def", l |-> l]
NamedAs(n, l) == l @@ [id |-> EXN \o n]
Field(n, r) == [name |-> n, intro |-> <<"value">>, dataset |-> <<<<V("self"), C("p"), V("value")>>>>, value |-> [layout |-> r]]
Broken(n) == [name |-> n, intro |-> <<"value">>, dataset |-> <<<<V("self"), C("p"), V("nowhere")>>>>, value |-> [layout |-> Ref(EXN \o "A")]]
Rec(fs) == [t |-> "record", fields |-> fs]

Defs ==
  <<NamedAs("A", Leaf("string")),
    NamedAs("A", Leaf("boolean")),
    Leaf("id"),
    Rec(<<Field("f", Sub(Leaf("string"))), Field("g", Sub(Leaf("string")))>>),
    NamedAs("B", Rec(<<Field("f", Sub(NamedAs("A", Leaf("string")))), Field("g", Ref(EXN \o "C"))>>)),
    Rec(<<Field("f", Sub(NamedAs("A", Leaf("id")))), Field("g", Sub(NamedAs("A", Leaf("id"))))>>),
    Rec(<<Field("f", Sub(NamedAs("C", Leaf("unit")))), Field("g", Sub(Rec(<<Field("f", Sub(Leaf("id")))>>))), Broken("h")>>),
    [t |-> "sum", variants |-> <<[name |-> "a", value |-> [layout |-> Sub([t |-> "always"])]],
                                 [name |-> "b", value |-> [layout |-> Sub(NamedAs("C", [t |-> "number", datatype |-> "http://www.w3.org/2001/XMLSchema#integer"]))]]>>],
    [t |-> "list", node |-> [bare |-> TRUE, value |-> [layout |-> Sub(NamedAs("B", Leaf("string")))]]]>>

Hows == {"shared", "fresh", "plain"}

VARIABLES reg, next, log
vars == <<reg, next, log>>

Init == reg = <<>> /\ next = 0 /\ log = <<>>

\* Anonymous identifiers: the names of the specification, told apart by step.
Rename(b, n) ==
  LET ids == DOMAIN b.reg
      Anew(t) == IF t.k = "anon" THEN [t EXCEPT !.v = ToString(n) \o ":" \o @] ELSE t
  IN [t \in {Anew(x) : x \in ids} |-> b.reg[CHOOSE x \in ids : Anew(x) = t]]

\* What compiling the definition adds, in the order of the definitions; a
\* failing compilation adds some of them.
Compile(i, how) ==
  /\ Len(log) < Steps
  /\ LET b == BuildAll(<<Defs[i]>>)
         new == Rename(b, next)
         clash == DOMAIN new \cap DOMAIN reg
         fails == b.e # {} \/ clash # {}
     IN \/ /\ ~fails
           /\ reg' = new @@ reg
           /\ log' = Append(log, [layout |-> Defs[i], how |-> how, ok |-> TRUE])
        \/ /\ fails
           /\ \E S \in SUBSET (DOMAIN new \ DOMAIN reg) : reg' = [t \in S |-> new[t]] @@ reg
           /\ log' = Append(log, [layout |-> Defs[i], how |-> how, ok |-> FALSE])
  /\ next' = next + 1

Next == \E i \in 1..Len(Defs) : Compile(i, "shared")
Spec == Init /\ [][Next]_vars

\* Nothing is ever lost or changed.
Kept == [][\A t \in DOMAIN reg : t \in DOMAIN reg' /\ reg'[t] = reg[t]]_vars
\* A successful compilation defines its identifier with what was asked.
Told == \A i \in 1..Len(log) :
          log[i].ok /\ "id" \in DOMAIN log[i].layout =>
            LET t == IriT(log[i].layout.id) IN
            t \in DOMAIN reg /\ reg[t] = BuildAll(<<log[i].layout>>).reg[t]
\* An identifier is given by one successful compilation only.
Once == \A i, j \in 1..Len(log) :
          i # j /\ log[i].ok /\ log[j].ok /\ "id" \in DOMAIN log[i].layout /\ "id" \in DOMAIN log[j].layout
          => log[i].layout.id # log[j].layout.id

(****************************** enumeration ********************************)

Hists == UNION {[1..n -> {[layout |-> Defs[i], how |-> h] : i \in 1..Len(Defs), h \in Hows}] : n \in 1..Steps}
Cases ==
  LET s == SetToSeq(Hists) IN
  [i \in 1..((Len(s) + Every - 1) \div Every) |->
     [op |-> "hist", steps |-> s[(i - 1) * Every + 1], case |-> "enum.hist/" \o ToString((i - 1) * Every + 1)]]
EnumInit == Init /\ ndJsonSerialize(IOEnv.OUT, Cases)
Stop == FALSE /\ UNCHANGED vars
Enum == EnumInit /\ [][Stop]_vars
=============================================================================
