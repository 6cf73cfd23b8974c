------------------------------ MODULE Verdicts ------------------------------
(***************************************************************************)
(* The verdict on a recorded case, whatever it is about: "" when it is a   *)
(* behaviour of the specification, otherwise what differs.                 *)
(***************************************************************************)
EXTENDS Located

Verdict(c) ==
  CASE c.op \in {"crash", "hang"} -> "the process does not survive: " \o c.op
    [] c.op = "match" -> MatchVerdict(c)
    [] c.op = "hist" -> HistVerdict(c)
    [] c.op = "regs" -> RegsVerdict(c)
    [] c.op = "json" -> JsonVerdict(c)
    [] c.op = "num" -> NumVerdict(c)
    [] c.op = "cbor" -> CborVerdict(c)
    [] c.op = "front" -> FrontVerdict(c)
    [] c.op = "cli" -> CliVerdict(c)
    [] c.op = "loc" -> LocVerdict(c)
    [] c.op = "hyi" -> HyiVerdict(c)
    [] c.op = "dei" -> DeiVerdict(c)
    [] c.op = "opt" -> OptVerdict(c)
    [] c.op = "ders" -> DersVerdict(c)
    [] c.op = "derd" -> DerdVerdict(c)
    [] c.op = "gen" -> GenVerdict(c)
    [] c.op = "genc" -> ToolVerdict(c)
    [] c.op = "regexp" -> RegexpVerdict(c)
    [] OTHER -> LayoutVerdict(c)
=============================================================================
