-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates a recorded trace: case by case, in W independent strides so   *)
(* that TLC's workers share the work.  A case that is not a behaviour of   *)
(* the specification is printed; the run itself always ends normally.      *)
(***************************************************************************)
EXTENDS Verdicts, Json, IOUtils

CONSTANT W

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Cases)

VARIABLE i

Report(k) ==
  LET v == Verdict(Cases[k]) IN
  IF v = "" THEN TRUE
  ELSE IF v = "NOT-FAITHFUL" THEN PrintT(<<"SKIPPED", Cases[k].case, v>>)
  ELSE PrintT(<<"NONCONF", Cases[k].case, v>>)

Init == i \in (1 - W)..0
Next == i + W <= N /\ Report(i + W) /\ i' = i + W
Spec == Init /\ [][Next]_i
=============================================================================
