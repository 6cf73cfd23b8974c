------------------------------- MODULE Debug -------------------------------
(* Prints what the specification says about one case (development aid).    *)
EXTENDS Verdicts, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i
C == Cases[1]
B == BuildAll(C.layouts)
D == LET b == B
         ps == AllPairs(b, C)
         Rr == RealReg(C)
     IN /\ PrintT(<<"verdict", Verdict(C)>>)
        /\ PrintT(<<"build", b.e>>)
        /\ PrintT(<<"badpairs", {p \in ps : ~IsIdPair(p) \/ (p[1] \in DOMAIN b.reg) # (p[2] \in DOMAIN Rr)}>>)
        /\ PrintT(<<"badlay", {<<p, b.reg[p[1]], Rr[p[2]]>> : p \in {p \in ps : p[1] \in DOMAIN b.reg /\ p[2] \in DOMAIN Rr /\ ~SameLayout(b.reg[p[1]], Rr[p[2]], ps)}}>>)
        /\ PrintT(<<"uncovered", DOMAIN b.reg \ {p[1] : p \in ps}, DOMAIN Rr \ {p[2] : p \in ps}>>)
        /\ (C.op = "hyd" => PrintT(<<"hyd", Hydrate(b.reg, SpecData(C.dataset), C.graph, b.refs[1], C.inputs), "real", C.hy>>))
        /\ (C.op = "deh" => PrintT(<<"deh", Dehydrate(b.reg, Norm(C.value), NoGraph, b.refs[1], InputCount(b.reg, b.refs[1])), "real", C.de>>))
Init == i = 0 /\ D
Next == UNCHANGED i
=============================================================================
