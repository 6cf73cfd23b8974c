"""What decides each property.

suites: (harness, suite, (number of cases in the quick tier, in the thorough tier))
models: (module, (quick configuration, thorough configuration))
enum:   (harness, module, (quick configuration, thorough configuration)): behaviours
        that TLC enumerates from the specification, to be replayed in the code;
        a configuration may be the constants to give the module
tool:   the command line tool that is run (the variable that says where it is, package, binary)
only:   the verdicts that concern the property (a regular expression)
"""
H = "harness"


def S(suite, quick, thorough):
    return (H, suite, (quick, thorough))


def E(what, kind, quick, thorough=1):
    """A small universe, of which one case in `quick`, or `thorough`, is run."""
    return (H, "EnumDistill", tuple(n and {"What": what, "Kind": kind, "Every": n} for n in (quick, thorough)))


DISTILL = [("MCDistill", ("MCDistill.cfg", "MCDistill2.cfg"))]
PLAN = {
    "C01": {"suites": [S("rt", 6000, 40000)], "models": DISTILL, "enum": [E("rt", "1", 1), E("rt", "2", 23)]},
    "C02": {"suites": [S("hyd", 7000, 40000), S("hyd.walk", 2500, 25000)], "models": DISTILL, "enum": [E("hyd", "record", 11)]},
    "C03": {"suites": [S("deh", 7000, 40000)], "models": DISTILL, "enum": [E("deh", "record", 2)]},
    "C04": {"suites": [S("match", 6000, 60000)],
            "models": [("MCMatch", ("MCMatch.cfg", "MCMatch2.cfg"))],
            "enum": [(H, "EnumMatch", ("EnumMatch1.cfg", "EnumMatch1t.cfg")),
                     (H, "EnumMatch", (None, "EnumMatch2.cfg"))]},
    "C05": {"suites": [S("hyd.sum", 3000, 15000), S("deh.sum", 2500, 10000), S("rt.sum", 1500, 6000)],
            "enum": [E("hyd", "sum", 33), E("deh", "sum", 3)]},
    "C06": {"suites": [S("hyd.list", 3000, 15000), S("deh.list", 2500, 10000), S("rt.list", 1500, 6000)],
            "enum": [E("hyd", "list", 71), E("hyd", "tuple", 47), E("hyd", "set", 11), E("deh", "list", 11), E("deh", "tuple", 23), E("deh", "set", 3)]},
    "C07": {"suites": [S("hyd.graph", 3000, 15000), S("deh.graph", 4000, 10000), S("rt.graph", 1500, 6000)],
            "enum": [E("hyd", "graph", 17), E("deh", "graph", 1)]},
    "C08": {"suites": [S("hyd.lit", 3500, 15000), S("deh.lit", 2500, 10000), S("rt.lit", 2000, 6000)]},
    "C09": {"suites": [S("hyd", 3000, 40000), S("hyd.walk", 1500, 20000), S("deh.walk", 2000, 20000), S("deh", 3000, 40000), S("build", 2000, 20000)],
            "only": r"panic|crash|hang"},
    "C10": {"suites": [S("build", 4000, 40000)]},
    "C11": {"suites": [S("hist", 1500, 15000), S("regs", 1500, 10000)],
            "models": [("MCBuilder", ("MCBuilder.cfg", "MCBuilder2.cfg"))],
            "enum": [(H, "MCBuilder", ("EnumBuilder.cfg", "EnumBuilder2.cfg"))]},
    "C12": {"suites": [S("front", 4000, 40000), S("loc", 2000, 20000)],
            # Where a fault is, and what is printed of it, is C20.
            "only": r"^(?!wrong place|no such fault|tool)"},
    "C13": {"suites": [S("json", 5000, 60000), S("num", 3000, 60000)]},
    "C14": {"suites": [S("cbor", 3000, 30000), S("json", 1500, 15000)]},
    "C15": {"suites": [S("regexp", 6000, 60000)],
            "models": [("MCRegular", ("MCRegular.cfg", "MCRegular2.cfg"))]},
}
PLAN["C16"] = {"suites": [("derive", "ders", (5000, 40000)), ("derive", "derd", (5000, 40000))]}
PLAN["C19"] = {"suites": [("gen", "gen", (4000, 40000)), ("gen", "gens", (3000, 30000)), ("gen", "gend", (3000, 30000)), ("gen", "genc", (1500, 15000))],
               "tool": ("TLDR_RS_BIN", "treeldr-gen-rust", "main")}
PLAN["C17"] = {"suites": [S("cli", 5000, 40000)], "tool": ("TLDR_BIN", "tldr", "tldr")}
PLAN["C20"] = {"suites": [S("loc", 5000, 60000)], "tool": ("TLDR_BIN", "tldr", "tldr")}
PLAN["C18"] = {"suites": [S("hyi", 3500, 30000), S("dei", 2500, 20000), S("opt", 1500, 15000)]}
for p in PLAN.values():
    p.setdefault("level", "model_checking")
    p.setdefault("suites", [])
