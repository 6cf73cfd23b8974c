#!/usr/bin/env python3
"""Writes derive/src/types.rs: Rust types that derive their conversions, each
with the abstract syntax (spec/Syntax.tla) of the layout that its attributes
stand for.  With the argument "gen", the types are those that the code generator
makes of layouts: writes derive/src/gen/types.rs, and the layouts.  The output
is committed; run this again only to change it."""
import json, os, random, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "gen" in sys.argv[1:]
R = random.Random(20261119 if GEN else 20261118)
EX = "https://ex.org/"
XSD = "http://www.w3.org/2001/XMLSchema#"
PRIMS = {"String": ("string", "string"), "i8": ("number", "byte"), "u16": ("number", "unsignedShort"),
         "i32": ("number", "int"), "i64": ("number", "long"), "u32": ("number", "unsignedInt"),
         "u8": ("number", "unsignedByte"), "i16": ("number", "short"), "u64": ("number", "unsignedLong"),
         "Id": ("id", None), "bool": ("boolean", "boolean"), "Unit": ("unit", None)}
RUST = {"Id": "rdf_types::Id", "Unit": "()"}
types, nin, consts, deps = {}, {p: 1 for p in PRIMS}, {p: set() for p in PRIMS}, {p: [] for p in PRIMS}
layouts = {}
for p, (k, dt) in PRIMS.items():
    layouts[p] = {"t": k, "id": "urn:t:" + p}
    if k in ("number", "boolean"):
        layouts[p]["datatype"] = XSD + dt
out = []


def chance(p):
    return R.random() * 100 < p


# What the next component must be, where a type is of the systematic part.
FORCE = {}


class Ctx:
    """How IRIs are written in a type: absolute, with a prefix, with a base."""

    def __init__(self):
        self.prefix = R.choice([None, ("ex", EX), ("ex", EX + "a/"), ("e", EX)])
        self.base = R.choice([None, None, EX, EX + "doc"])

    def iri(self, name):
        forms = [EX + name]
        if self.prefix and (EX + name).startswith(self.prefix[1]):
            forms += [self.prefix[0] + ":" + (EX + name)[len(self.prefix[1]):]] * 3
        if self.base:
            forms += [name] * 2
        return R.choice(forms)

    def attrs(self):
        a, l = [], {}
        if self.prefix:
            a.append(f'prefix("{self.prefix[0]}" = "{self.prefix[1]}")')
            l["prefixes"] = [list(self.prefix)]
        if self.base:
            a.append(f'base("{self.base}")')
            l["base"] = self.base
        return a, l


def pat(s):
    return {"k": "var", "v": s[2:], "t": ""} if s.startswith("_:") else {"k": "iri", "v": s, "t": ""}


def q(s):
    return json.dumps(s)


def quads_attr(qs):
    return "dataset(" + ", ".join("(" + ", ".join(q(x) for x in r) + ")" for r in qs) + ")"


def names_attr(k, ns):
    return f"{k}(" + ", ".join(q(n) for n in ns) + ")"


def var(v):
    return "_:" + v


class Def:
    def __init__(self, kind, name=None):
        self.kind, self.cx = kind, Ctx()
        self.name = name or f"T{len(types)}"
        self.consts, self.deps = set(), []
        self.n = 0

    def pred(self):
        self.n += 1
        if chance(8):
            return self.cx.iri(f"p{R.randrange(3)}")
        return self.cx.iri(f"{self.name}/p{self.n}")

    def const(self, name):
        self.consts.add(EX + name)
        return self.cx.iri(name)

    def graph(self, known):
        r = R.random()
        if r < 0.75:
            return None
        return self.const(f"g{R.randrange(2)}") if r < 0.92 or not known else var(R.choice(known))

    def bind(self, known, new):
        """Quads that bind the variables `new`, from those that are known."""
        out, known = [], list(known)
        for v in new:
            s = var(R.choice(known)) if known and not chance(6) else self.const(f"c{R.randrange(2)}")
            t = [s, self.pred(), var(v)]
            if chance(15):
                t = [var(v), t[1], s]
            g = self.graph(known)
            if g:
                t.append(g)
            out.append(t)
            known.append(v)
        if known and chance(18):
            t = [var(R.choice(known)), self.cx.iri(f"{self.name}/is"), self.cx.iri(f"c{R.randrange(3)}")]
            if chance(20):
                t.append(self.cx.iri(f"g{R.randrange(2)}"))
            out.append(t)
        return out

    def header(self):
        a, l = self.cx.attrs()
        self.inputs = R.choice([None] * 6 + [["self"], ["a"], ["self", "other"], ["x", "y"], ["other", "self"]])
        if self.kind == "unit" and chance(15):
            self.inputs = []
        if self.inputs is not None:
            a.append(names_attr("input", self.inputs))
            l["input"] = self.inputs
        known = self.inputs if self.inputs is not None else ["self"]
        self.intro = R.choice([[], [], [], [], ["i"], ["i", "j"], ["value"]])
        if not known:
            self.intro = []
        if self.intro:
            a.append(names_attr("intro", self.intro))
            l["intro"] = self.intro
        ds = self.bind(known, self.intro)
        if ds:
            a.append(quads_attr(ds))
            l["dataset"] = ds
        self.scope = list(known) + self.intro
        self.nin = len(known)
        return a, l

    def comp(self, ty, variant=False, extra=(), node=False):
        """Attributes and syntax of a component whose value is of type ty."""
        a, c = [], {}
        n = nin[ty]
        scope = self.scope + list(extra)
        plain = n == 1 and chance(55)
        bare = scope and not variant and not node and chance(12)
        if variant:
            if plain and "self" in scope:
                if chance(40):
                    ds = [[var("self"), self.pred(), self.cx.iri(f"c{R.randrange(3)}")]]
                    a.append(quads_attr(ds))
                    c["dataset"] = ds
                intro, inp = None, None
            else:
                intro = R.choice([[], ["v"], ["v", "w"]])
                if intro:
                    a.append(names_attr("intro", intro))
                    c["intro"] = intro
                ds = self.bind(self.scope, intro)
                if ds:
                    a.append(quads_attr(ds))
                    c["dataset"] = ds
                inp = True
        elif node:
            if plain:
                intro, inp = None, None
            else:
                intro = R.choice([["value"], ["v"], ["v", "w"]])
                if intro != ["value"]:
                    a.append(names_attr("intro", intro))
                    c["intro"] = intro
                h, r = extra
                ds = [[var(h), self.pred(), var(r)]]
                for v in intro:
                    ds.append([var(h), self.pred(), var(v)])
                    if chance(15):
                        ds[-1].append(self.const("g0"))
                a.append(quads_attr(ds))
                c["dataset"] = ds
                inp = True
        elif bare:
            # Nothing of its own: its value comes from what is in scope.
            intro, inp = [], True
            a.append("intro()")
            c["intro"] = []
            if chance(40):
                ds = [[var(R.choice(scope)), self.pred(), self.cx.iri(f"c{R.randrange(3)}")]]
                a.append(quads_attr(ds))
                c["dataset"] = ds
        else:
            if plain:
                intro, inp = None, None
                p = self.pred()
                if chance(80):
                    a.append(q(p))
                    c["property"] = p
                else:
                    ds = [[var(scope[0]), p, var("value")]]
                    if chance(40):
                        ds[0].append(self.const(f"g{R.randrange(2)}"))
                    a.append(quads_attr(ds))
                    c["dataset"] = ds
            else:
                intro = R.choice([["value"], ["v"], ["v", "w"], ["value", "w"], ["self"]])
                if intro != ["value"] or chance(30):
                    a.append(names_attr("intro", intro))
                    c["intro"] = intro
                rest = intro
                k = [x for x in scope if x not in intro]
                if self.nin and chance(40):
                    p = self.pred()
                    a.append(q(p))
                    c["property"] = p
                    k, rest = k + [intro[0]], intro[1:]
                ds = self.bind(k, rest)
                if ds:
                    a.append(quads_attr(ds))
                    c["dataset"] = ds
                inp = True
        full = scope + (intro or [])
        value = {"layout": {"k": "ref", "v": "urn:t:" + ty}}
        if inp:
            # At least one variable of the component itself, where there is one.
            pool = [v for v in full if node is False or v not in extra[1:]]
            xs = [var(intro[0])] if intro and n else []
            while len(xs) < n:
                xs.append(self.const(f"c{R.randrange(3)}") if chance(6) else var(R.choice(pool)))
            R.shuffle(xs)
            a.append(names_attr("input", xs))
            value["input"] = [pat(x) for x in xs]
        g = R.choice(["", "", "", "", "", "", "_", "None", "c", "v"])
        g = FORCE.get("graph", g)
        if g == "_":
            a.append("graph(_)")
        elif g == "None":
            a.append("graph(None)")
            value["graph"] = {"k": "none", "v": "", "t": ""}
        elif g:
            x = self.const(f"g{R.randrange(2)}") if g == "c" else var(R.choice(full))
            a.append(f"graph(Some({q(x)}))")
            value["graph"] = pat(x)
        if "dataset" in c:
            c["dataset"] = [[pat(x) for x in t] for t in c["dataset"]]
        if "property" in c:
            c["property"] = pat(c["property"])
        c["value"] = value
        R.shuffle(a)
        self.deps.append(ty)
        if not a:
            return "", c
        if len(a) > 1 and chance(30):
            return f"#[tldr({a[0]})] #[tldr({', '.join(a[1:])})] ", c
        return f"#[tldr({', '.join(a)})] ", c

    def done(self, kind_attr, attrs, lay, body, model, derive_extra=""):
        if "dataset" in lay:
            lay["dataset"] = [[pat(x) for x in t] for t in lay["dataset"]]
        lay["t"], lay["id"] = self.kind, "urn:t:" + self.name
        R.shuffle(attrs)
        # The prefixes of a type hold for all of its attributes, wherever they are.
        attrs = ([kind_attr] if kind_attr else []) + attrs
        if chance(50):
            R.shuffle(attrs)
        if len(attrs) > 1 and chance(40):
            head = f"#[tldr({attrs[0]})]\n#[tldr({', '.join(attrs[1:])})]\n"
        else:
            head = f"#[tldr({', '.join(attrs)})]\n" if attrs else ""
        if GEN:
            types[self.name] = self
            generated(self.name, lay)
            out.append(model + "\n")
        else:
            out.append(f"#[derive(SerializeLd, DeserializeLd)]\n{head}{body}\n{derive_extra}{model}\n")
        types[self.name] = self
        nin[self.name], layouts[self.name] = self.nin, lay
        consts[self.name], deps[self.name] = self.consts, self.deps
        return self.name


# The layouts to generate, in files, by module.
files = {"root": [], "a": [], "b": [], "inc": []}


def lid(name):
    """The IRI of a layout, by what the generator names types after."""
    t = {"root": "https://gen.org/", "a": "https://gen.org/a/x#", "b": "https://b.org/", "inc": "https://inc.org/x/"}
    return "https://treeldr.org/prelude#" + {"Id": "id", "String": "string", "bool": "boolean", "Unit": "unit"}.get(name, name) \
        if name in PRIMS else t[module[name]] + ("t_" if len(name) % 2 else "T") + name[1:]


module = {}


def generated(name, l):
    """Writes the layout in the layout language."""
    # Module a refers to root by no prefix.
    module[name] = R.choice(["root", "b", "inc"] if any(module.get(t) == "root" for t in types[name].deps) else ["root", "a", "b", "inc"])

    def p(x):
        return "_:" + x["v"] if x["k"] == "var" else x["v"]

    def comp(c, variant=False):
        o = {k: c[k] for k in ("intro", "head", "rest") if k in c}
        if "dataset" in c:
            o["dataset"] = [[p(x) for x in t] for t in c["dataset"]]
        if "property" in c:
            o["property"] = p(c["property"])
        v = c["value"]
        o["value"] = {"layout": lid(v["layout"]["v"][6:])}
        if "input" in v:
            o["value"]["input"] = [p(x) for x in v["input"]]
        if "graph" in v:
            o["value"]["graph"] = None if v["graph"]["k"] == "none" else p(v["graph"])
        if c.get("required"):
            o["required"] = True
        return o

    o = {"type": l["t"], "id": lid(name)}
    o.update({k: l[k] for k in ("input", "intro", "datatype", "base") if k in l})
    if "prefixes" in l:
        o["prefixes"] = dict(l["prefixes"])
    if "dataset" in l:
        o["dataset"] = [[p(x) for x in t] for t in l["dataset"]]
    for k in ("head", "tail", "resource"):
        if k in l:
            o[k] = p(l[k])
    for k in ("fields", "variants"):
        if k in l:
            o[k] = {c["name"]: comp(c) for c in l[k]}
    for k in ("item", "node"):
        if k in l:
            o[k] = comp(l[k])
    if "items" in l:
        o["items"] = [comp(c) for c in l["items"]]
    f = f"layouts/{name}.json"
    os.makedirs(os.path.join(HERE, "derive/layouts"), exist_ok=True)
    json.dump(o, open(os.path.join(HERE, "derive", f), "w"), indent=1)
    files[module[name]].append(f)


def resource(d, a, l):
    if (d.scope[0] != "self" and d.nin == 0) or chance(35):
        x = var(R.choice(d.scope))
        a.append(f"resource({q(x)})")
        l["resource"] = pat(x)


def literal(kind, inner, datatype=None):
    d = Def(kind)
    a, l = d.header()
    if kind != "unit":
        resource(d, a, l)
    if datatype:
        w = datatype
        if datatype.startswith(XSD) and not any("prefix(" in x for x in a) and chance(50):
            a.append(f'prefix("xsd" = "{XSD}")')
            l["prefixes"] = [["xsd", XSD]]
            w = "xsd:" + datatype[len(XSD):]
        elif datatype.startswith(EX):
            w = d.cx.iri(datatype[len(EX):])
        a.append(f"datatype({q(w)})")
        l["datatype"] = w
    if kind == "unit":
        return d.done("unit" if chance(30) else "", a, l, f"pub struct {d.name};",
                      f"impl Model for {d.name} {{\n\tfn arb(_: &mut Rng) -> Val {{ Val::unit() }}\n"
                      f"\tfn make(_: &Val) -> Self {{ Self }}\n\tfn show(&self) -> Val {{ Val::unit() }}\n}}")
    ex = ""
    if kind == "id":
        ex = (f"impl treeldr::AsId for {d.name} {{\n\tfn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> "
              f"{{ self.0.as_lexical_id_ref() }}\n}}\n")
    t = RUST.get(inner, inner)
    return d.done({"id": "id", "bytes": "bytes", "string": "string", "boolean": "boolean", "number": "number"}[kind],
                  a, l, f"pub struct {d.name}({t});",
                  f"impl Model for {d.name} {{\n\tfn arb(r: &mut Rng) -> Val {{ <{t}>::arb(r) }}\n"
                  f"\tfn make(v: &Val) -> Self {{ Self(<{t}>::make(v)) }}\n\tfn show(&self) -> Val {{ self.0.show() }}\n}}", ex)


def depth(t):
    return 1 + max([depth(u) for u in deps[t]] + [0])


def pool():
    if "type" in FORCE:
        return FORCE["type"]
    ts = [t for t in types if depth(t) < 4]
    prims = ["String", "i32", "Id", "u16", "i8", "i64", "bool", "Unit"]
    return R.choice(prims) if not ts or chance(45) else R.choice(ts[-14:] if chance(60) else ts)


def rt(t):
    return RUST.get(t, t)


def record(n=None):
    d = Def("record")
    a, l = d.header()
    fs, lf, arb, mk, sh = [], [], [], [], []
    for i in range(R.choice([0, 1, 1, 2, 2, 3, 4]) if n is None else n):
        name = ["foo", "bar", "baz", "qux", "a"][i] if chance(80) else f"zz{i}"
        ty = pool()
        at, c = d.comp(ty)
        opt = chance(45)
        c["name"], c["required"] = name, not opt
        lf.append(c)
        fs.append(f"\t{at}pub {name}: " + (f"Option<{rt(ty)}>" if opt else rt(ty)) + ",")
        arb.append((f"if r.chance(60) {{ " if opt else "") + f"m.push(({q(name)}.to_string(), <{rt(ty)}>::arb(r)));" + (" }" if opt else ""))
        mk.append(f"{name}: field(v, {q(name)}).map(|v| <{rt(ty)}>::make(v))" + ("" if opt else ".unwrap()"))
        sh.append(f"if let Some(x) = &self.{name} {{ m.push(({q(name)}.to_string(), x.show())); }}" if opt else
                  f"m.push(({q(name)}.to_string(), self.{name}.show()));")
    l["fields"] = lf
    return d.done("record" if chance(30) else "", a, l, f"pub struct {d.name} {{\n" + "\n".join(fs) + "\n}",
                  f"impl Model for {d.name} {{\n\tfn arb(r: &mut Rng) -> Val {{\n\t\tlet _ = &r;\n\t\tlet mut m = Vec::new();\n\t\t"
                  + "\n\t\t".join(arb + ["Val::map(m)"]) + "\n\t}\n\tfn make(v: &Val) -> Self {\n\t\tlet _ = v;\n\t\tSelf { "
                  + ", ".join(mk) + " }\n\t}\n\tfn show(&self) -> Val {\n\t\tlet mut m = Vec::new();\n\t\t"
                  + "\n\t\t".join(sh + ["Val::map(m)"]) + "\n\t}\n}")


def sum_():
    d = Def("sum")
    a, l = d.header()
    vs, lv, arb, mk, sh = [], [], [], [], []
    k = R.choice([1, 2, 2, 3, 4])
    for i in range(k):
        name = ["Foo", "Bar", "Baz", "Qux"][i] if chance(80) else f"A{i}"
        ty = pool()
        at, c = d.comp(ty, variant=True)
        c["name"] = name
        lv.append(c)
        vs.append(f"\t{at}{name}({rt(ty)}),")
        arb.append(f"{i} => variant({q(name)}, <{rt(ty)}>::arb(r)),")
        mk.append(f"{q(name)} => Self::{name}(<{rt(ty)}>::make(&v.c[0])),")
        sh.append(f"Self::{name}(x) => variant({q(name)}, x.show()),")
    l["variants"] = sorted(lv, key=lambda c: c["name"])
    return d.done("sum" if chance(30) else "", a, l, f"pub enum {d.name} {{\n" + "\n".join(vs) + "\n}",
                  f"impl Model for {d.name} {{\n\tfn arb(r: &mut Rng) -> Val {{\n\t\tmatch r.below({k}) {{ "
                  + " ".join(arb) + " _ => unreachable!() }\n\t}\n\tfn make(v: &Val) -> Self {\n\t\tmatch v.s.as_str() { "
                  + " ".join(mk) + " _ => unreachable!() }\n\t}\n\tfn show(&self) -> Val {\n\t\tmatch self { "
                  + " ".join(sh) + " }\n\t}\n}")


def seq(kind):
    d = Def(kind)
    a, l = d.header()
    ty = pool()
    if kind == "list":
        h, r = "head", "rest"
        at2 = []
        if chance(30):
            h = R.choice(["h", "self", "node"])
            at2.append(f"head({q(h)})")
        if chance(30):
            r = R.choice(["r", "next", "other"])
            at2.append(f"rest({q(r)})")
        # The scope of a node: shadowed names are those of the node.
        at, c = d.comp(ty, extra=(h, r), node=True)
        if at2:
            at = "#[tldr(" + ", ".join(at2) + ")] " + at
            if "head(" in at2[0]:
                c["head"] = h
            if any("rest(" in x for x in at2):
                c["rest"] = r
        if d.scope[0] != "self" or chance(25):
            if not any(v == "self" for v in d.scope) or chance(50):
                x = var(R.choice(d.scope))
                a.append(f"head({q(x)})")
                l["head"] = pat(x)
        if chance(25):
            x = d.const("nil")
            a.append(f"tail({q(x)})")
            l["tail"] = pat(x)
        l["node"] = c
    else:
        at, c = d.comp(ty)
        l["item"] = c
    return d.done(kind, a, l, f"pub struct {d.name}({at}Vec<{rt(ty)}>);",
                  f"impl Model for {d.name} {{\n\tfn arb(r: &mut Rng) -> Val {{ let n = len(r); Val::list((0..n).map(|_| <{rt(ty)}>::arb(r)).collect()) }}\n"
                  f"\tfn make(v: &Val) -> Self {{ Self(v.c.iter().map(|v| <{rt(ty)}>::make(v)).collect()) }}\n"
                  f"\tfn show(&self) -> Val {{ Val::list(self.0.iter().map(|x| x.show()).collect()) }}\n}}")


def tuple_():
    d = Def("tuple")
    a, l = d.header()
    its, li, tys = [], [], []
    for _ in range(R.choice([1, 1, 2, 2, 3])):
        ty = pool()
        at, c = d.comp(ty)
        li.append(c)
        tys.append(rt(ty))
        its.append(at + rt(ty))
    l["items"] = li
    return d.done("tuple" if chance(30) else "", a, l, f"pub struct {d.name}({', '.join(its)});",
                  f"impl Model for {d.name} {{\n\tfn arb(r: &mut Rng) -> Val {{ Val::list(vec![{', '.join(f'<{t}>::arb(r)' for t in tys)}]) }}\n"
                  f"\tfn make(v: &Val) -> Self {{ Self({', '.join(f'<{t}>::make(&v.c[{i}])' for i, t in enumerate(tys))}) }}\n"
                  f"\tfn show(&self) -> Val {{ Val::list(vec![{', '.join(f'self.{i}.show()' for i in range(len(tys)))}]) }}\n}}")


for _ in range(2):
    literal("id", "Id"), literal("unit", None), literal("boolean", "bool"), literal("boolean", "bool", XSD + "boolean")
    literal("string", "String"), literal("string", "String", EX + "dt")
    if not GEN:
        literal("bytes", "Hex", XSD + "hexBinary")
    for p in R.sample(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"], 3):
        literal("number", p, XSD + PRIMS[p][1])
for _ in range(10):
    record(), sum_(), seq("set"), seq("list"), tuple_()
    if chance(50):
        R.choice([record, sum_, tuple_])()

# Each kind of component, with each way to give the graph of its value, where
# the value has quads of its own.
FORCE = {"graph": "", "type": "String"}
inner = [record(1), record(2), seq("set"), seq("list")]
for t in inner:
    for g in ["", "_", "None", "c", "v"]:
        FORCE = {"graph": g, "type": t}
        for f in R.sample([lambda: record(1), sum_, lambda: seq("set"), lambda: seq("list"), tuple_], 5 if t == inner[0] else 2):
            f()
# Again, inside of another graph.
ms = list(types)[-25:]
for g in ["c", "v", "c"]:
    for f in [lambda: record(2), sum_, lambda: seq("set"), lambda: seq("list"), tuple_]:
        FORCE = {"graph": g, "type": R.choice(ms)}
        f()
FORCE = {}


def all_iris(l):
    ps, base = dict(l.get("prefixes", [])), l.get("base")

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "iri":
                v = x["v"]
                s = v.split(":")[0]
                yield ps[s] + v[len(s) + 1:] if ":" in v and s in ps else v if ":" in v else EX + v
            for y in x.values():
                yield from walk(y)
        elif isinstance(x, list):
            for y in x:
                yield from walk(y)
    return set(walk(l))


entries = []
for name in list(types) + list(PRIMS):
    todo, seen = [name], []
    while todo:
        t = todo.pop(0)
        if t not in seen:
            seen.append(t)
            todo += deps[t]
    cs = sorted(set().union(*(consts[t] for t in seen)))
    iris = sorted(set().union(*(all_iris(layouts[t]) for t in seen)))
    entries.append(f"\tEntry {{ name: {q(name)}, nin: {nin[name]}, layouts: &{q([])[:0]}["
                   + ", ".join(q(t) for t in seen) + f"], consts: &[{', '.join(q(c) for c in cs)}], iris: &[{', '.join(q(c) for c in iris)}], "
                   f"arb: <{rt(name)}>::arb, ser: ser::<{rt(name)}, {nin[name]}>, de: de::<{rt(name)}, {nin[name]}> }},")
defs = [f"\t({q(n)}, r##\"{json.dumps(l)}\"##)," for n, l in layouts.items()]
head = "// Written by tools/derive_gen.py.\n#![allow(dead_code, unused_mut, clippy::all)]\nuse super::*;\n\n"
if GEN:
    use = {"root": ("https://gen.org/", "root"), "a": ("https://gen.org/a/", "a"), "b": ("https://b.org/", "b"),
           "inc": ("https://inc.org/", "inc as included")}
    for m, us in {"root": ["a", "b", "inc"], "a": ["b", "inc"], "b": ["a", "root", "inc"]}.items():
        head += (f"#[treeldr::tldr({', '.join(map(q, files[m]))})]\npub mod {m} {{\n"
                 + "".join(f"\t#[tldr({q(use[u][0])})]\n\tuse super::{use[u][1]};\n" for u in us) + f"}}\npub use {m}::*;\n\n")
    # References to other modules have no prefix there.
    head += f"pub mod inc {{\n\tuse super::*;\n\ttreeldr::tldr_include!({', '.join(map(q, files['inc']))});\n}}\npub use inc::*;\n\n"
open(os.path.join(HERE, "derive/src/gen/types.rs" if GEN else "derive/src/types.rs"), "w").write(
    head + "\n".join(out)
    + "\npub const LAYOUTS: &[(&str, &str)] = &[\n" + "\n".join(defs) + "\n];\n\npub const ENTRIES: &[Entry] = &[\n"
    + "\n".join(entries) + "\n];\n")
print(len(types), "types")
