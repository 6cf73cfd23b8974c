#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN

L = "layouts/src/"
TECH = "TLA+ specification checked with TLC; recorded executions of the real code validated against it (trace validation)"
TRUST = ("TLC, the projection of real values/datasets/layouts into the trace (harness/src/proj.rs) and the third-party RDF, "
         "number and JSON crates are trusted.")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=(), technique=TECH):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                observe_at=observe, hook_needed=None)),
              technique, note))


prop("C01", "Serialization round trip: a tree read into RDF comes back unchanged",
     "A tree value that a layout can represent, turned into an RDF dataset with that layout and read back from this "
     "dataset with the same layout and the returned input resources, is the same value (sets compared without order or repetition).",
     ["inputs", "configurations"],
     "every registry of layouts (all kinds, nested, recursive, named graphs, literals as patterns) and every value the layouts represent without loss",
     "The fixture tests run nine hand-written layout/value pairs; the guarantee quantifies over every layout and every value, and breaks on combinations (a sum in an ordered list in a named graph...).",
     [L + "distill/de/mod.rs", L + "distill/hy/mod.rs", L + "distill/de/data.rs", L + "distill/hy/data.rs"],
     [("dehydration and hydration interpret the same layout definition", L + "distill"), ("fresh resources for introduced variables", L + "distill/de/mod.rs")],
     ["treeldr_layouts::dehydrate", "treeldr_layouts::hydrate"],
     "Every generated layout/value pair whose specified round trip is lossless must survive the real one. Bounded random "
     "layouts (depth ≤ 4) and values. " + TRUST)

prop("C02", "Hydration returns exactly the tree a dataset denotes, or the right error",
     "Reading a tree from a dataset at given resources returns exactly the value and the layout annotations that the layout denotes "
     "for the matching data; when data is missing, ambiguous, of the wrong datatype, or the layout or the number of resources is wrong, "
     "an error that names one of these actual causes is returned and never a partial value.",
     ["inputs", "configurations"],
     "every layout registry, dataset (extra, missing, duplicated, conflicting quads), current graph and list of inputs",
     "The tests hydrate nine fixtures, all well formed; nothing exercises incomplete, ambiguous or foreign data.",
     [L + "distill/hy/mod.rs", L + "distill/hy/data.rs", L + "matching.rs"],
     [("dataset pattern must match exactly once", L + "matching.rs"), ("literal parsing by datatype", L + "distill/hy/data.rs")],
     ["treeldr_layouts::hydrate", "distill::hy::hydrate_with"],
     "Each recorded hydration must be the one the specification computes (errors: one of the errors actually present). Datasets are "
     "produced by dehydration and then mutated, or arbitrary. " + TRUST)

prop("C03", "Dehydration writes exactly the quads the layout prescribes",
     "Turning a value into RDF yields exactly the quads prescribed by the layout for that value, with a distinct new blank node for each introduced "
     "resource of each occurrence and literals in their datatype's lexical space; a value that does not fit the layout is reported "
     "as an error, with nothing invented in its place.",
     ["inputs", "configurations"],
     "every layout registry and every value, fitting or not",
     "The fixtures compare nine outputs; capture between fresh resources, leftover quads of abandoned alternatives or invented literals only show on other layouts.",
     [L + "distill/de/mod.rs", L + "distill/de/data.rs"],
     [("environment of variables", L + "distill/de/mod.rs"), ("fresh resource generation", L + "distill/de/mod.rs")],
     ["treeldr_layouts::dehydrate"],
     "The real dataset must be isomorphic to the specified one (inputs fixed). " + TRUST)

prop("C04", "Pattern matching finds every match, exactly once, and nothing else",
     "Matching a list of quad patterns in a dataset enumerates exactly the substitutions that extend the given one and turn every pattern into a quad of the dataset, "
     "each of them once, whatever the order of the patterns and of the quads; asking for a unique match returns it only when there is "
     "exactly one, and otherwise tells no match from several. A graph variable ranges over named graphs only and a pattern without a graph over the default graph only.",
     ["inputs"],
     "every dataset, list of patterns (repeated variables, variables in predicate and graph position) and initial substitution",
     "No test calls the matching engine; the fixtures go through it with one shape of pattern.",
     [L + "matching.rs", L + "pattern.rs", "generators/rust/treeldr-rs/src/de/matching.rs", "generators/rust/treeldr-rs/src/pattern.rs"],
     [("backtracking stack of partial matchings", L + "matching.rs"), ("extension of a substitution by a quad", L + "pattern.rs")],
     ["treeldr_layouts::Matching", "treeldr::de::Matching"],
     "spec/MCMatch.tla: the stack machine is model checked against the declarative meaning (all problems of a small universe); EnumMatch: TLC enumerates "
     "all the problems of a small universe, which run in both engines; random ones on top. " + TRUST,
     state=[("stack", "partial matchings still to be extended", L + "matching.rs")])

prop("C05", "Sums: exactly one variant decides, and leaves no trace of the others",
     "A value or a resource described by several alternatives is read and written through the one alternative that fits it, whatever the order "
     "and position of the alternatives, and when none or several fit an error is returned; alternatives that were tried and do not fit leave no quad, resource or binding behind.",
     ["inputs", "configurations"],
     "every sum layout (overlapping, nested, with their own resources and patterns), every value and dataset",
     "Two fixtures contain a sum whose first alternative fits.",
     [L + "distill/de/mod.rs", L + "distill/hy/mod.rs", L + "layout/sum.rs"],
     [("variant selection", L + "distill/hy/mod.rs"), ("staging of a variant's quads", L + "distill/de/mod.rs")],
     ["treeldr_layouts::dehydrate", "treeldr_layouts::hydrate"],
     "As C01-C03, on layouts where most nodes are sums with overlapping variants. " + TRUST)

prop("C06", "Lists: order, length and membership survive in both directions",
     "Ordered lists are written as a chain from the head to the tail and read back in chain order, fixed-size lists item by item with exactly their number of items, and unordered "
     "ones as the set of all matching items; a list that is cut, branching, cyclic or of another length is an error.",
     ["inputs", "configurations"],
     "every ordered, fixed-size and unordered list layout with any head, tail, node and item description, any list value and any dataset",
     "Three fixtures with two or three items; no cut, cyclic, branching, empty or nested list.",
     [L + "distill/de/mod.rs", L + "distill/hy/mod.rs", L + "layout/list/ordered.rs", L + "layout/list/sized.rs", L + "layout/list/unordered.rs"],
     [("chain traversal", L + "distill/hy/mod.rs"), ("chain construction", L + "distill/de/mod.rs")],
     ["treeldr_layouts::dehydrate", "treeldr_layouts::hydrate"],
     "As C01-C03, on layouts where most nodes are lists. " + TRUST)

prop("C07", "Named graphs: every quad is read from and written to the right graph",
     "A quad without a graph belongs to the current graph, a sub-value is read and written in the graph its description designates (fixed, "
     "variable, explicitly the default graph or inherited), and data in any other graph neither satisfies a description nor is mixed into the result.",
     ["inputs", "configurations"],
     "every layout whose descriptions name graphs, at any nesting, any current graph, and datasets spread over several graphs",
     "No fixture uses a named graph.",
     [L + "distill/de/mod.rs", L + "distill/hy/mod.rs", L + "graph.rs", L + "matching.rs"],
     [("graph of a value description", L + "layout/mod.rs"), ("current graph in matching", L + "matching.rs")],
     ["treeldr_layouts::dehydrate", "distill::hy::hydrate_with"],
     "As C01-C03, with graphs everywhere. " + TRUST)

prop("C08", "Literals and identifiers keep their value and their datatype",
     "Booleans, numbers, strings, byte strings and identifiers are written as a literal of the declared datatype (or an IRI) denoting the same value, "
     "and read back only from a resource having exactly one such representation; a value outside the datatype, or a literal of another datatype or lexically invalid, is an error.",
     ["inputs", "configurations"],
     "every literal layout with any datatype and target resource, every value, every (also ill-typed or ambiguous) literal in the data",
     "Fixtures use a handful of strings and one number.",
     [L + "distill/de/data.rs", L + "distill/hy/data.rs", L + "value/mod.rs", L + "layout/literal"],
     [("lexical forms per datatype", L + "distill/de/data.rs"), ("number model", L + "value/mod.rs")],
     ["treeldr_layouts::dehydrate", "treeldr_layouts::hydrate"],
     "As C01-C03, on literal layouts with signed, decimal, boundary, byte and ill-typed values. " + TRUST)

prop("C09", "Every input is answered: no panic, no hang, no runaway recursion",
     "Compiling any layout text, reading any dataset and writing any value ends with a result or an error; the process never "
     "panics, aborts, overflows its stack or loops, whatever cyclic, contradictory or ill-typed data it is given.",
     ["inputs", "configurations"],
     "every layout registry, value and dataset, including cyclic data with recursive layouts",
     "Tests only run well-formed fixtures.",
     [L + "distill/de/mod.rs", L + "distill/hy/mod.rs", L + "abs/syntax/build.rs", L + "matching.rs"],
     [("cycle detection", L + "distill/hy/mod.rs"), ("error results in place of unwrap", L + "distill")],
     ["treeldr_layouts::dehydrate", "treeldr_layouts::hydrate", "abs::syntax::Layout::build"],
     "Each call runs in a process with overflow checks, a stack and memory limit and a watchdog; the specification is total, so every call must end in a specified outcome. " + TRUST)

prop("C10", "Layout language: a definition compiles to exactly the layout it denotes",
     "A layout definition, in any of the equivalent notations of the layout language, compiles to exactly the layout it denotes: "
     "scoping and numbering of variables, resolution of IRIs and prefixes, property shorthands, default datatypes, list "
     "descriptions and shared sub-layouts; a definition that breaks a rule is refused with an error naming a broken rule. A compiled layout announces "
     "exactly the inputs and layouts it uses, and is the same layout when it is serialized and read back.",
     ["programs"],
     "every layout definition, well formed or not, in either JSON front end",
     "Unit tests compile eight hand-written examples, all valid.",
     [L + "abs/syntax/build.rs", L + "abs/syntax/mod.rs", L + "abs/mod.rs"],
     [("scopes of variables", L + "abs/syntax/build.rs"), ("layout registry builder", L + "abs/mod.rs")],
     ["abs::syntax::Layout::build", "Layouts"],
     "The compiled registry must equal the specified one up to the names of anonymous layouts. " + TRUST)

prop("C11", "Layout collections: definitions are never lost, overwritten or mixed up",
     "Compiling layouts one after the other into a collection only adds the definitions of the newly compiled layout: no definition already there is changed or lost, also when "
     "a later compilation fails; defining an identifier again is refused; anonymous layouts always get identifiers of their own; and combining "
     "collections (with the prelude, by precedence or union) finds for each identifier the definition of the collection that takes precedence.",
     ["histories", "inputs"],
     "every history of successful and failing compilations, with shared or separate identifier generators or through an interpretation, and every combination of registries",
     "Tests compile one definition into a new builder.",
     [L + "abs/mod.rs", L + "abs/syntax/build.rs", L + "lib.rs", L + "preset.rs"],
     [("builder insertion", L + "abs/mod.rs"), ("fresh identifiers for anonymous layouts", L + "abs/syntax/build.rs"), ("registry combinators", L + "lib.rs")],
     ["abs::Builder", "abs::syntax::Layout::build", "LayoutRegistry", "Prelude"],
     "Each step of a recorded history must be a transition of the specified builder. " + TRUST,
     state=[("registry", "the definitions built so far", L + "abs/mod.rs")])

prop("C12", "Layout texts mean the same to every parser, also when written again",
     "A layout text is read as the same layout by both JSON front ends, or refused by both (unknown or missing entries, entries of the wrong "
     "type, malformed patterns); and writing a parsed layout as JSON and reading that text again, with either front end, gives the same layout.",
     ["programs"],
     "every layout text of the layout language in any of its shorthand notations, and texts with one entry made wrong anywhere",
     "The tests parse a few examples with one front end each and never compare them or write a layout.",
     [L + "abs/syntax/mod.rs", L + "abs/syntax/pattern", L + "abs/syntax/dataset.rs"],
     [("tracked JSON parser", L + "abs/syntax/mod.rs"), ("serde data model", L + "abs/syntax/layout/mod.rs")],
     ["abs::syntax::Layout as serde::Deserialize", "abs::syntax::Layout as TryFromJson", "abs::syntax::Layout as serde::Serialize"],
     "Whatever the path from the text to the compiled layout (two parsers, and both again on the rewritten text), the compiled registry must be the specified one. " + TRUST)

prop("C13", "JSON: tree values keep their exact content through every JSON path",
     "Every JSON document, read by any of the JSON front ends, denotes the same tree value with the exact numbers it writes (the last entry winning for a repeated "
     "key); every tree value within JSON's data model is written as the document denoting exactly that value, and one outside of it (byte strings, keys that are not strings, "
     "numbers without finite decimal expansion) is refused with the matching error instead of being altered. Numbers are exact: parsed, compared, converted "
     "from and to integers, floats and decimals without being taken for another number.",
     ["inputs"],
     "every JSON document (nesting, escapes, signs, fractions, exponents, very large and very small numerals) and every tree value",
     "The only test checks nine fractions; numbers are unbounded, and values nest.",
     [L + "value/mod.rs", L + "value/de.rs", L + "value/ser.rs"],
     [("exact rational numbers", L + "value/mod.rs"), ("conversions from and to JSON", L + "value/mod.rs")],
     ["Value::from(json_syntax::Value)", "Value::try_from_json", "Value::from(serde_json::Value)", "serde", "Display"],
     "Numerals are compared as exact decimals; paths through binary floating point only where it is exact. " + TRUST)

prop("C14", "CBOR: values and the tags their layouts ask for",
     "A tree value converted to CBOR denotes exactly that value (integers of any size, byte strings, nested maps and lists), a typed value carries on each node "
     "the tag its layout asks for, outermost first, and nothing else differs from the untyped conversion; an invalid tag is reported; what is encoded "
     "can be decoded, and plain values come back unchanged.",
     ["inputs", "configurations"],
     "every tree value, and every value hydrated with layouts that carry valid, invalid or no tags",
     "One test tags one string.",
     [L + "value/cbor/mod.rs", L + "value/cbor/serde_cbor.rs", L + "value/ser.rs", L + "value/de.rs"],
     [("tag property of a layout", L + "value/cbor/mod.rs"), ("conversion of numbers", L + "value/cbor/serde_cbor.rs")],
     ["TypedValue::try_into_tagged_serde_cbor", "serde_cbor::Value::from"],
     "Non-integers are compared up to binary floating point. " + TRUST)

prop("C15", "String patterns: an expression and its automaton accept the same words",
     "The automaton of a string or identifier layout accepts exactly the words of the regular expression it was written with, under the usual reading of alternatives, "
     "sequences, groups, sets, negated sets, escapes, the dot and the postfix operators; so does the expression printed and parsed again, and every automaton derived from it by "
     "determinization, minimization, renaming or product (the common words); an expression said to have a single word has that word only; malformed expressions are refused.",
     ["programs"],
     "every regular expression over all characters, in any spelling",
     "One test prints eight expressions; no test ever looks at an automaton, and languages are infinite.",
     [L + "abs/regexp.rs", L + "utils/automaton.rs", L + "utils/mod.rs"],
     [("regular expression parser, printer and compiler", L + "abs/regexp.rs"), ("automata", L + "utils/automaton.rs")],
     ["RegExp::parse", "RegExp::build", "RegExp::as_singleton", "Automaton", "DetAutomaton"],
     "The specification decides language equality exactly, by bisimulation of the recorded automaton with the partial derivatives of the expression; the derivatives themselves are "
     "model checked against the denotation on all small expressions. The implementation only accepts patterns, it does not enforce them yet. " + TRUST)

prop("C16", "Derived types: serialization of Rust types follows their layout attributes",
     "The SerializeLd and DeserializeLd implementations derived for a Rust type with tldr attributes compile, and mean what the layout these attributes describe means: serializing a value adds to the "
     "dataset exactly the quads that dehydration with this layout adds, in the current graph, between the given input resources and fresh ones for the introduced variables; deserializing returns exactly "
     "the value that hydration with this layout returns, in the current graph, or fails when the data is missing, ambiguous or of the wrong datatype; a value read back from what was written is the same. It never panics.",
     ["inputs", "programs", "configurations"],
     "every type (records, sums, sized, ordered and unordered lists, ids, all the literal kinds, nested), every attribute combination (inputs, graphs, patterns, introduced variables, datasets), every value, every dataset and interpretation",
     "The macros have one doc example and no test that runs the generated code on data.",
     ["generators/rust/treeldr-rs-macros/src/generate/ser.rs", "generators/rust/treeldr-rs-macros/src/generate/de.rs", "generators/rust/treeldr-rs-macros/src/parse.rs",
      "generators/rust/treeldr-rs/src/ser/environment.rs", "generators/rust/treeldr-rs/src/de/mod.rs", "generators/rust/treeldr-rs/src/datatypes.rs"],
     [("code of the serializers", "generators/rust/treeldr-rs-macros/src/generate/ser.rs"), ("code of the deserializers", "generators/rust/treeldr-rs-macros/src/generate/de.rs"),
      ("datatypes", "generators/rust/treeldr-rs/src/datatypes.rs")],
     ["treeldr::SerializeLd::serialize_ld", "treeldr::DeserializeLd::deserialize_ld"],
     "Types are generated with their layouts (derive/src/types.rs, 77 types, 10 kinds) and compiled against /repo; values and datasets are generated at run time. Recursive types on cyclic data are left out (the "
     "generated code has no cycle detection), and so are the id constants that attributes cannot express. " + TRUST,
     technique="TLA+ specification of the derived code checked with TLC; recorded executions of derived code validated against it (trace validation)")

prop("C17", "Command line: the files, the options and the input decide output and status",
     "The tldr command loads its layout files and its included files into one registry in which no layout may be defined twice, adds the prelude unless told otherwise, selects the "
     "requested layout or that of the only main file, and prints exactly the tree, dataset or document that hydration, dehydration or conversion gives for its standard "
     "input in the requested formats, with exit status 0; on any error (unreadable, malformed or conflicting files, no or several default layouts, unknown layout, malformed input, data that "
     "does not fit, a tree the format cannot hold) it prints a diagnostic and no result, with exit status 1 (2 for a wrong command line); it never crashes.",
     ["inputs", "configurations"],
     "every set of layout and include files (valid or not), every option combination, every input document in every format",
     "The command line tool has no test at all.",
     ["src/main.rs", "src/rdf.rs", "src/format/rdf.rs", "src/format/tree.rs"],
     [("loading of files, default layout", "src/main.rs"), ("formats", "src/format")],
     ["the exit status, standard output and standard error of the tldr process"],
     "The tool is built from /repo and run as a process in a scratch directory; outputs are parsed by independent parsers and compared with the specified result (anonymous resources up to "
     "renaming). N-Quads, JSON and CBOR inputs are generated; inputs that trip known quirks of dependencies (quads that repeat a resource, empty JSON objects in layout files) are left out. " + TRUST,
     technique="TLA+ specification of the tool checked with TLC; recorded runs of the tool validated against it (trace validation)")

prop("C18", "Interpretations: results depend on what resources denote, not on names",
     "With resources that are not terms, compiling, hydrating and dehydrating give what the specification says for the terms that the interpretation gives each resource: a literal or id "
     "is read from the only term of the resource with the wanted datatype (several names of a datatype being equivalent), none or several of them are reported as such; dehydrating into a given graph, with "
     "given input resources, adds exactly the quads of the value and gives each resource exactly the terms of the value; the options (number of inputs, terms of "
     "unnamed inputs, generator of names) only change the names they are about; the same call gives the same result, in whatever order the quads come.",
     ["inputs", "configurations"],
     "every interpretation (several literals, IRIs and language strings per resource, aliased datatypes), every graph and input resources, every layout, dataset and value",
     "All tests use the trivial interpretation, where a resource is its own only term, in the default graph and with the default options.",
     [L + "distill/hy/mod.rs", L + "distill/hy/data.rs", L + "distill/de/mod.rs", L + "distill/de/data.rs", L + "abs/syntax/build.rs"],
     [("terms of a resource", L + "distill/hy/data.rs"), ("delayed assignment of terms", L + "distill/de/mod.rs"), ("options", L + "distill/de/mod.rs")],
     ["hydrate_with", "dehydrate_with", "de::Options", "Layout::build_with_interpretation"],
     "Resources are indexes of rdf-types' Indexed interpretation; results are compared up to a bijection of the anonymous resources. " + TRUST)

prop("C19", "Generated Rust modules: each type stands for the layout it is generated from",
     "The Rust type generated for a layout (#[tldr] modules, tldr_include!, tldr-rs) is a type whose attributes, fields and field types, as read by the derive "
     "macros, describe the same layout: same inputs and introduced resources, datasets, value formats, required fields, datatypes, head and tail of lists, and references to the type of the right module. "
     "It is named after the layout's IRI, compiles, and converts values from and to RDF exactly as the layout hydrates and dehydrates. A layout that has no such type (no usable "
     "name, field names that are not Rust identifiers, patterns that are not IRIs, numbers with no Rust type) is refused with an error that says why, without a panic.",
     ["programs", "inputs"],
     "every set of layouts, every assignment of modules to IRI prefixes, and every value and dataset for the generated types",
     "The generator has no test, and one example of two layouts that is only compiled.",
     ["generators/rust/generator/src/lib.rs", "generators/rust/generator/src/utils.rs", "generators/rust/treeldr-rs-macros/src/lib.rs"],
     [("types of layouts", "generators/rust/generator/src/lib.rs"), ("identifiers", "generators/rust/generator/src/utils.rs"), ("modules", "generators/rust/treeldr-rs-macros/src/lib.rs")],
     ["treeldr_gen_rust::generate", "Options::use_module", "#[tldr] mod", "SerializeLd", "DeserializeLd"],
     "Constants of unit layouts, extra properties and patterns of strings are not represented in Rust types. " + TRUST)

prop("C20", "Faults in layout texts are reported, as what they are and where they are",
     "A JSON text that is not a layout is refused by both parsers, and the one that keeps track of positions (and the command line tool) reports one of the faults the text "
     "has - unexpected type, missing or unknown entry, invalid IRI, language tag, pattern, number or regular expression, duplicate - with the kinds expected and found, the message, the "
     "notes that go with it, and the position of the faulty fragment of the text; a text with no fault is accepted by both parsers. No text makes them panic.",
     ["inputs"],
     "every JSON document: layouts of every kind with any number of faults anywhere, in any spacing and order of entries",
     "No test reads an ill-formed layout; no test looks at an error.",
     [L + "abs/syntax/mod.rs", "src/main.rs"],
     [("tracked parser", L + "abs/syntax/mod.rs"), ("errors and notes", L + "abs/syntax/mod.rs"), ("diagnostics", "src/main.rs")],
     ["TryFromJson for abs::syntax::Layout", "serde Deserialize for abs::syntax::Layout", "abs::syntax::Error", "standard error of tldr"],
     "When a text has several faults, which of them is reported is left open. Texts with empty objects are left out (json-syntax loses count of fragments there), and arrays are "
     "accepted by serde where a structure is expected (serde reads structures from sequences). " + TRUST,
     technique="TLA+ specification of the grammar of layout texts checked with TLC; recorded runs of the parsers and of the tool validated against it (trace validation)")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p, tech, note in P:
        i = p["id"]
        if i in {n["property"] for n in NOT_APPLICABLE}:
            continue
        assert i in PLAN, i
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique=tech, level=PLAN[i]["level"], level_note=note))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
                   hooks=dict(guard="none", enable="no hooks: the checks use the public API of /repo's crates only", source_commits=[]),
                   not_applicable=NOT_APPLICABLE), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
