#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "layouts/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

DE, HY = L + "distill/de/mod.rs", L + "distill/hy/mod.rs"
HAND = "The existing tests run a dozen hand-written layouts, one value each; "

prop("P01", "Tree to RDF and back is the identity",
 "For every layout whose parts are told apart by the quads they describe, dehydrating a value that conforms to it and hydrating the resulting dataset from the returned inputs gives the same value back, the order of the items of unordered collections excepted.",
 ["inputs", "programs"], "every invertible layout (records, sums, lists, sets, tuples, literals, identifiers, graphs, references, recursion) and every value conforming to it",
 HAND + "none of them combines kinds, graphs, references and recursion, and only few go both ways.",
 [DE, HY, L + "distill/de/data.rs", L + "distill/hy/data.rs", L + "abs/syntax/layout/mod.rs"],
 [("dehydration", DE + ": dehydrate"), ("hydration", HY + ": hydrate")],
 "property-based testing: round trip over generated layouts and values", "random layouts (depth 1-3) and values; exact comparison modulo set order")
prop("P02", "RDF to tree and back keeps the dataset; unrelated quads do not matter",
 "Hydrating the dataset a layout describes, with any blank node names and any additional quads about unrelated subjects, gives the described value. Dehydrating that value gives the described dataset again, up to the names of blank nodes and without the unrelated quads.",
 ["inputs", "programs"], "every invertible layout, every dataset it describes, every renaming of blank nodes, every set of unrelated quads",
 HAND + "no test starts from a dataset with noise or renamed nodes.",
 [DE, HY, L + "matching.rs"], [("hydration", HY + ": hydrate"), ("pattern matching", L + "matching.rs: Matching")],
 "property-based testing: round trip and metamorphic noise against a reference model", "random layouts, values, renamings and noise; dataset isomorphism decides")
prop("P03", "Dehydration writes exactly the dataset the layout describes",
 "Dehydrating a value with any layout gives exactly the quads that the layout describes for that value, no more and no fewer, up to the names of anonymous resources, and returns for each input the term the value gives it. A value the layout does not describe, or that gives two different terms to one resource, is rejected.",
 ["inputs", "programs"], "every well-formed layout, including ones that are not invertible, and every value, conforming or not",
 HAND + "a lost, extra, misplaced or wrongly shared resource shows only for particular combinations.",
 [DE, L + "distill/de/data.rs", L + "layout/mod.rs"], [("dehydration", DE + ": dehydrate, dehydrate_with"), ("environment", DE + ": Environment")],
 "property-based testing: differential against a reference interpreter of layouts", "random layouts, arbitrarily mutated, and random values, mutated; dataset isomorphism decides")
prop("P04", "Hydration reads exactly the tree the layout describes",
 "Hydrating any dataset with any layout gives exactly the tree that the layout describes for that dataset and those inputs, and an error exactly when the layout describes none.",
 ["inputs", "programs"], "every well-formed layout and every dataset, well-formed for that layout or not",
 HAND + "datasets that almost match a layout are not tested at all.",
 [HY, L + "distill/hy/data.rs", L + "matching.rs"], [("hydration", HY + ": hydrate, hydrate_with")],
 "property-based testing: differential against a reference interpreter of layouts", "random layouts and datasets, both mutated; exact comparison modulo set order")
prop("P05", "Ambiguous or missing data never becomes an arbitrary tree",
 "When the dataset offers several candidates, or none, for something a layout needs exactly one of, hydration reports an error; it never picks one candidate, drops the part or invents it, whatever order the dataset lists its quads in. Two values for a field are reported as an ambiguity and a missing required field as missing data, while an optional field without data is left out.",
 ["inputs", "programs"], "every invertible layout and every dataset obtained from one it describes by adding a rival, removing or moving quads",
 "No existing test has ambiguous data, and only one hydrates an incomplete dataset.",
 [HY, L + "matching.rs"], [("uniqueness of matches", L + "matching.rs: into_unique, into_required_unique"), ("error report", HY + ": MatchingForFragment")],
 "property-based testing: targeted mutation of datasets against a reference model", "one or two rivals, removals or moves per dataset, three quad orders each")
prop("P06", "A value is accepted exactly when it conforms to the layout",
 "Dehydration accepts a value if and only if the value has the form the layout describes: the keys, required keys, lengths, constants, literal kinds, datatypes with a lexical form for the value, and exactly one variant of each sum.",
 ["inputs", "programs"], "every invertible layout and every value, conforming, nearly conforming or arbitrary",
 HAND + "rejection is hardly tested.",
 [DE, L + "distill/de/data.rs"], [("conformance", DE + ": dehydrate_with"), ("literals", L + "distill/de/data.rs")],
 "property-based testing: differential against a type checker for values", "random layouts, three values each, mutated up to three times or arbitrary")
prop("P07", "A sum is exactly one of its variants",
 "A sum accepts a value, or reads a tree, exactly when one of its variants alone does, with the same result as the sum made of that variant only. No variant matching, or more than one, is an error, rejected variants leave no trace in the result, and the names of the variants do not matter.",
 ["inputs", "programs"], "every sum layout, with overlapping or disjoint variants, every value and every dataset",
 "Two tests use a sum, with disjoint variants.",
 [DE, HY, L + "layout/sum.rs"], [("variant selection", DE + ", " + HY + ": Layout::Sum")],
 "property-based testing: metamorphic comparison with single-variant sums and renamed variants", "random sums of 1-5 variants, mutated; both directions")
prop("P08", "Lists keep their order and length, sets their items, tuples their shape",
 "An ordered list of any length becomes a linked list of exactly its items in order and comes back unchanged; a truncated, cyclic or branching linked list, or a node without exactly one item, is an error. An unordered collection keeps exactly its items whatever their order, and a tuple accepts exactly its number of items, each in its place.",
 ["inputs"], "every length up to several hundred items, every item kind, list vocabulary and breakage",
 "One list of each kind with a few items is tested.",
 [DE, HY, L + "layout/list/mod.rs"], [("ordered lists", HY + ": ListLayout::Ordered"), ("unordered lists", HY + ": ListLayout::Unordered"), ("sized lists", HY + ": ListLayout::Sized")],
 "property-based testing: direct walk of the dataset, round trip, fault injection in lists", "lengths 0-340, five kinds of breakage, permutations")
prop("P09", "Data is written to and read from the graph the layout selects",
 "Every quad is written to, and read from, the graph selected for it: the one written in the quad pattern, else the one selected by the nearest enclosing value description (a resource or explicitly the default graph), else the graph the operation starts from. Data in other graphs is never used.",
 ["inputs", "programs"], "every layout with explicit, inherited and default graphs, every starting graph, every placement of quads",
 "No existing test selects a graph in a sub-layout or starts from a named graph.",
 [DE, HY, L + "format.rs", L + "utils/mod.rs"], [("graph selection", HY + ": hydrate_with current_graph"), ("value format", L + "format.rs: ValueFormat")],
 "property-based testing: reference model with an explicit current graph, metamorphic noise", "layouts rich in graphs; three starting graphs; moved and rival quads")
prop("P10", "Results do not depend on order, blank node names or dataset implementation",
 "Compiling the documents of a set of layouts in any order, presenting the quads of a dataset in any order or through any dataset implementation, renaming blank nodes and repeating an operation all give the same results, up to the names of anonymous resources and the order of the items of unordered collections.",
 ["inputs", "programs", "configurations"], "every layout set, value, dataset, permutation and renaming",
 "Every test runs once, in one order.",
 [DE, HY, L + "matching.rs", L + "abs/mod.rs"], [("matching order", L + "matching.rs"), ("layout builder", L + "abs/mod.rs: Builder")],
 "property-based testing: metamorphic permutation and renaming", "random layouts and datasets, mutated; two permutations and renamings each")
prop("P11", "Any interpretation of resources gives the results of plain terms",
 "Compiling, dehydrating and hydrating with caller-defined resources, mapped to terms by the caller's own interpretation, gives the same results as with plain terms. A resource with several terms is a value only if exactly one of them fits the layout.",
 ["inputs", "programs", "configurations"], "every layout, value, dataset and numbering of resources",
 "The existing tests use plain terms only.",
 [DE, HY, L + "abs/syntax/build.rs", L + "prelude.rs"], [("interpretation", HY + ": hydrate_with"), ("compilation", L + "abs/syntax/layout/mod.rs: build_with_interpretation")],
 "property-based testing: differential between interpretations", "an interpretation over scrambled integers written for the check")
prop("P12", "Hydrated trees are annotated with the layouts they come from",
 "Every part of a hydrated tree carries the identifier of the layout that produced it, of the matching kind, and for sums the variant that was selected. Removing the annotations gives the plain tree.",
 ["inputs", "programs"], "every layout with identified parts and every dataset it describes",
 "The existing tests drop the annotations.",
 [HY, L + "value/mod.rs"], [("typed values", L + "value/mod.rs: TypedValue")],
 "property-based testing: differential against an annotating reference model", "random layouts with every part identified in half of the cases")
prop("P13", "Pattern matching finds every match exactly once",
 "Matching a list of quad patterns against a dataset, from any partial binding of variables, yields every complete binding under which all the patterns are quads of the dataset, each exactly once, and nothing else. Asking for the unique match tells none, one and several apart.",
 ["inputs"], "every dataset, pattern list (repeated variables, graphs, default graph) and initial binding",
 "Matching is only exercised through a few layouts.",
 [L + "matching.rs", L + "pattern.rs"], [("matching", L + "matching.rs: Matching"), ("substitution", L + "pattern.rs: Substitution")],
 "property-based testing: differential against exhaustive enumeration of bindings", "universes of 2-5 resources, up to 8 quads, 3 patterns, 4 variables")

exec(open(os.path.join(ROOT, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_more.py")) else None
NA = globals().get("NA", [])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="bash /verif/run.sh setup",
    checks=[dict(property=p["id"], quick_cmd=f"bash /verif/run.sh {p['id']} quick", thorough_cmd=f"bash /verif/run.sh {p['id']} thorough",
        technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=NA)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
