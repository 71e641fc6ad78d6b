V = L + "value/"
prop("P15", "Literals are read and written exactly",
 "For every literal layout and datatype, the value read from a lexical form is exactly the value the form denotes, whatever its size, sign, precision or spelling, and a form that denotes nothing is an error. The form written for a value denotes exactly that value in the layout's datatype; no value is rounded, truncated or confused with another.",
 ["inputs"], "every XSD datatype the layouts know, every lexical form, valid or not, and every number, text, boolean and byte string",
 "The existing tests read and write a few small integers and strings.",
 [DE, L + "distill/de/data.rs", L + "distill/hy/data.rs", V + "mod.rs"],
 [("literal hydration", L + "distill/hy/data.rs"), ("literal dehydration", L + "distill/de/data.rs"), ("decimal representation", V + "mod.rs: Number")],
 "property-based testing: differential against exact rational arithmetic and reference codecs", "numbers up to hundreds of digits, all spellings, all datatypes")
prop("P16", "JSON and tree values convert both ways without loss",
 "A JSON document read as a tree value denotes exactly that document, and writing a value as JSON and reading it back gives the same value, through every JSON route of the library. A value that has no JSON form is an error, never an altered document.",
 ["inputs"], "every JSON document and every tree value",
 "The existing tests convert a handful of documents.",
 [V + "mod.rs", V + "de.rs", V + "ser.rs", "src/format/tree.rs"],
 [("JSON conversions", V + "mod.rs: From<serde_json::Value>, TryFrom<Value>"), ("serde", V + "de.rs, " + V + "ser.rs")],
 "property-based testing: round trip and differential against a reference JSON model", "documents of up to some dozens of nodes with big and exact numbers and escapes")
prop("P17", "CBOR and tree values convert both ways without loss",
 "The bytes written for a tree value are well-formed CBOR that denotes exactly that value, including byte strings, non-text keys and integers of any size; reading them back gives the same value. Reading arbitrary bytes gives the value they denote or an error.",
 ["inputs"], "every tree value and every byte string",
 "Only one existing test writes CBOR, of one value.",
 [V + "cbor/mod.rs", V + "cbor/serde_cbor.rs", V + "serde_cbor.rs", "src/format/tree.rs"],
 [("CBOR conversions", V + "cbor/serde_cbor.rs, " + V + "serde_cbor.rs")],
 "property-based testing: round trip and differential against a reference CBOR codec", "values, their reference encodings, tagged and mutated byte strings")
prop("P18", "CBOR tags follow the layouts, and only they",
 "Converting a hydrated tree to CBOR puts a tag on exactly the parts whose layout declares that tag, with the declared number, at every depth and in keys and items alike. Removing the tags gives the untagged conversion of the same tree.",
 ["inputs", "programs"], "every layout with tag declarations and every dataset it describes",
 "One existing test tags one value.",
 [V + "cbor/mod.rs", V + "cbor/serde_cbor.rs", V + "mod.rs"],
 [("tag lookup", V + "cbor/mod.rs"), ("tagged conversion", V + "cbor/serde_cbor.rs")],
 "property-based testing: differential against a reference tagger", "random layouts with valid, invalid and duplicate tag declarations")
S = L + "abs/syntax/"
prop("P14", "No input makes the library crash",
 "Whatever layout document, tree, dataset, inputs, CBOR bytes, JSON text or regular expression it is given, the library returns a result or an error: it does not panic, overflow the stack, exhaust memory or run forever.",
 ["inputs", "histories"], "every layout document well-formed or not, arbitrary bytes and text, every value and every dataset for the layouts that compile",
 "Tests give well-formed inputs.",
 [S + "mod.rs", L + "distill/de/mod.rs", L + "distill/hy/mod.rs", V + "serde_cbor.rs", L + "abs/regexp.rs"],
 [("layout readers", S + "mod.rs"), ("distillation", L + "distill"), ("CBOR reader", V + "serde_cbor.rs"), ("regular expressions", L + "abs/regexp.rs")],
 "property-based testing and structured fuzzing: mutated layout documents, values, datasets, bytes and text", "recursion without end by construction of the layout is excluded")
prop("P19", "The two readers of layout documents agree",
 "Reading a layout document with the reader that tracks positions and reading it through serde accept the same documents and give equal layouts.",
 ["inputs"], "every JSON document, a well-formed layout or not",
 "Existing tests read a few well-formed documents through one of the readers.",
 [S + "mod.rs", S + "layout/mod.rs"],
 [("readers with positions", S + "layout: TryFromJson"), ("serde readers", S + "layout: Deserialize")],
 "property-based testing: differential between the two readers on generated and mutated documents", "serde's own leniencies are known findings")
prop("P20", "Layouts survive being written and read back",
 "A layout document that is written as JSON and read back is equal to the original, compiles to the same layouts or fails with the same error. A compiled layout that is written as JSON and read back is equal to the original.",
 ["inputs", "programs"], "every readable layout document, every compiled layout without extra properties",
 "No existing test writes a layout.",
 [S + "mod.rs", L + "layout/mod.rs", L + "pattern.rs", L + "format.rs"],
 [("document writers", S + "layout: Serialize"), ("compiled layouts", L + "layout: Serialize, Deserialize")],
 "property-based testing: round trip", "numbers that 64-bit integers or floats cannot hold are excluded from constants")
prop("P21", "Layout documents compile to the layouts they denote",
 "Compiling layout documents gives exactly the layouts they denote: each variable, blank node, compact or relative IRI, shorthand and default of a document stands for what the scope it is written in gives it. An error is reported exactly when a document denotes no layout, and writing the same document with prefixes and base IRIs or in full makes no difference.",
 ["programs"], "every well-formed layout document or set of documents, with any nesting of scopes, prefixes and base IRIs",
 "The existing tests compile a few fixed documents without checking most of the result.",
 [S + "build.rs", S + "layout/mod.rs", S + "dataset.rs", S + "pattern/mod.rs", S + "resource.rs", L + "abs/layout/mod.rs"],
 [("scopes", S + "build.rs: Context, Scope"), ("layout kinds", S + "layout"), ("builder", L + "abs/layout")],
 "property-based testing: differential against a reference compiler, and metamorphic expansion of compact IRIs", "documents up to a few dozen nodes, up to three in a set")
prop("P23", "Malformed layout documents are rejected where the fault is",
 "A layout document is rejected when it is read exactly if it is malformed, the reported error is one of its faults, and the reported position and hints are those of the faulty part of the text.",
 ["inputs"], "every JSON document with any layout of white space",
 "No existing test reads a malformed document.",
 [S + "mod.rs", S + "layout/mod.rs"],
 [("errors and positions", S + "mod.rs: Error, ErrorHint"), ("readers with positions", S + "layout: TryFromJson")],
 "property-based testing: reference validator that predicts the faults, with a printer that records the span of every part", "mutated documents with one or several faults")
prop("P22", "Registries give each layout under its identifier",
 "After any history of insertions, a collection of layouts gives for each identifier the layout inserted last, each insertion returns the one it replaces, and iteration gives every layout once in the order of the identifiers. The union of registries gives what either holds, the one that was extended taking precedence; the prelude holds its twelve layouts and nothing else. A compiled layout reports exactly the layouts it refers to, its number of inputs and its extra properties.",
 ["histories", "programs"], "every history of insertions in collections and builders, every union of registries, every compiled layout",
 "The existing tests only use collections made by one compilation.",
 [L + "lib.rs", L + "prelude.rs", L + "preset.rs", L + "ref.rs", L + "abs/mod.rs", L + "layout/mod.rs"],
 [("collections and unions", L + "lib.rs: Layouts, LayoutRegistry, LayoutRegistryUnion"), ("builder", L + "abs/mod.rs: Builder"), ("prelude", L + "prelude.rs, " + L + "preset.rs"), ("dependencies", L + "layout")],
 "property-based testing: model-based, random histories against ordered maps", "up to three collections of up to eight insertions")
prop("P24", "Regular expressions match what they say",
 "The automaton built for a regular expression accepts exactly the strings the expression denotes, whether it was parsed, built by a program, simplified or made for a given string. A text is rejected exactly when it is malformed, with the fault it has, and an expression that is written and read back denotes the same strings.",
 ["inputs"], "every text and every regular expression",
 "The existing tests print eight expressions and match none.",
 [L + "abs/regexp.rs", L + "utils/automaton.rs"],
 [("parser and printer", L + "abs/regexp.rs"), ("automaton", L + "abs/regexp.rs: build; " + L + "utils/automaton.rs: determinize")],
 "property-based testing: exact equivalence with a reference automaton", "expressions of up to 60 nodes; counted repetitions written in braces are a known finding")
prop("P26", "Automaton operations keep the language",
 "Making an automaton deterministic, minimizing, compressing, renaming, writing and reading it back keeps the set of words it accepts, and the product of two automata accepts exactly the words both accept. Minimizing leaves the fewest states, and queries about states, successors and partitions tell exactly what the automaton is made of.",
 ["inputs"], "every finite automaton, deterministic or not, with empty transitions, unreachable states and overlapping labels",
 "No existing test builds an automaton.",
 [L + "utils/automaton.rs", L + "utils/mod.rs"],
 [("non deterministic automata", L + "utils/automaton.rs: Automaton"), ("deterministic automata", L + "utils/automaton.rs: DetAutomaton"), ("character sets", L + "utils/mod.rs: charset_intersection")],
 "property-based testing: exact equivalence with reference automata", "up to six states and twelve transitions")
prop("P30", "The command line tool does what the library does",
 "For any layout files, options and well-formed input, the command line tool writes exactly the dataset or tree that the library gives for the layout asked for, whichever of the formats is read and written, and converting data without a layout keeps it. Several files make one set of layouts in which an identifier is defined once; a layout is chosen by default exactly when one file is given for it; when nothing can be written the tool fails with a diagnostic and writes nothing.",
 ["inputs", "configurations"], "every set of layout files, command, options and input",
 "No existing test runs the tool.",
 ["src/main.rs", "src/format/rdf.rs", "src/format/tree.rs", "src/rdf.rs"],
 [("commands, loading of layouts, default layout", "src/main.rs: run, load_layout, DefaultLayoutRef"), ("formats", "src/format"), ("subjects and layout names", "src/rdf.rs")],
 "property-based testing: differential against the library on runs of the real executable", "up to five layout files of a few dozen nodes; N-Quads, JSON and CBOR inputs of up to a few dozen nodes")
prop("P31", "The command line tool survives any input",
 "Whatever bytes its files and standard input hold, the command line tool ends by itself, succeeds exactly when every one of them is valid, and otherwise ends with a failure status and a diagnostic, which for a malformed layout file shows the file and line of the fault.",
 ["inputs", "faults"], "every damaged or missing layout file, damaged input and wrong command line",
 "No existing test runs the tool.",
 ["src/main.rs", "src/format/rdf.rs", "src/format/tree.rs", "src/rdf.rs"],
 [("errors and diagnostics", "src/main.rs: Error, main"), ("readers", "src/format")],
 "fuzzing: mutation of valid inputs on the real executable, with the library as oracle of validity", "up to three byte level or JSON level changes; numbers with long exponents left out")
RS = "generators/rust/treeldr-rs/src/"; RM = "generators/rust/treeldr-rs-macros/src/"
prop("P27", "Derived Rust types come back from their RDF representation",
 "A Rust type declared with the derive macros for any layout the attributes can express compiles, and every value of it that can be written as RDF comes back unchanged from the dataset and inputs it was written to. This holds whether the terms of the type are known to the interpretation of the dataset or not.",
 ["inputs", "programs"], "every layout that derive attributes can express, every value of the type",
 "The existing tests derive a dozen types and write or read one value of each.",
 [RM + "parse.rs", RM + "lib.rs", RM + "generate/ser.rs", RM + "generate/de.rs", RS + "lib.rs", RS + "datatypes.rs", RS + "rdf.rs", RS + "pattern.rs", RS + "utils.rs", RS + "ser/mod.rs", RS + "ser/environment.rs", RS + "de/mod.rs", RS + "de/matching.rs"],
 [("attributes", RM + "parse.rs"), ("generated serializers and deserializers", RM + "generate"), ("run time", RS)],
 "property-based testing: round trip of generated values through generated programs of derived types",
 "240 generated types (2400 when thorough); layouts with byte strings, literal patterns or unions are not expressible")
prop("P28", "Derived Rust types read and write what their layouts say",
 "A type declared with the derive macros reads exactly the datasets that its layout reads, giving the same values, and refuses the others. It writes a value to the same dataset as its layout does, up to the names of blank nodes.",
 ["inputs", "programs"], "every layout that derive attributes can express, every value and every dataset, altered ones included",
 "The existing tests compare derived types with fixed datasets, and never with the layouts.",
 [RM + "parse.rs", RM + "generate/ser.rs", RM + "generate/de.rs", RS + "datatypes.rs", RS + "pattern.rs", RS + "utils.rs", RS + "ser/mod.rs", RS + "ser/environment.rs", RS + "de/mod.rs", RS + "de/matching.rs"],
 [("generated serializers and deserializers", RM + "generate"), ("pattern matching", RS + "de/matching.rs"), ("literals", RS + "datatypes.rs")],
 "property-based testing: differential between derived types and the layout they denote",
 "240 generated types (2400 when thorough); numbers outside the range of the Rust type and blank identifiers are left out; cyclic data is a known finding")
GE = "generators/rust/generator/src/"
prop("P29", "Generated Rust types read and write what their layouts say",
 "The Rust types that the code generator makes from a set of layouts compile, and each reads and writes exactly the datasets that its layout does, with the same values. This holds for types embedded by the macros, in one module or in several referring to each other, and for the code the library returns.",
 ["inputs", "programs"], "every set of named layouts with a Rust form, every value and every dataset, altered ones included",
 "No existing test uses the code generator.",
 [GE + "lib.rs", GE + "utils.rs", RM + "lib.rs", RM + "parse.rs", RM + "generate/ser.rs", RM + "generate/de.rs", RS + "datatypes.rs"],
 [("generator", GE + "lib.rs: generate"), ("names and modules", GE + "lib.rs: Options; " + GE + "utils.rs"), ("macros", RM + "lib.rs: tldr, tldr_include")],
 "property-based testing: differential between generated types and their layouts, in generated programs",
 "240 sets of layouts (2400 when thorough); byte string layouts and numbers without a Rust type are left out")
prop("P32", "The code generator tells which layouts have a Rust form",
 "The code generator declares a public Rust type with the name, members and types of the layout for exactly the layouts that have a Rust form, and reports for the others one of the reasons why they have none. A type is referred to in the module declared for the longest prefix of its identifier. The generator command prints that declaration for the layout asked for, or the only one given, and otherwise fails with a diagnostic and prints nothing.",
 ["inputs", "configurations"], "every set of layout files, valid or not, and every layout asked for",
 "No existing test uses the code generator.",
 [GE + "lib.rs", GE + "utils.rs", GE + "bin/main.rs", L + "preset.rs"],
 [("generator", GE + "lib.rs: generate"), ("names", GE + "utils.rs"), ("command", GE + "bin/main.rs: main")],
 "property-based testing: differential against a reference description of the declarations, and between the command and the library",
 "up to three files of a few dozen layouts")
prop("P33", "Faulty attributes and embedded layouts are refused where they are",
 "A Rust type whose derive attributes are faulty, or an embedding macro naming layouts that are faulty or have no Rust form, is refused with a compile error on the item at fault, and never silently accepted, and never makes the macros panic. The others are accepted.",
 ["inputs", "programs"], "every sequence of attributes and every embedded file, valid or not",
 "No existing test looks at what the macros refuse.",
 [RM + "parse.rs", RM + "lib.rs", RM + "generate/mod.rs", RM + "generate/ser.rs", RM + "generate/de.rs", GE + "lib.rs"],
 [("attributes", RM + "parse.rs"), ("embedded layouts", RM + "lib.rs: tldr, tldr_include")],
 "property-based testing: structured mutation of attributes in compiled programs, against a reference attribute grammar and the library",
 "480 programs of about 50 items; attributes whose meaning is not settled are not judged")
