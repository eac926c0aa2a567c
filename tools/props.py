HOOKS = None
NOT_APPLICABLE = []
NOTES = "One harness crate (harness/) links the crates of /repo and runs the monitors; see DESIGN.md."

def P(id, title, statement, over, qtext, why, files, mech, technique, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None),
             technique=technique, level_note=note)
    if "observe" in kw:
        d["anchors"]["observe_at"] = kw.pop("observe")
    d.update(kw)
    return d

MODEL = ("Held on the generated executions counted in the evidence, judged by an independent executable model of the W3C algorithms "
         "(harness/src/model). Trusts the model, its listed readings of ambiguous points (DESIGN.md), and the JSON and IRI libraries.")

PROPS = [
P("C01", "Expansion follows the JSON-LD 1.1 expansion algorithm",
  "Expanding any document, with any local, remote, imported or option-given context, yields the expanded document the JSON-LD 1.1 processing algorithms define for it, up to the order of unordered collections. When the algorithms define an error for the input, expansion fails instead of returning a document, and it fails for no other input.",
  ["inputs", "configurations"], "Every JSON document (all keywords, containers, scoped/propagated/protected contexts, malformed variants), every set of remote contexts, base and expansion options, both processing modes.",
  "The suite replays a fixed list of W3C cases; features interact (containers x scoped contexts x aliases x nesting x reverse) and the product is never sampled.",
  ["crates/expansion/src", "crates/context-processing/src", "src/processor/mod.rs"],
  [("element/node/value/array expansion", "crates/expansion/src/{element,node,value,array,literal}.rs"), ("context processing", "crates/context-processing/src/algorithm")],
  "differential runtime monitoring against an executable reference model", MODEL),
P("C02", "Context processing computes the active context the specification defines",
  "Processing any local context (inline, array, remote, imported, null) against any active context yields the active context the JSON-LD 1.1 algorithms define: the same base, vocabulary, default language and direction, and for each term the same mapping, container, type, language, nesting, index, prefix, protection and scoped context. Nothing else is defined. An invalid context, a redefinition of a protected term or a cyclic definition is an error. Dereferencing a remote context gives the same result as writing it in place, and a processed context exported back to syntax processes to the same context.",
  ["inputs", "configurations"], "Every sequence of context definitions, every remote context graph, every previous context and base IRI.",
  "Definition order, protection, propagation, imports and prefix resolution interact; fixtures only observe a few contexts through the expansion of one document.",
  ["crates/context-processing/src", "crates/core/src/context", "crates/syntax/src/context"],
  [("context processing", "crates/context-processing/src/algorithm/mod.rs"), ("term definitions", "crates/context-processing/src/algorithm/define.rs"), ("IRI expansion", "crates/context-processing/src/algorithm/iri.rs"), ("active context", "crates/core/src/context/mod.rs, definition.rs")],
  "differential runtime monitoring of the context state against an executable reference model", MODEL),
P("C03", "Invalid input is rejected with the error code of its fault",
  "Whenever the JSON-LD 1.1 algorithms reject a document or one of its contexts, expansion fails and the error reports the code they define for that fault (invalid term definition, keyword redefinition, colliding keywords, invalid value object, loading remote context failed and so on). A document with a harmless change is not rejected.",
  ["inputs"], "Every valid document with a single fault at any place of it or of its local, scoped, imported or remote contexts.",
  "The suite has one document for most codes; whether a fault is noticed, and as what, depends on where it is and what surrounds it.",
  ["crates/expansion/src", "crates/context-processing/src", "crates/syntax/src/context/try_from_json.rs", "crates/syntax/src/error.rs"],
  [("expansion errors", "crates/expansion/src/error.rs"), ("context errors", "crates/context-processing/src/lib.rs"), ("context syntax errors", "crates/syntax/src/context/try_from_json.rs")],
  "fault injection with differential runtime monitoring of the error codes", MODEL),
P("C05", "Compaction follows the JSON-LD 1.1 compaction algorithm",
  "Compacting any expandable document with any context and options yields, entry for entry, the compact document the JSON-LD 1.1 algorithms define: the same terms, containers, relative IRIs and array forms. Inputs for which they define an error are rejected and no others.",
  ["inputs", "configurations"], "Every expandable document, every compaction context (the document's own or an unrelated one), compactArrays, compactToRelative and base.",
  "Tests fix a few (document, context) pairs; the term selected for a value depends on every term of the context, which only a second implementation can judge at scale.",
  ["crates/compaction/src", "crates/core/src/context/inverse.rs", "src/processor/mod.rs"],
  [("node/property/value compaction", "crates/compaction/src/{lib,node,property,value}.rs"), ("IRI compaction and term selection", "crates/compaction/src/iri.rs, crates/core/src/context/inverse.rs")],
  "differential runtime monitoring against an executable reference model", MODEL),
P("C06", "Flattening follows the node map generation and flattening algorithms",
  "Flattening any document yields the node objects that JSON-LD 1.1 node map generation defines, up to blank node labels: every subject appears once with all of its types, properties and indexes, references are flat, lists keep their order, named graphs stay separate. Conflicting indexes are the only reason to fail on an expandable document.",
  ["inputs", "configurations"], "Every expandable document with any nesting of nodes, lists, reverse properties, included blocks and named graphs, with and without ordered output.",
  "Merging depends on which subjects, types and indexes coincide at different nesting levels, which fixed fixtures sample only a few times.",
  ["crates/core/src/flattening", "src/processor/mod.rs"],
  [("node map generation and merging", "crates/core/src/flattening/node_map.rs"), ("flattening", "crates/core/src/flattening/mod.rs")],
  "differential runtime monitoring against an executable reference model, modulo graph isomorphism", MODEL),
P("C08", "JSON-LD to RDF yields exactly the quads of the document",
  "Converting any document to RDF yields exactly the quads the JSON-LD 1.1 algorithms define, up to blank node labels: no quad lost, invented or put in another graph, literals with the right lexical form, datatype, language and direction encoding, and lists as complete rdf:first/rdf:rest chains. Triples with ill-formed terms or blank node predicates are dropped unless generalized RDF is requested.",
  ["inputs", "configurations"], "Every expandable document; every rdfDirection mode; generalized RDF on or off.",
  "The suite checks fixed documents; literal forms, list shapes and graph nesting combine without bound.",
  ["crates/core/src/quad.rs", "crates/core/src/rdf", "src/processor/mod.rs"],
  [("quad iteration", "crates/core/src/quad.rs"), ("value to RDF", "crates/core/src/rdf")],
  "differential runtime monitoring against an executable reference model, modulo RDF dataset isomorphism", MODEL),
P("C04", "Compaction and flattening lose nothing: expanding the result gives the document back",
  "Expanding a compacted document gives back the expanded document it was computed from; compacting it again with the same context changes nothing; and the stages agree with each other: expanding a flattened document gives the flattened document, and it denotes the same RDF dataset as the original. The data losses the specification itself prescribes are the only exceptions.",
  ["inputs", "configurations"], "Every expandable document, every compaction context, every base IRI and compaction option.",
  "Round trips only fail on particular pairs of a value and a context (a term that coerces it, a prefix that captures it, a relative IRI that resolves elsewhere); fixtures state results, not round trips.",
  ["crates/compaction/src", "crates/expansion/src", "crates/core/src/flattening", "crates/core/src/context/inverse.rs", "src/processor/mod.rs"],
  [("compaction", "crates/compaction/src"), ("expansion", "crates/expansion/src"), ("flattening", "crates/core/src/flattening")],
  "metamorphic runtime monitoring: round trips of the real stages compared modulo isomorphism", "Held on the generated executions counted in the evidence. The oracle is the library's other stages; cases where the reference model itself loses data in the round trip are left undecided, so a loss common to both is not seen here (C01, C05 and C06 judge each stage)."),
P("C07", "Blank node relabelling and canonicalization only rename",
  "Identifying every node, relabelling or canonicalizing a document, and mapping its identifiers change nothing but blank node labels, by a one-to-one renaming: the result is isomorphic to the original. Canonical labels do not depend on the labels or the order of the input, canonicalization is idempotent, and every node is identified. Literals are put in canonical form without changing their value.",
  ["inputs", "schedules"], "Every expanded or flattened document, every consistent choice of blank node labels (colliding with generated ones or not), every order of its sets.",
  "Label capture and order dependence only appear for documents whose own labels collide with generated ones or whose nodes are symmetric.",
  ["crates/core/src/object", "crates/core/src/document", "crates/core/src/flattening", "crates/core/src/quad.rs"],
  [("relabelling", "crates/core/src/object/node/mod.rs (relabel_with, identify_all_with)"), ("canonicalization", "crates/core/src/document/{expanded,flattened}.rs"), ("generators", "crates/core/src/flattening, rdf_types::generator")],
  "metamorphic runtime monitoring modulo graph isomorphism", "Held on the generated executions counted in the evidence. Trusts the isomorphism search (undecided when its bound is hit)."),
P("C09", "Importing an RDF dataset keeps the dataset",
  "Turning any RDF dataset into an expanded document yields a valid expanded document that denotes the same dataset up to blank node labels and the canonical form of native literals: no quad lost, invented or moved to another graph, whatever nodes are shared, cyclic, or used as graph names. Complete, unshared rdf:first/rdf:rest chains become list objects, other chains stay as they are. Only ill-typed boolean, numeric or JSON literals are rejected.",
  ["inputs"], "Every RDF dataset: any literal, any list-like structure, any sharing or cycle of nodes within and across graphs, in any order.",
  "The suite imports a few datasets; embedding and list detection depend on how often and from where every node of the dataset is used.",
  ["crates/core/src/serialization.rs", "crates/core/src/rdf"],
  [("dataset to expanded document", "crates/core/src/serialization.rs")],
  "runtime monitoring of the import against the dataset its result denotes by a reference model, modulo dataset isomorphism", "Held on the generated datasets counted in the evidence. Trusts the model's RDF conversion and the isomorphism search (undecided when its bound is hit)."),
P("C10", "The expanded data model and its JSON form say the same",
  "An expanded document written to JSON and read back is the same document, and printed in any layout it is the text of its JSON form. Everything the data model reports (identifiers, types, properties, entries, fragments, traversal, counts, typed accessors, iterators) agrees with the JSON form, and expanded JSON is either read without losing any entry or rejected.",
  ["inputs", "histories"], "Every expanded document and every JSON value that may be one; every accessor and iterator of the object, node, value, list and fragment types.",
  "The data model has dozens of accessors over one structure; tests use few of them, on few shapes.",
  ["crates/core/src/object", "crates/core/src/document", "crates/core/src/lang_string.rs", "crates/core/src/indexed.rs", "crates/core/src/print.rs"],
  [("objects and fragments", "crates/core/src/object"), ("documents", "crates/core/src/document"), ("indexed values", "crates/core/src/indexed.rs")],
  "runtime monitoring of the public data model against an independent reading of its JSON form", "Held on the generated executions counted in the evidence. The JSON printer and parser of json-syntax are trusted."),
P("C11", "Results are a function of the inputs",
  "The result of an operation depends on the document, the options and the loaded documents only: it is the same when run again, in another order of object members (up to the order within sets), in another vocabulary (indexes or IRIs, fresh or shared), through any of the entry points, when loads take longer, when other operations on the same document are interleaved or abandoned, or run in other threads. Comparison of documents holds exactly when their JSON is the same modulo order and they expand to the same document. With the `ordered` option, results come in order, as if members had been sorted.",
  ["inputs", "schedules", "histories"], "Every document, context and options, permutation of members, schedule of the loads, set of concurrent operations, and entry point.",
  "Tests run each operation once, through one entry point, with documents loaded at once.",
  ["src/processor", "crates/expansion/src", "crates/compaction/src", "crates/core/src/flattening"],
  [("entry points", "src/processor/mod.rs, src/processor/remote_document.rs"), ("ordering", "crates/expansion/src/element.rs, crates/core/src/flattening/mod.rs"), ("comparison", "crates/syntax/src/compare.rs")],
  "runtime monitoring of repeated, permuted, interleaved, abandoned and concurrent executions against the first execution", "Held on the generated cases counted in the evidence. Cases whose result depends on the order of members by the recommended algorithms themselves, as decided by the model, are set aside. Flattened documents which are not ordered are sets; the first error found on them may be any of their errors."),
P("C12", "Equality, hashing and equivalence follow the meaning of the data model",
  "Expanded documents, nodes and objects are equal exactly when their unordered collections hold the same elements, whatever the insertion order; equal values hash alike and find each other in sets; identifiers, terms and types are equal exactly when their texts are, in each of their representations. Equality under a blank node renaming holds exactly when the renamed value equals the other, and equivalence ignores nothing but what it documents.",
  ["inputs", "histories"], "Every pair of documents: shuffled, renamed, changed at one place, or unrelated.",
  "Wrong equality shows only on pairs differing in one particular component, and a wrong hash only when an equal value is looked up.",
  ["crates/core/src/object", "crates/core/src/utils", "crates/core/src/document", "crates/core/src/id.rs", "crates/core/src/term.rs", "crates/core/src/ty.rs"],
  [("mapped equality", "crates/core/src/object/mapped_eq.rs"), ("equality and hashes", "crates/core/src/object, crates/core/src/utils/hash.rs")],
  "metamorphic runtime monitoring of equality and hashes against normal forms", "Held on the generated pairs counted in the evidence."),
P("C13", "Loaders return the documents they stand for",
  "A loader returns the document of the requested URL with the URL, media type, profile and linked context its source declares, or an error naming the URL. Chains of loaders use the second one only when the first fails; mounted directories serve exactly the files below them; HTTP loading follows RFC 8288 links and bounded redirections, sends the requested profile, and rejects what is not JSON. Documents and contexts given by reference are processed as what was loaded, references in them being resolved against the URL they were loaded from, and nothing that is not referenced is requested.",
  ["inputs", "histories"], "Every content of a loader, tree of chains, mount points, URL, page of HTTP headers and redirections, and document whose contexts are remote, linked or given as options.",
  "Tests load a few files; headers, redirections and nested references combine in many more ways than those.",
  ["crates/core/src/loader", "crates/core/src/document", "src/processor"],
  [("loaders", "crates/core/src/loader"), ("references", "src/processor/remote_document.rs, crates/core/src/loader/mod.rs")],
  "runtime monitoring of loaders over scripted stores, directories and loopback HTTP pages against a model of the requests and answers", "Held on the generated cases counted in the evidence. The HTTP client (reqwest) is trusted for redirections, in cleartext over the loopback network only."),
P("C14", "No input leads to undefined behaviour",
  "The library has no undefined behaviour whatever the input and the interleaving of threads: no invalid reference, no aliasing violation, no data race, no value that breaks the invariant of its type. In particular language tags, compact IRIs and numbers made without validation are valid where their types say so, read back as the text they were made of, and compare and hash alike in their owned and borrowed forms.",
  ["inputs", "schedules"], "Every input of every operation, and every text as a language tag or compact IRI.",
  "Undefined behaviour need not show in the result of a test, and needs the one text for which an unchecked conversion is wrong.",
  ["crates/syntax/src/lang.rs", "crates/syntax/src/compact_iri.rs", "crates/expansion/src/literal.rs", "crates/serialization/src/expanded/value.rs", "crates/syntax/src/context/definition/version.rs"],
  [("language tags", "crates/syntax/src/lang.rs"), ("compact IRIs", "crates/syntax/src/compact_iri.rs"), ("numbers", "crates/expansion/src/literal.rs, crates/serialization/src/expanded/value.rs, crates/syntax/src/context/definition/version.rs")],
  "the workloads of the other monitors under an undefined behaviour interpreter (Miri, data races included) and AddressSanitizer; runtime monitoring of the values built without validation", "Held on the generated executions counted in the evidence: few under the interpreter (which is hundreds of times slower), tens of thousands under the sanitizer. Leaks are not reported. Dependencies are watched as far as the workloads reach them."),
P("C15", "Contexts and names survive reading and writing",
  "A JSON value is read as a context exactly when it has the shape the recommendation gives to contexts. Written back to JSON, printed in any layout and parsed, or taken through serde, the context is the same, entry for entry, and its accessors, iterators and simplified definitions say what its JSON form says. Keywords, keyword-like names, compact IRIs, containers, directions, versions, error codes and language tags convert to and from their text without loss, reject everything else, and compare, order and hash consistently (language tags and their hashes regardless of case; JSON comparison modulo the order of arrays).",
  ["inputs"], "Every JSON value as a context, with nested scoped contexts, every printing option, every string as a name, every pair of JSON values.",
  "Tests parse and print a few contexts; entries, layouts and ways to write a value combine freely.",
  ["crates/syntax/src", "crates/core/src/lang_string.rs"],
  [("contexts", "crates/syntax/src/context"), ("printing", "crates/syntax/src/context/print.rs"), ("names", "crates/syntax/src/keyword.rs, crates/syntax/src/compact_iri.rs, crates/syntax/src/lang.rs, crates/syntax/src/error.rs")],
  "runtime monitoring of generated contexts, names and pairs of values against an independent grammar and the JSON form", "Held on the generated cases counted in the evidence. Validity of IRI references is decided by the iref library; duplicate keys are not generated."),
P("C23", "Documents and linked data values say the same",
  "Visiting an expanded document (or one of its nodes) as linked data yields exactly the quads of its RDF serialization: every literal, list, graph, reverse property and included node. Serializing any linked data value, whatever the order and number of visits of its predicates, reverse predicates, graphs and included resources, gives a valid document with exactly the quads of the value, in which complete anonymous lists are list objects; it does not depend on the vocabulary. Values with literal subjects or graph names are refused.",
  ["inputs"], "Every expandable document; every linked data value: anonymous, named and literal resources, lists of any shape and near-lists, nested graphs, in any order of visits.",
  "The repository has no test of the serializer or of the visitor; their faults depend on combinations (two visits of one predicate, a list with a literal or without its end, a graph beside properties).",
  ["crates/serialization/src", "crates/core/src/deserialization"],
  [("serializer", "crates/serialization/src/expanded"), ("visitor", "crates/core/src/deserialization")],
  "runtime monitoring of visits and serializations against the quads of the value, modulo dataset isomorphism", "Held on the generated values counted in the evidence. Numbers and booleans are compared in value space, since JSON numbers keep neither datatype nor lexical form. Documents not representable in RDF (identifiers which are no IRI, malformed language tags, blank predicates, free-floating lists) are set aside. Trusts the isomorphism search (undecided when its bound is hit)."),
P("C21", "Collections of the data model behave as the collections they are, whatever the history",
  "After any history of insertions, removals, lookups, iterations and entry-like updates, the collections of the data model (node properties and reverse properties, multisets of objects and nodes, lists, indexed values, language strings, values, node maps, expanded documents, context definitions, containers) hold exactly what a plain map, bag or list would hold: lengths, memberships, lookups, iterators in every direction and results of the operations all agree.",
  ["histories"], "Every history of operations of every collection.",
  "Tests use the collections through the algorithms, which perform few of the operations in few orders.",
  ["crates/core/src/object", "crates/core/src/container.rs", "crates/core/src/context", "crates/core/src/flattening/node_map.rs", "crates/core/src/document"],
  [("nodes", "crates/core/src/object/node"), ("small collections", "crates/core/src/object/list.rs, crates/core/src/indexed.rs, crates/core/src/lang_string.rs, crates/core/src/object/value.rs"), ("contexts", "crates/core/src/context, crates/core/src/container.rs"), ("node maps", "crates/core/src/flattening/node_map.rs")],
  "runtime monitoring of random and enumerated histories of operations against plain collections", "Held on the generated histories counted in the evidence. The order of the values of one property is not compared (they are a bag)."),
P("C16", "Every input is answered, and what is answered is well formed",
  "Whatever JSON is given as document, context, expansion context, remote document or expanded document, and whatever the options, no operation (context processing, expansion, compaction, flattening, RDF serialization, reading of expanded documents, printing, comparison, relabelling, canonicalization) panics, aborts or runs without end: it gives a result, or an error with a code of the recommendation and a message. Endless chains of remote contexts are cut by a context overflow. Expansion and flattening results are well formed expanded documents, which are read back as they are; RDF results are made of valid identifiers.",
  ["inputs", "resources"], "Every JSON value in every role, duplicate keys included; nesting up to 128 levels; thousands of members, values, terms or nodes; chains of remote contexts of any length.",
  "Tests feed well meant documents; a panic or an endless loop needs one odd value at one odd place.",
  ["crates/context-processing/src", "crates/expansion/src", "crates/compaction/src", "crates/core/src", "crates/syntax/src"],
  [("context processing", "crates/context-processing/src/algorithm"), ("expansion", "crates/expansion/src"), ("compaction", "crates/compaction/src"), ("reading of expanded documents", "crates/core/src/object/mod.rs, crates/core/src/object/node"), ("comparison", "crates/syntax/src/compare.rs")],
  "runtime monitoring of all the operations on hostile, deep, wide and endless inputs: panics, aborts, time, error codes, well-formedness of results", "Held on the generated inputs counted in the evidence. Nesting is bounded by 128 levels on a stack of 8 MB; remote contexts which branch endlessly are not generated; parsing of JSON text is left to json-syntax."),
P("C19", "The command prints what the library computes",
  "`json-ld expand`, `json-ld flatten` and `json-ld fetch` print, as JSON on the standard output and with status 0, the document the library computes for the same input: read from the standard input, a file or an URL, with the base URL given for the first two, the remote contexts being loaded over HTTP. `--relabel` gives every node an identifier and replaces the blank node identifiers by generated ones, `--canonicalize` puts the literals in canonical form, `--no-vocab` and `--no-undef` forbid the use of the vocabulary mapping and undefined keys. When the input cannot be read, loaded, parsed or processed the command prints nothing on the standard output, an `error: ` line on the standard error, and ends with status 1.",
  ["inputs", "configurations"], "Every document, source, base URL and combination of flags, long or short.",
  "The command has no test at all.",
  ["crates/cli/src/main.rs"],
  [("command line", "crates/cli/src/main.rs"), ("loader", "crates/core/src/loader/reqwest.rs"), ("relabelling and canonicalization with a vocabulary", "crates/core/src/document/expanded.rs")],
  "runtime monitoring of the real command as a process against a local HTTP server: status, both outputs, and the printed document against the result of the library", "Held on the generated command lines counted in the evidence. Without --relabel and --canonicalize the printed document is compared up to the order of sets; with --relabel up to the names of the blank nodes."),
P("C20", "Expansion policies only drop or forbid",
  "An expansion policy never changes what is expanded otherwise than by what it is about. Without drops, the result is the standard one or an error, and the error is there exactly when a document that is valid otherwise contains what is forbidden: a key, reverse key or type expanded with the vocabulary mapping (`vocab`), a property or type that is neither an IRI nor a blank node identifier, or an undefined key (`invalid`), an undefined key (`allow_undefined`). When they are dropped, the result is the standard one without them: nothing else, such as the indexes, languages, identifiers or contexts, is lost. With `invalid` dropped or rejected no invalid property or type is in the result.",
  ["inputs", "configurations"], "Every document and the 18 policies.",
  "No test uses a policy other than the default one, and a policy is consulted at fifteen places of the expansion.",
  ["crates/expansion/src/options.rs", "crates/expansion/src/node.rs", "crates/expansion/src/element.rs", "crates/expansion/src/value.rs", "crates/context-processing/src/algorithm/iri.rs"],
  [("policy", "crates/expansion/src/options.rs: Policy"), ("IRI expansion", "crates/context-processing/src/algorithm/iri.rs: expand_iri_simple"), ("properties, types and reverse properties", "crates/expansion/src/node.rs")],
  "runtime monitoring of expansions with random policies against the standard expansion and the reference model with the same policy", "Held on the generated documents counted in the evidence. The terms of a context that are defined with its vocabulary mapping count as defined; the property of a property-valued index that is null is left open."),
P("C22", "What deserves a warning is reported, and warnings change nothing",
  "The handler given to expansion or context processing receives a warning for every term or value of a context that has the form of a keyword without being one, every malformed language tag, empty term and blank node property met by expansion, and every term, property or type used as an IRI that is none. Each warning is about something of its kind in the input and its text names it. The handler makes no difference to the result.",
  ["inputs"], "Every document and context that is accepted.",
  "No test looks at a warning; they are raised at nine places of two crates.",
  ["crates/expansion/src/warning.rs", "crates/context-processing/src/lib.rs", "crates/core/src/warning.rs", "crates/expansion/src/element.rs", "crates/expansion/src/node.rs", "crates/expansion/src/value.rs", "crates/context-processing/src/algorithm"],
  [("warnings of expansion", "crates/expansion/src/warning.rs"), ("warnings of context processing", "crates/context-processing/src/lib.rs: Warning")],
  "runtime monitoring of the warnings received by a recording handler against the input and the result", "Held on the generated documents and contexts counted in the evidence. Warnings expected: those that the result, the outermost entries or the outermost contexts call for; language tags are of a fixed list; blank node properties are not decided in documents with reverse properties."),
]
