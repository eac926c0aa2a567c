#!/usr/bin/env python3
"""Regenerates known-findings.jsonl: recorded findings, then the repairs."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rec = [
 {"property": "C01", "monitor": "reverse-map",
  "case": {"doc": {"@context": {"p2": {"@id": "http://v.org/l", "@container": ["@index"]}}, "@id": "urn:a", "@reverse": {"p2": {"i": {"@id": "urn:b"}}}}},
  "class": "expansion differs",
  "what": "the container and the @json coercion of a term used as an entry of a @reverse map are not applied (crates/expansion/src/node.rs, @reverse entries)"},
]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bf52979..HEAD"], capture_output=True, text=True).stdout
prop = {}
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    files = subprocess.run(["git", "-C", "/repo", "show", "--name-only", "--format=", h], capture_output=True, text=True).stdout
    s = s[5:]
    over = {"do not apply the vocabulary policy to language tags and indexes": "C20", "apply the policy for invalid terms to the keys of type maps": "C20",
            "apply the vocabulary policy with the context of the node only": "C20", "ignore the reverse properties mapped to null whatever the policy": "C20",
            "warn about the entries of @nest objects": "C22", "apply the JSON-LD 1.0 processing mode to value objects": "C01", "reject @propagate in JSON-LD 1.0 mode in every context definition": "C02",
            "compare JSON objects with duplicate keys without panicking": "C16", "limit the number of nested remote contexts": "C16", "reject keywords used as properties in expanded JSON": "C16",
            "find colons inside terms which also begin or end with one": "C03", "only reject empty terms which are defined": "C03", "reject empty container mappings": "C03",
            "let blank node identifiers be prefixes of the terms of a context": "C02", "let the vocabulary mapping of a defined term be a blank node identifier": "C02",
            "compare the types of nodes in mapped_eq": "C12", "reject unexpected entries of value objects in expanded JSON": "C10", "Node::as_str of blank and invalid identifiers": "C10",
            "relabel blank node properties": "C08", "canonicalize the literals of graphs and included blocks": "C07", "serialize included nodes under `@included`": "C10",
            "expand compact IRIs whose suffix is not valid in an IRI": "C04", "traverse the content of list objects": "C10",
            "traverse the keys of reverse properties": "C10", "resolve the references of remote expansion contexts against their URL": "C13", "resolve the references of remote compaction contexts against their URL": "C13",
            "quote the profile of the Accept header": "C13", "white space around the parameters of a Content-Type header": "C13", "accept JSON documents of any media type with a +json suffix": "C13",
            "final URL of a document loaded after HTTP redirections": "C13", "parse Link headers with several links, tokens and white space": "C13",
            "mount file system loaders on prefixes without path or ending with a slash": "C13",
            "parse the duplicate key error code": "C15", "expand entries in order when the ordered option is set": "C11", "accept every representation of the version number": "C15", "deserialize null scoped contexts": "C15",
            "do not serialize a missing @protected entry of @type as null": "C15", "do not simplify term definitions without entries to null": "C15",
            "length of the iterator over context bindings": "C15",
            "terminate the lists of visited linked data with rdf:nil": "C23", "visit the graph of a node which has other entries": "C23", "visit JSON literals with the value they have in RDF": "C23",
            "keep every visit of a predicate or graph when serializing": "C23", "serialize lists as lists": "C23", "visit the literals of a list": "C23",
            "do not visit the free-floating values of a graph as subjects": "C23", "only read JSON numbers as values of numeric datatypes": "C23", "do not visit the free-floating lists of a graph": "C23",
            "is_json_object of value and node fragments": "C10", "name of the @index entry key of objects": "C10"}
    if s in over: p = over[s]
    elif "importing a dataset" in s or "imported datasets" in s or "the lists of a dataset" in s: p = "C09"
    elif "error codes" in s or s.startswith(("reject", "check", "detect")): p = "C03"
    elif "export" in s: p = "C02"
    elif "crates/compaction" in files or "inverse" in files or "compact" in s: p = "C05"
    elif "flatten" in s: p = "C06"
    elif "RDF" in s or "compound" in s: p = "C08"
    else: p = "C01"
    rec.append((p, h, s))
with open(os.path.join(root, "known-findings.jsonl"), "w") as f:
    for r in rec:
        f.write((json.dumps(r) if isinstance(r, dict) else "fixed: property=%s %s %s" % r) + "\n")
