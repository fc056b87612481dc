"""Properties, anchors and check descriptions (single source).

`python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from it.
"""

SYMX = ("dynamic symbolic execution of the compiled rdf-types code (generic code "
        "instantiated with a symbolic resource type), every branch and assertion decided by Z3")

# id: (title, statement, over, quantifier text, why_tests_cant, files, mechanism, functions encoded, outside)
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, functions, outside, engine="symx", state=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                 mechanism=[dict(name=n, where=w) for n, w in mechanism],
                 functions=functions, outside=outside, engine=engine, state=state or [])


DS = "src/dataset/"
DI = DS + "impl/"
GI = DS + "graph/impl/"
CONT_OUT = ("longer symbolic suffixes than stated after each starting point; resource types whose Ord/Eq is not a "
            "total order; allocation failure")
CONT_WHY = ("The repository's tests insert a handful of fixed quads; slot reuse, node splits and merges, and "
            "collisions between roles only appear for particular orderings and equalities between resources.")

prop("C01", "A BTreeDataset is exactly the set of quads its history leaves in it",
     "After any sequence of insertions and removals a B-tree dataset contains exactly the quads inserted and not removed since: iteration yields each of them once in increasing order, and length, emptiness, membership and resource membership agree with that set. Insertion and removal report whether they changed the set.",
     ["histories", "inputs"], "all histories of insertions/removals and all equality/ordering relations between the resources involved",
     CONT_WHY, [DI + "btree_dataset.rs"],
     [("BTreeDataset::insert/remove/contains/iter", DI + "btree_dataset.rs")],
     ["BTreeDataset::{new,insert,remove,contains,contains_quad,iter,quads,resources,contains_resource,len,resource_count,is_empty,into_iter}", "slab::Slab, raw_btree::RawBTree (compiled dependencies)"],
     CONT_OUT, state=[dict(name="resources/quads/default_graph/named_graphs", meaning="slabs and B-trees of indices", where=DI + "btree_dataset.rs")])
prop("C02", "An IndexedBTreeDataset is exactly its set of quads, in every role index",
     "After any sequence of insertions and removals an indexed dataset contains exactly the quads inserted and not removed since. Iteration yields each of them once in increasing order; the resource, subject, predicate, object and named-graph enumerations (and their counts) list exactly the resources used in that role by some remaining quad, each once. Length and membership agree, and insertion and removal report whether they changed the set.",
     ["histories", "inputs"], "all histories of insertions/removals and all equality/ordering relations between the resources involved",
     CONT_WHY + " No test removes from an indexed dataset and then inspects its indexes.", [DI + "indexed_btree_dataset.rs"],
     [("IndexedBTreeDataset::insert/remove and role index maintenance", DI + "indexed_btree_dataset.rs")],
     ["IndexedBTreeDataset::{new,insert,remove,contains,iter,subjects,predicates,objects,named_graphs,graph,default_graph,*_count,len,resources,...}", "slab, raw_btree (compiled dependencies)"],
     CONT_OUT)
prop("C03", "A BTreeGraph is exactly the set of triples its history leaves in it",
     "After any sequence of insertions and removals a B-tree graph contains exactly the triples inserted and not removed since: iteration yields each of them once in increasing order, and length, emptiness, membership and resource membership agree with that set. Insertion and removal report whether they changed the set.",
     ["histories", "inputs"], "all histories of insertions/removals and all equality/ordering relations between the resources involved",
     CONT_WHY, [GI + "btree_graph.rs"], [("BTreeGraph::insert/remove/contains/iter", GI + "btree_graph.rs")],
     ["BTreeGraph::{new,insert,remove,contains,iter,triples,resources,contains_resource,len,is_empty,into_iter}", "slab, raw_btree (compiled dependencies)"], CONT_OUT)
prop("C04", "An IndexedBTreeGraph is exactly its set of triples, in every role index",
     "After any sequence of insertions and removals an indexed graph contains exactly the triples inserted and not removed since. Iteration yields each of them once in increasing order; the resource, subject, predicate and object enumerations (and their counts) list exactly the resources used in that role by some remaining triple, each once. Length and membership agree, and insertion and removal report whether they changed the set.",
     ["histories", "inputs"], "all histories of insertions/removals and all equality/ordering relations between the resources involved",
     CONT_WHY, [GI + "indexed_btree_graph.rs"], [("IndexedBTreeGraph::insert/remove and role index maintenance", GI + "indexed_btree_graph.rs")],
     ["IndexedBTreeGraph::{new,insert,remove,contains,iter,subjects,predicates,objects,*_count,len,resources,...}", "slab, raw_btree (compiled dependencies)"], CONT_OUT)
prop("C05", "Quad pattern matching on datasets returns exactly the matching quads",
     "For any indexed dataset, however it was reached, and any canonical quad pattern, pattern matching yields exactly the quads of the dataset that the pattern accepts, each once. The derived queries (whether it contains a quad, or a resource as subject, predicate, object or named graph; whether a triple is in any graph; the objects of a subject and predicate in a graph; the predicates of a subject in a graph, each once, with their objects) agree with that filter, also on containers that only provide matching; a fallible store's failure is reported, never an answer.",
     ["inputs", "histories"], "all patterns of every shape (any / given / same-as in each position) over all datasets within the bounds",
     "There are 75 pattern shapes, each with its own choice of index, and tests exercise none of them on datasets with removed quads.",
     [DI + "indexed_btree_dataset.rs", DS + "mod.rs", "src/pattern/quad/canonical.rs"],
     [("quad_pattern_matching, Matching::next", DI + "indexed_btree_dataset.rs"), ("derived queries", DS + "mod.rs")],
     ["IndexedBTreeDataset::quad_pattern_matching, PatternMatchingDataset::{contains_*,quad_predicates_objects,quad_objects,...}", "CanonicalQuadPattern"], CONT_OUT)
prop("C06", "Triple pattern matching on graphs returns exactly the matching triples",
     "For any indexed graph, however it was reached, and any canonical triple pattern, pattern matching yields exactly the triples of the graph that the pattern accepts, each once. The derived queries (whether it contains a triple, or a resource as subject, predicate or object; the objects of a subject and predicate; the predicates of a subject, each once, with their objects) agree with that filter, also on containers that only provide matching; a fallible store's failure is reported, never an answer.",
     ["inputs", "histories"], "all patterns of every shape over all graphs within the bounds",
     "Each pattern shape picks its own index; tests exercise none of them on graphs with removed triples.",
     [GI + "indexed_btree_graph.rs", DS + "graph/mod.rs", "src/pattern/triple/canonical.rs"],
     [("triple_pattern_matching", GI + "indexed_btree_graph.rs")],
     ["IndexedBTreeGraph::triple_pattern_matching and the queries derived from it", "CanonicalTriplePattern"], CONT_OUT)
prop("C07", "Matching a pattern with alternatives yields exactly the matching quads",
     "Multi-pattern matching takes a canonical quad pattern whose given components are lists of alternative resources. On any indexed dataset it yields exactly the quads the pattern accepts when a given component is met by any of its alternatives, each once, whatever the order, repetition or number (zero included) of the alternatives and whether or not the dataset knows them.",
     ["inputs", "histories"], "all patterns of every shape, lists of alternatives and datasets within the bounds", "No test calls multi-pattern matching with more than one alternative, a repeated, unknown or empty list.",
     [DI + "indexed_btree_dataset.rs", DS + "mod.rs"], [("multi_pattern_matching, Constraints::new_multi, Matching::next", DI + "indexed_btree_dataset.rs")],
     ["IndexedBTreeDataset::{multi_pattern_matching,quad_multi_pattern_matching}"], CONT_OUT + "; more alternatives per component than stated")
prop("C08", "Extraction and graph removal take out exactly what they report",
     "Draining the quads matching a pattern removes exactly those it yields, each matching, and a fully consumed drain leaves no matching quad and every other quad in place. Removing a graph returns exactly the triples of that graph and leaves every other quad, and dropping a drain midway leaves a consistent dataset.",
     ["histories", "inputs"], "all patterns, datasets and points at which the consumer stops", "Tests do not exercise partially consumed drains or removal after removal.",
     [DI + "indexed_btree_dataset.rs"], [("extract_pattern_matching, remove_graph", DI + "indexed_btree_dataset.rs")],
     ["IndexedBTreeDataset::{extract_pattern_matching,remove_graph}"], CONT_OUT)
prop("C09", "Indexing an existing container preserves its contents and stays maintainable",
     "Building an indexed dataset or graph from a non-indexed one gives the same set, with complete role indexes. Later insertions and removals on the result behave as if it had been indexed from the start.",
     ["histories", "inputs"], "all containers within the bounds, including ones with vacated storage, followed by further operations",
     "Conversion reuses internal storage indices; only containers with removed elements tell a right from a wrong conversion.",
     [DI + "indexed_btree_dataset.rs", GI + "indexed_btree_graph.rs", DI + "btree_dataset.rs"], [("from_non_indexed/into_indexed/From", DI + "indexed_btree_dataset.rs")],
     ["IndexedBTreeDataset::from(BTreeDataset)/into_indexed", "IndexedBTreeGraph::from(BTreeGraph)/into_indexed"], CONT_OUT)
prop("C10", "Container equality, order and hashing depend only on contents",
     "Two containers compare equal exactly when they hold the same elements, whatever histories produced them; the order is total and consistent with equality, and equal containers hash alike. Elements, and plain datasets, of two resource types comparable for equality are equal exactly when their components are. A clone is equal to and independent of its original.",
     ["histories", "inputs"], "all pairs of histories within the bounds", "Equality of containers with different internal storage is only visible for particular histories.",
     [DI + "btree_dataset.rs", DI + "indexed_btree_dataset.rs", GI + "btree_graph.rs", GI + "indexed_btree_graph.rs"],
     [("PartialEq/Ord/Hash/Clone impls", DS)], ["PartialEq/PartialOrd/Ord/Hash/Clone of the four containers"], CONT_OUT)
prop("C11", "A graph seen as a dataset is that graph as default graph",
     "Viewed as a dataset, a graph contains exactly its triples, all in the default graph: traversal, resource enumeration and pattern matching through the dataset interface agree with the graph's own. The fallible interfaces give the same answers, never failing.",
     ["inputs", "histories"], "all graphs and patterns within the bounds", "The view drops the graph component of patterns; only particular graph components reveal a wrong answer.",
     [DS + "graph/mod.rs", "src/utils.rs", DS + "graph/fallible.rs", DS + "fallible.rs"], [("GraphAsDataset and fallible wrappers", DS + "graph")],
     ["GraphAsDataset trait impls, fallible graph/dataset impls"], CONT_OUT)
prop("C12", "A reported isomorphism is a real one",
     "Two datasets are reported isomorphic only if the returned mapping is a bijection between their blank nodes under which the image of the first dataset is exactly the second, named resources being left unchanged.",
     ["inputs"], "all pairs of datasets within the bounds", "The tests compare fixed files; ground quads and named resources next to blank nodes are not covered.",
     [DS + "isomorphism.rs"], [("find_bijection_with", DS + "isomorphism.rs")], ["find_bijection_with, are_isomorphic_with and everything they call", "BTreeDataset traversal"],
     "more quads or blank nodes than stated; several names for one resource")
prop("C13", "Isomorphic datasets are always recognised",
     "If some renaming of blank nodes turns one dataset into the other, an isomorphism is found, whatever the containers, the argument order or the insertion order; the search always terminates. Isomorphism is reflexive and symmetric, and lexical datasets are compared by their own terms.",
     ["inputs", "configurations"], "all datasets and renamings within the bounds", "Backtracking search fails only on particular symmetric structures, which the fixed test files sample.",
     [DS + "isomorphism.rs"], [("find_from_candidates", DS + "isomorphism.rs")], ["find_bijection_with, are_isomorphic_with and everything they call"],
     "more quads or blank nodes than stated; several names for one resource")
prop("C14", "Canonical triple patterns accept the same triples as their sources",
     "Turning a triple pattern with variables, an optional triple or a triple into canonical form preserves exactly the set of triples it accepts: fixed components stay fixed and repeated variables demand equal components.",
     ["inputs"], "all patterns with any coincidence of variables, and all triples", "Every coincidence of variables selects a different variant.",
     ["src/pattern/triple/canonical.rs", "src/pattern/triple/mod.rs", "src/pattern/resource_or_variable.rs"], [("from_pattern/from_option_triple/From", "src/pattern/triple/canonical.rs")],
     ["CanonicalTriplePattern::{from_pattern,from_option_triple,from_triple,...}"], "nothing beyond the sampled universe of 13 values per component (no bound on resources is needed: the code only tests equality)")
prop("C15", "Canonical quad patterns accept the same quads as their sources",
     "Turning a quad pattern with variables, an optional quad or a quad into canonical form preserves exactly the set of quads it accepts: fixed components stay fixed and repeated variables demand equal components, the default graph never equalling a named component.",
     ["inputs"], "all patterns with any coincidence of variables, and all quads", "Every coincidence of variables selects a different variant.",
     ["src/pattern/quad/canonical.rs", "src/pattern/quad/mod.rs"], [("from_pattern/from_option_quad/From", "src/pattern/quad/canonical.rs")],
     ["CanonicalQuadPattern::{from_pattern,from_option_quad,from_quad,from_triple_pattern,...}"], "as C14")
prop("C16", "Canonical pattern accessors reflect what the pattern accepts",
     "The subject, predicate, object and graph constraints reported by a canonical pattern, its parts, its conversion to and from a triple pattern, borrowing, cloning and mapping describe exactly the set of triples or quads the pattern accepts.",
     ["inputs"], "all canonical patterns and all triples or quads", "There are 75 quad and 15 triple variants, each handled by its own accessor arm.",
     ["src/pattern/quad/canonical.rs", "src/pattern/triple/canonical.rs"], [("accessors, into_*, with_any_graph, map, as_ref", "src/pattern")],
     ["CanonicalQuadPattern and CanonicalTriplePattern accessors and conversions, filter_triple"], "as C14")
prop("C17", "Setting a component of a triple pattern only narrows that component",
     "Setting the subject, predicate or object of a canonical triple pattern yields the pattern accepting exactly the triples the old one accepted (its previous fixed value aside) whose component equals the new value, and returns the previous constraint.",
     ["inputs"], "all canonical triple patterns, components, values and triples", "Each variant has its own arm; repeated variables must be propagated.",
     ["src/pattern/triple/canonical.rs"], [("set_subject/set_predicate/set_object", "src/pattern/triple/canonical.rs")],
     ["CanonicalTriplePattern::{set_subject,set_predicate,set_object,with_*}"], "as C14")
prop("C18", "A triple pattern map returns exactly the values of matching patterns",
     "Looking up a triple in a pattern map yields exactly the values associated with a pattern accepting it; inserting reports whether the association is new. The union of two maps answers like both together.",
     ["inputs", "histories"], "all sets of patterns, values and looked-up triples within the bounds", "Nested maps per pattern shape; only particular coincidences reach each of them.",
     ["src/pattern/triple/map.rs"], [("insert/get/union_with", "src/pattern/triple/map.rs")], ["TriplePatternMap and its sub-maps::{insert,get,union_with}", "std HashMap/HashSet (compiled)"], "more than three patterns")
prop("C19", "Triples, quads and patterns have coherent equality, order and hash",
     "Equality of triples and quads, also between components of different types, holds exactly when all components are equal; order is lexicographic, total, and consistent with equality; equal values hash alike. The same consistency holds for patterns and for resource-or-variable values.",
     ["inputs"], "all pairs of values", "Hand-written implementations per type; tests compare a few literals.",
     ["src/triple.rs", "src/quad.rs", "src/pattern"], [("PartialEq/PartialOrd/Hash impls", "src/quad.rs, src/triple.rs")],
     ["PartialEq/Eq/PartialOrd/Ord/Hash of Triple, Quad, GrdfQuad, canonical patterns, ResourceOrVar"], "as C14")
prop("C20", "Triple and quad manipulation keeps every component in place",
     "Accessors, setters, mapping, splitting, borrowing, cloning, and conversions between tuples, triples and quads keep every component in its own position and lose none, the graph included; so do borrowing and owning lexical triples and quads.",
     ["inputs"], "all triples and quads", "Dozens of positional functions over components of one type: a swap compiles and is invisible on symmetric samples.",
     ["src/triple.rs", "src/quad.rs"], [("positional functions", "src/triple.rs, src/quad.rs")], ["Triple and Quad methods and conversions"], "nothing beyond the term layer (C34)")
prop("C21", "Serialising and deserialising a container preserves its contents",
     "Serialising any container and deserialising the result yields an equal container, however the original was built, and deserialising any sequence of elements yields the set of those elements. The same holds for single triples, quads, and resource-or-variable values, and for containers of terms.",
     ["inputs", "histories"], "all containers and sequences within the bounds", "Duplicates, vacated storage and default-graph quads must all survive.",
     [DI + "btree_dataset.rs", DI + "indexed_btree_dataset.rs", DS + "graph"], [("Serialize/Deserialize impls", DS)], ["Serialize/Deserialize of the four containers, Triple, Quad (through serde_json, compiled)"], "formats other than JSON-like self-describing data")
prop("C22", "Building containers in bulk equals inserting one by one",
     "Collecting, extending, or inserting through the generic mutation traits gives the same container as inserting elements one at a time, whatever their order and duplicates; generic traversal agrees with direct iteration, and every count is the length of its enumeration, by default too.",
     ["inputs", "histories"], "all sequences of elements within the bounds", "Duplicates and pre-existing elements in the extended container matter.",
     [DI + "btree_dataset.rs", DI + "indexed_btree_dataset.rs", DS + "mod.rs", DS + "graph"], [("FromIterator/Extend/DatasetMut", DS)], ["FromIterator, Extend, IntoIterator, DatasetMut/GraphMut, Traversable* of the four containers"], CONT_OUT)
prop("C23", "Displaying a container shows each element once, in order",
     "The textual form of a container lists exactly its elements, each once, in order, each as a statement on its own line ending with a dot, terms in RDF syntax.",
     ["inputs", "histories"], "all containers within the bounds", "Vacated storage and default-graph elements must be rendered properly.",
     [DI + "btree_dataset.rs", DI + "indexed_btree_dataset.rs", "src/display.rs"], [("RdfDisplay impls", DS)], ["RdfDisplay of the containers, Triple and Quad"], CONT_OUT)

prop("C35", "Interpretations resolve every term to its own resource",
     "Looking up or inserting a term, local term or identifier, by any method and through the generator wrappers, resolves it by its own kind: the underlying interpretation is asked for, or given, exactly that term once, and its answer is returned. The terms reported for a resource are its IRIs, then its literals, then its blank node identifiers, none lost, and it is anonymous when no IRI or literal denotes it. A new resource takes exactly one generated term, which denotes it from then on; in the transparent interpretations every term denotes itself. The fallible forms agree.",
     ["inputs", "histories"], "all assignments of resources to the terms of the universe, all terms and methods", "The tests use one interpretation, for isomorphism, and no wrapper.",
     ["src/interpretation", "src/term/generator"], [("default methods of the interpretation traits", "src/interpretation/mod.rs"), ("WithGenerator, WithLocalGenerator", "src/interpretation/impl/with_generator.rs"), ("LocalGeneratorInterpretation", "src/term/generator/interpretation.rs")],
     ["Interpretation::term", "InterpretationMut::insert_term", "LocalInterpretation::{local_term,id}", "LocalInterpretationMut::{insert_local_term,insert_id}", "ReverseInterpretation::{terms_of,is_anonymous}", "ReverseLocalInterpretation::local_terms_of", "WithGenerator, WithLocalGenerator, LocalGeneratorInterpretation, ()", "fallible interpretation wrappers"],
     "terms outside a universe of nine with confusable texts; resources known under more than three terms (five in the thorough tier)")

STR_OUT = "longer texts than stated in coverage.bounds, IRIs other than `x:` and one or two characters and language tags other than two letters, but for those of the lists in symx/src/h_text.rs"
STR_WHY = "Tests compare a few literal texts; the rules differ per character class, per variant and per owned/borrowed pairing."
prop("C30", "Blank node identifiers are exactly the labels of the documented grammar",
     "A text is accepted as a blank node identifier if and only if it matches the documented BLANK_NODE_LABEL grammar, by every checked way of making one (borrowed, owned, from a suffix, by parsing, by deserialising). Accepted identifiers keep their text, and rejection gives the text back.",
     ["inputs"], "all texts within the bounds, any Unicode character included", "The grammar has eighteen character ranges with different rules for the first, middle and last character.",
     ["src/blankid.rs"], [("check, BlankId::new, BlankIdBuf::new/from_suffix/from_str/deserialize", "src/blankid.rs")],
     ["BlankId::new", "BlankIdBuf::{new,from_suffix,from_str,deserialize}", "check and the character classes", "core::str::Chars"],
     "texts longer than 9 ASCII bytes (14 in the thorough tier); labels longer than 3 Unicode characters (5)", engine="kani")
prop("C31", "Generated blank node identifiers are numbered, hence never repeat",
     "Each identifier a blank node generator makes is `_:`, its prefix and its current count in decimal, and making one increases the count by exactly one and keeps the prefix, from whatever prefix and offset it started; once the counter is exhausted it fails rather than repeat. An identifier made from a number is `_:` and that number in decimal.",
     ["histories", "inputs"], "all counts within the bounds (every state of the generator is a prefix and a count), all prefixes of up to three ASCII letters", "Tests generate a few identifiers starting from zero.",
     ["src/term/generator/blank.rs", "src/blankid.rs"], [("Blank::next_blank_id/next_local_term/new_full, BlankIdBuf::from_u*", "src/term/generator/blank.rs")],
     ["generator::Blank (all constructors and methods)", "BlankIdBuf::from_u8/u16/u32/u64", "core::fmt integer formatting"],
     "counts of 65536 and above other than around 65536, 10^5, 2^32 and 2^64 - 1; prefixes longer than three letters", engine="kani")
prop("C32", "Terms display as RDF syntax that reads back as the same term",
     "Displayed as RDF, a string is a quoted string that N-Triples reads back as the same string; an IRI is its text between angle brackets; blank node identifiers and language tags are their text. A literal is its string followed by its language tag or its datatype, omitted for xsd:string, borrowed or owned, alone or as a term.",
     ["inputs"], "all texts within the bounds, any Unicode character included", STR_WHY,
     ["src/display.rs", "src/literal", "src/term", "src/blankid.rs"], [("RdfDisplay impls", "src/display.rs")],
     ["RdfDisplay of str, String, Iri, IriRef, IriBuf, BlankId(Buf), LangTag(Buf), LiteralType(Ref), Literal(Ref), Term, LocalTerm; Display of Literal(Ref)", "core::fmt::{write, Formatter}"],
     STR_OUT, engine="kani")
prop("C33", "Literals and their types compare, order, hash and convert coherently",
     "Literals are equal exactly when their values are the same text and their types agree (language tags up to ASCII case); order is antisymmetric and consistent with equality, and equal values hash alike. Owned, borrowed and copy-on-write forms agree, converting between them changes nothing, and accessors report what was put in.",
     ["inputs"], "all pairs of literals and literal types within the bounds, in every owned/borrowed form", STR_WHY,
     ["src/literal"], [("PartialEq/Ord/Hash, as_ref/into_owned/into_cow", "src/literal")],
     ["Literal, LiteralRef, CowLiteral, LiteralType, LiteralTypeRef, CowLiteralType: comparison, hashing, conversions, accessors"], STR_OUT, engine="kani")
prop("C34", "Terms and identifiers compare, order, hash and convert coherently",
     "Two terms (or identifiers) are equal exactly when they are of the same kind (blank node identifier, IRI, literal) with equal contents; order is antisymmetric and consistent with equality, and equal terms hash alike. Owned, borrowed and copy-on-write forms agree, converting between them changes nothing, and queries report the kind and contents put in.",
     ["inputs"], "all pairs of terms within the bounds, in every owned/borrowed form", STR_WHY,
     ["src/term", "src/id", "src/blankid.rs"], [("PartialEq/Ord/Hash, as_ref/to_owned/into_cow, queries", "src/term")],
     ["Term, TermRef, CowTerm, LocalTerm, LocalTermRef, CowLocalTerm, Id, IdRef, CowId, BlankId, BlankIdBuf: comparison, hashing, conversions, queries"], STR_OUT, engine="kani")

NA = {}
KANI = "bounded model checking of the compiled rdf-types code with Kani (CBMC, SAT), all bytes of the texts involved symbolic"
TECHNIQUE = {"symx": SYMX, "kani": KANI}
LEVEL_NOTE = {
    "kani": "Kani translates the compiled MIR of the harness, rdf-types and the standard library to CBMC, which decides all assertions, panics, memory errors and unwinding bounds for every value of the symbolic bytes. Trusts rustc, Kani/CBMC, the reference functions in kani/src/harnesses.rs, and the stand-ins listed in the evidence. Counterexamples are replayed natively before being reported.",
    "symx": "Every path of the harness through the real compiled code within the stated bounds is explored; branch feasibility and assertions are Z3 verdicts over all values. Trusts rustc, Z3, the symbolic resource type's Eq/Ord/Hash, and the reference specification in symx/src/spec.rs. Counterexamples are replayed natively before being reported.",
}
