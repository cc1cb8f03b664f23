prop("C01", "String types accept exactly the strings of the RFC 3986/3987 grammar",
 "For every string (or byte sequence) and each of the six kinds (full, absolute, relative, reference, query, fragment) in both the URI and the IRI repertoire, construction succeeds exactly when RFC 3986 respectively RFC 3987 derives it for that kind. Every way of constructing a value (borrowed, owned, from bytes, by parsing) gives the same verdict, an accepted value is the text unchanged, and a rejected owned construction hands back its source.",
 ["inputs"], "all strings and byte sequences, for 6 kinds x 2 repertoires",
 "The tests check lists of a few hundred hand-picked strings; the grammar has an unbounded language with many boundary characters (IPv6 forms, ucschar/iprivate edges, percent triplets, first-segment rules).",
 ["src/parser/validate.rs", "src/parser/validate/authority.rs", "src/parser/validate/path.rs", "src/parser/char.rs", "src/types/generic/macros.rs"],
 [("hand-written validators", "src/parser/validate.rs, src/parser/validate/*.rs"), ("character tables", "src/parser/char.rs"), ("constructors of all types", "src/types/generic/macros.rs")],
 technique="property-based testing against an ABNF-interpreting reference recognizer",
 note="Differential against an interpreter of the RFC's own ABNF text: exhaustive over short strings of a 14-symbol alphabet, then generated strings of up to 2^16 bytes. Trusts the ABNF transcription and interpreter.")
prop("C02", "Component validators accept exactly the RFC 3986/3987 component grammar",
 "For every string, each public validation function for a URI/IRI or for one of its components (scheme, authority, userinfo, host, registered name, IP addresses, port, path forms, path segment forms, query, fragment) succeeds exactly when the corresponding rule of RFC 3986/3987 derives it (a registered name additionally must not be an IPv4 address). No such call panics.",
 ["inputs"], "all strings, for every public validator in both repertoires",
 "The component validators have few tests; IPv6 forms, octet ranges, percent triplets and character edges are unbounded.",
 ["src/validate.rs", "src/parser/validate/authority.rs", "src/parser/validate/path.rs", "src/parser/char.rs"],
 [("component validators", "src/validate.rs"), ("authority, host and IP grammar", "src/parser/validate/authority.rs"), ("path grammar", "src/parser/validate/path.rs")],
 technique="property-based testing against an ABNF-interpreting reference recognizer",
 note="Differential against the RFC ABNF interpreter, exhaustive over short strings per component plus generated ones. Trusts the ABNF transcription.")
prop("C03", "Component access decomposes every reference losslessly per RFC 3986",
 "For every valid reference of every kind, the reported scheme, authority, path, query and fragment are exactly those of the RFC 3986 Appendix B decomposition, putting them back together yields the original text, and the same component read through any type (reference, full, absolute, relative, owned or borrowed) is the same. The authority is split into userinfo, host and port exactly per the RFC grammar, a registered name is reported exactly when the host is not an IP address, and splitting off, removing or setting the fragment changes nothing else.",
 ["inputs"], "all valid references of all kinds, in both repertoires",
 "Tests cover a fixed table of references; component boundaries depend on the presence, emptiness and content of every other component.",
 ["src/parser/trusted.rs", "src/parser/trusted/authority.rs", "src/components.rs", "src/components/authority.rs", "src/types/generic/reference.rs", "src/types/generic/normal.rs", "src/types/generic/absolute.rs", "src/types/generic/relative.rs", "src/raw.rs"],
 [("trusted decomposition of validated strings", "src/parser/trusted.rs"), ("authority components", "src/components/authority.rs, src/parser/trusted/authority.rs"), ("fragment splitting and setting", "src/types/generic/normal.rs, src/raw.rs")],
 technique="property-based testing against the RFC 3986 Appendix B decomposition",
 note="Differential against an independent implementation of Appendix B and of the authority grammar, with a round trip.")
prop("C04", "Reference resolution gives the target of RFC 3986 section 5 and stays valid",
 "For every base and every reference, resolving yields the target of RFC 3986 section 5.2 (with percent-encoded dots treated as dots in dot segments and a path that would be taken for an authority written with a leading `/.`), and the result is always a valid IRI/URI. Resolving through a resolver reused for many references, from a reference or from a base, and with normalization requested, agree with each other.",
 ["inputs", "histories"], "all pairs of base and reference; sequences of references resolved against one resolver",
 "Tests cover RFC section 5.4 examples and some extensions, while merge and dot-segment removal combine every shape of the two paths.",
 ["src/resolve.rs", "src/normalize.rs", "src/normalize/path.rs", "src/types/generic/reference.rs"],
 [("resolution algorithm", "src/resolve.rs"), ("path merge and dot-segment removal", "src/normalize/path.rs"), ("serialization", "src/normalize.rs")],
 technique="property-based testing against a literal model of RFC 3986 section 5.2",
 note="Differential against a direct transcription of RFC 3986 5.2 (parse, merge, remove_dot_segments), exhaustive over small segment sequences for both paths, then random pairs; validity by the ABNF interpreter.")
prop("C05", "Normalization is exactly RFC 3986 syntax-based normalization",
 "For every IRI/URI, normalization applies case normalization, percent-encoding normalization and dot-segment removal of RFC 3986 section 6.2.2 plus removal of an empty port, and nothing else; the variant that preserves a relative path without authority leaves the segments of such a path in place. The result is always a valid, equivalent IRI/URI of the same kind and normalizing it again changes nothing.",
 ["inputs"], "all IRIs/URIs, in both variants and repertoires",
 "Tests hold a table of some dozens of normalization pairs; idempotence and validity are claims about every input.",
 ["src/normalize.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs", "src/parser/str/maybe_pct_encoded.rs"],
 [("normalization of components", "src/normalize.rs"), ("path normalization", "src/normalize/path.rs"), ("percent-encoding and case", "src/normalize/pct_case.rs")],
 technique="property-based testing against a reference normalizer, plus metamorphic idempotence",
 note="Differential against an independent normalizer, idempotence and validity on every case; exhaustive over small paths.")
prop("C06", "Normalizedness predicates agree with what normalization does",
 "For every IRI/URI, the plain and the path-preserving normalizedness test answer yes exactly when the corresponding normalization leaves the text unchanged. Normalization is reported as impossible under RFC 3986 exactly when the dot-free path would be mistaken for an authority, consistently by the value itself, by its normalization and by the result of resolution and of building; the RFC-only normalizedness test is the conjunction of the two.",
 ["inputs"], "all IRIs/URIs in both repertoires",
 "The predicates are decided by separate code from the normalizer, so agreement on every input needs search, not a table.",
 ["src/parser/trusted.rs", "src/normalize.rs", "src/normalize/path.rs", "src/parser/trusted/authority.rs", "src/types/generic/normal.rs", "src/types/generic/absolute.rs"],
 [("normalizedness predicate", "src/parser/trusted.rs"), ("normalizability", "src/normalize.rs, src/normalize/path.rs")],
 technique="property-based testing: predicate vs. operation consistency",
 note="Predicate and operation compared on every generated case, exhaustive over small IRIs.")
prop("C07", "Conversion of IRIs to URIs percent-encodes exactly the non-ASCII characters",
 "For every IRI, reference, query or fragment, conversion to the URI counterpart replaces each non-ASCII character by the percent-encoded bytes of its UTF-8 form and changes nothing else; the result is a valid URI of the same kind, decodes back to the original characters, and all conversion routes (borrowed, inline, owned) agree. Viewing an IRI as a URI without conversion succeeds exactly when it is ASCII only, and every URI is an IRI with the same text.",
 ["inputs"], "all IRI-repertoire values of six kinds",
 "Tests sample a few non-ASCII strings; the claim is for every character and position.",
 ["src/convert.rs", "src/types/iri.rs", "src/types/uri.rs"],
 [("mapping to URI", "src/convert.rs"), ("inline and owned conversion", "src/types/iri.rs")],
 technique="property-based testing against a one-line reference encoder",
 note="Differential and round trip on generated IRIs of all kinds, every ucschar/iprivate plane edge included.")
prop("C08", "Percent-encoding makes any text a valid component and preserves it",
 "For every input text, percent-encoding for a given context (registered name, user, password, path segment, path, query, fragment, unreserved, characters) leaves exactly the characters that RFC 3986/3987 allows to stand for themselves in that context and encodes every other one as uppercase percent-encoded UTF-8. The result is a valid component for its context and decoding it gives back the input.",
 ["inputs"], "all Unicode strings, 9 contexts, both repertoires",
 "Tests sample one or two strings per context; the sets have 1.1 million characters each.",
 ["src/percent_encode.rs", "src/parser/char.rs"],
 [("contexts and encoder", "src/percent_encode.rs"), ("character classes", "src/parser/char.rs")],
 technique="exhaustive per-character enumeration plus property-based testing",
 note="Every Unicode scalar value is enumerated in every context and repertoire; strings are generated. The per-context character sets are written from the RFC.")
prop("C09", "Percent-decoding decodes exactly the percent triplets and nothing else",
 "For every byte sequence, percent-decoding replaces each `%` followed by two hexadecimal digits by that byte and keeps every other byte, a stray `%` included. All views of the decoder (fragments, borrowed or owned bytes, string) agree, it reports that nothing needs decoding exactly when that is so, and the string view fails exactly when the decoded bytes are not UTF-8, giving back those bytes.",
 ["inputs"], "all byte sequences",
 "Tests sample a few strings; stray and truncated percent signs can occur at any place and combination.",
 ["src/percent_encode/decode.rs"],
 [("WHATWG percent decoder", "src/percent_encode/decode.rs")],
 technique="property-based testing against a byte-wise reference decoder",
 note="Differential on generated and exhaustively enumerated short byte sequences.")
prop("C10", "The builder produces exactly the composition of its components, or an error",
 "For every assignment of components, building succeeds exactly when the components are each valid, their composition is a valid value of the requested kind and parses back into the same components, and then yields exactly that composition; with normalization requested the result equals the normalization of the composed reference (a path that would then be mistaken for an authority gets a leading `/.`). The outcome depends only on the last assignment of each component, not on the order or history of setter calls, and building from the components of an existing reference gives it back.",
 ["inputs", "histories"], "all sequences of setter and reset calls with all component texts; four kinds, both repertoires",
 "Tests cover a table of builds; the paths between setting, unsetting, normalization and each component's validity are combinatorial.",
 ["src/build.rs", "src/normalize/path.rs", "src/normalize.rs"],
 [("builder and its validation", "src/build.rs"), ("path normalization on building", "src/normalize/path.rs")],
 technique="stateful property-based testing against a model builder",
 note="Random setter histories against a model that keeps the last assignment, composes, and judges by the ABNF interpreter and the normalization model.")
prop("C11", "Password masking never shows the password and changes nothing else",
 "For every reference, the masked form removes the whole password (everything after the first colon of the userinfo) and nothing else, or replaces exactly it by the given text, and is a valid reference when masking or when removing. In-place removal on owned values gives the same text as specified (with or without the colon), and values without a password are unchanged.",
 ["inputs"], "all references with and without userinfo of all kinds, in both repertoires",
 "Leaks would occur for unusual placements of colons and at-signs that a table of examples does not cover.",
 ["src/mask_password.rs", "src/parser/trusted/authority.rs", "src/types/generic/reference.rs", "src/types/generic/normal.rs", "src/types/generic/absolute.rs", "src/types/generic/relative.rs"],
 [("password range and masking", "src/mask_password.rs"), ("in-place removal", "src/types/generic/*.rs, src/mask_password.rs")],
 technique="property-based testing against a reference masking function",
 note="Differential on generated references, with the userinfo generator rich in colons and percent triplets.")
prop("C12", "Conversions between types keep the text and succeed exactly when valid",
 "For every value, widening conversions (absolute to full to reference, relative to reference, URI to IRI; borrowed and owned) keep the text, and narrowing conversions succeed exactly when the text is valid for the target type, keeping the text, and hand back the unchanged value otherwise. Conversions to and from boxes, shared pointers, copy-on-write values and raw strings keep the text too.",
 ["inputs"], "all values of all twelve types, over the whole conversion graph",
 "The graph has hundreds of conversions produced by macros; the tests touch few.",
 ["src/types/generic/macros.rs", "src/types/generic/reference.rs", "src/types/generic/normal.rs", "src/types/generic/absolute.rs", "src/types/generic/relative.rs", "src/types/iri.rs", "src/types/uri.rs"],
 [("conversion macros", "src/types/generic/macros.rs"), ("hand-written narrowing conversions", "src/types/generic/*.rs")],
 technique="property-based testing against the reference recognizer",
 note="Every conversion exercised on every generated text; narrowing verdicts by the ABNF interpreter.")
prop("C13", "In-place mutation of owned values keeps them valid and changes one component",
 "For every history of mutations on an owned value (set or remove the fragment, remove the password, replace the host or registered name, convert to URI in place, trim capacity, convert between types), the value after each step is exactly the value with the requested component changed and every other component intact, and is valid for its type. A failed or fallible operation that reports an error leaves the value unchanged.",
 ["histories"], "all sequences of mutations on owned values of four kinds in both repertoires",
 "In-place splicing depends on lengths and buffer capacity reached by previous steps; tests apply one step to fresh values.",
 ["src/types/generic/normal.rs", "src/types/generic/absolute.rs", "src/types/generic/relative.rs", "src/types/generic/reference.rs", "src/raw.rs", "src/mask_password.rs", "src/types/iri.rs"],
 [("in-place replacement of ranges", "src/types/generic/*.rs, src/raw.rs"), ("in-place encoding", "src/convert.rs, src/types/iri.rs")],
 state=[{"name": "text of the owned value", "meaning": "must equal the model's recomposed components", "where": "src/types/generic/macros.rs"}],
 technique="stateful property-based testing against a component model",
 note="Random histories of up to 12 operations against a model of five components; validity by the ABNF interpreter after each step.")
prop("C14", "URI templates are accepted exactly when RFC 6570 allows them",
 "For every string, a URI template (and a variable name) is accepted exactly when the RFC 6570 grammar derives it, literals being restricted to ASCII, with the same verdict for borrowed and owned values; a template made from a literal expands to that literal. Validation never panics.",
 ["inputs"], "all strings",
 "Tests hold some dozens of templates; the syntax of expressions, modifiers and percent triplets is unbounded.",
 ["src/template/parser/validate.rs", "src/template/parser/char.rs", "src/template/string.rs", "src/template/string/owned.rs", "src/template/components.rs"],
 [("template validator", "src/template/parser/validate.rs"), ("character tables", "src/template/parser/char.rs")],
 technique="property-based testing against an ABNF-interpreting reference recognizer",
 note="Differential against the RFC 6570 ABNF (with ASCII literals), exhaustive over short strings.")
prop("C15", "Template expansion gives the result of RFC 6570 for every template and context",
 "For every valid template and every assignment of undefined, string, list and associative values, expansion gives exactly the result of the RFC 6570 expansion algorithm (with non-ASCII characters kept where the IRI repertoire allows them), fails exactly when a prefix modifier meets a composite value, and never panics. Static and dynamic contexts, and values formatted in one piece or in many, give the same result.",
 ["inputs", "configurations"], "all templates x all contexts, both repertoires, static and dynamic contexts",
 "The RFC example tables are tested, but operators, modifiers, value kinds and character classes multiply without bound.",
 ["src/template/expand.rs", "src/template/components.rs", "src/template/value.rs", "src/template/context.rs", "src/percent_encode.rs", "src/parser/str/maybe_pct_encoded.rs"],
 [("expansion of expressions", "src/template/expand.rs"), ("operator table", "src/template/components.rs, src/template/expand.rs"), ("reserved expansion", "src/parser/str/maybe_pct_encoded.rs")],
 technique="property-based testing against a reference expander",
 note="Differential against an independent RFC 6570 expander over generated templates and contexts, and values displayed in random chunks.")
prop("C16", "Templates report their variables in order, and visit each exactly when expanding",
 "For every valid template, iterating its variables yields the variable names of its expressions in order of appearance with duplicates, without modifiers, and each is a valid variable name. Expansion asks the context for precisely these variables in this order, and a dynamic context is told about the start and end of each expansion exactly once, also when it fails.",
 ["inputs", "histories"], "all valid templates; the history of context callbacks of each expansion",
 "Tests look at a few templates; the callback history depends on the shape of each template and on failures midway.",
 ["src/template/string.rs", "src/template/expand.rs", "src/template/context.rs", "src/template/components.rs"],
 [("variable iterator", "src/template/string.rs"), ("callbacks", "src/template/expand.rs")],
 technique="property-based testing over recorded callback histories",
 note="Callback histories recorded by an instrumented context and compared with the variables read off the template text by the reference parser.")
prop("C17", "The template context behaves as a map",
 "For every history of insertions, clearings, clones and lookups, a simple template context behaves as a map from variable name to value: an insertion returns the value it replaces, a lookup returns the last inserted one, inserting the undefined value removes, names that are not variable names are never stored, clones are independent, and expansion sees exactly the current entries.",
 ["histories"], "all histories of context operations",
 "Tests use insertion only.",
 ["src/template/simple_context.rs", "src/template/context.rs"],
 [("map wrapper", "src/template/simple_context.rs")],
 technique="stateful property-based testing against a map",
 note="Random histories against a BTreeMap model.")
prop("C18", "Equality, order and hash are those of the text, across all types",
 "For every pair of values, equality, ordering and hashing coincide with those of their texts, whichever types the two values have (strings, borrowed, owned, copy-on-write; same or comparable kinds). Values can therefore be found in hashed and ordered collections by their borrowed forms.",
 ["inputs"], "all pairs of values over all comparable pairs of types",
 "Hundreds of comparison implementations are generated by macros; tests use few.",
 ["src/types/generic/macros.rs", "src/types/generic.rs", "src/template/string.rs", "src/template/string/owned.rs"],
 [("comparison macros", "src/types/generic/macros.rs")],
 technique="property-based testing: agreement with string comparison",
 note="All comparison implementations on generated pairs that often share prefixes.")
prop("C19", "Serialization round-trips and deserialization validates",
 "For every value of every type, serializing gives its text as a string and deserializing that gives the equal value. For every string, deserializing as a type succeeds exactly when the string is valid for that type, borrowed and owned alike.",
 ["inputs"], "all strings, all types",
 "Tests sample one or two values per type.",
 ["src/types/generic/macros.rs", "src/template/string.rs", "src/template/string/owned.rs"],
 [("serde implementations", "src/types/generic/macros.rs")],
 technique="property-based testing: round trip and agreement with the reference recognizer",
 note="JSON, in-memory and non-self-describing binary formats; verdicts by the ABNF interpreter.")
prop("C20", "Fallible formatting writes the whole text or reports an error",
 "For every displayable result (resolution, normalization, masking, encoding, expansion, build), writing to a buffer succeeds exactly when the text fits, then yields the same text as ordinary formatting, and never writes outside the buffer; appending to a string or writing to a failing sink keeps what was there and reports the sink's error. Formatting the same value twice gives the same text.",
 ["inputs", "fault_sequences"], "all displayable results x all buffer sizes and failure points of the sink",
 "Tests format into sufficient buffers; here the sink fails at every byte.",
 ["src/format.rs", "src/normalize.rs", "src/resolve.rs", "src/mask_password.rs", "src/convert.rs", "src/percent_encode.rs", "src/template/expand.rs", "src/build.rs"],
 [("fallible formatting helpers", "src/format.rs")],
 technique="property-based testing with injected sink failures",
 note="Every buffer size from 0 to the length of the text for each generated value.")
prop("C21", "Results do not depend on the build configuration",
 "For every input, acceptance, component access, resolution, normalization, conversion, building and template expansion give the same results whichever of the optional features (allocation, standard library, faster byte search, serialization) and optimization levels the crate is built with. The crate builds in each of them.",
 ["configurations", "inputs"], "all feature sets x all inputs",
 "Tests run in one or two configurations and compare nothing across them.",
 ["src/parser/str.rs", "src/format.rs", "src/lib.rs", "src/build.rs", "src/template/expand.rs"],
 [("feature-dependent byte search", "src/parser/str.rs"), ("no-allocation implementations", "src/format.rs, src/normalize.rs")],
 technique="differential property-based testing across build configurations",
 note="The same generated inputs run through programs built in several feature sets and profiles; their transcripts must be identical.")
prop("C22", "Fallible operations report allocation failures and leave values intact",
 "For every value and every allocation that an operation documented as fallible (the `try_*` conversions, formatting, mutation and expansion functions) makes, a failure of that allocation is reported as an error instead of ending the program, and the value worked on is then unchanged; an operation that succeeds although an allocation failed gives the right result.",
 ["inputs", "fault_sequences"], "all fallible operations x all values x every allocation failing, alone or with all later ones",
 "Tests never fail an allocation; each operation makes several, depending on the shape of the value.",
 ["src/format.rs", "src/raw.rs", "src/mask_password.rs", "src/types/iri.rs", "src/types/generic/macros.rs", "src/types/generic/normal.rs", "src/convert.rs", "src/normalize.rs"],
 [("fallible formatting", "src/format.rs"), ("fallible mutation", "src/raw.rs, src/types/generic/*.rs"), ("dedicated strings", "src/format.rs and the ToDedicatedString implementations")],
 technique="property-based testing with injected allocation failures",
 note="Every single allocation of every operation fails in turn, for generated values, in a process of its own under an instrumented allocator.")
prop("C23", "Safe operations never misuse memory, leak, or hand out broken text",
 "For every input and every sequence of safe operations (construction, conversion to and from boxed, shared and copy-on-write values, change in place with any spare capacity, resolution, normalization, expansion, and dropping in any order), no memory is accessed, freed or reinterpreted against the rules, everything allocated is freed, and every text obtained is UTF-8 and repeatable.",
 ["inputs", "histories"], "all inputs x all safe operations on them, whatever the capacity and the order of drops",
 "The crate relies on unchecked conversions and pointer casts in many places; their misuse often shows in no test result.",
 ["src/types/generic/macros.rs", "src/types/generic/normal.rs", "src/types/generic/reference.rs", "src/template/string.rs", "src/template/string/owned.rs", "src/convert.rs", "src/raw.rs", "src/mask_password.rs"],
 [("unchecked conversions and pointer casts", "src/types/generic/macros.rs, src/template/string.rs, src/template/string/owned.rs"), ("changes in place", "src/raw.rs, src/mask_password.rs, src/types/iri.rs")],
 technique="property-based testing under a checking allocator, the address sanitizer and Miri",
 note="Generated requests run a program that does everything with the text in three instrumented builds; Miri sees about 1 in 100 cases (short ones).")
prop("C24", "No heap where none is documented; parts and conversions share memory",
 "For every input, validation, construction, component access, normalization tests, and the output of normalization, resolution, masking, replacing, mapping, encoding, building and expansion into a caller's buffer allocate nothing; every component is a view into the text it belongs to; and every conversion between string types, including the fallible ones when they refuse, keeps the text's memory and allocates nothing.",
 ["inputs"], "all inputs x all operations documented as cheap or free of allocation",
 "Allocation and sharing of memory do not show in results; they may depend on the shape of the input.",
 ["src/types.rs", "src/types/generic/macros.rs", "src/types/generic/normal.rs", "src/types/generic/reference.rs", "src/types/iri.rs", "src/normalize.rs", "src/resolve.rs", "src/mask_password.rs", "src/percent_encode.rs", "src/percent_encode/decode.rs", "src/template/expand.rs"],
 [("safe and cheap conversions", "src/types/generic/macros.rs, src/types/iri.rs"), ("is_normalized* without heap allocation", "src/types/generic/normal.rs"), ("lazy output", "src/normalize.rs, src/mask_password.rs, src/convert.rs, src/percent_encode.rs, src/template/expand.rs")],
 technique="property-based testing under a counting allocator",
 note="Generated texts, bases, templates and values; every operation runs under an allocator that counts, and addresses of parts and converted values are compared.")
