#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here so that they can be edited and re-validated in one place."""
import json, os
M = "rust/pact_models/src/"
X = "rust/pact_matching/src/"
V = "rust/pact_verifier/src/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": state or [], "observe_at": observe or [], "hook_needed": hook},
    })

p("C01", "Pact files survive a load/save round trip",
  "Loading a pact document of any specification version and writing it back at that version gives a document with the same consumer, provider and interactions: every method, path, query, header, body, status, metadata entry, provider state, comment, key, pending flag, transport, matching rule and generator is kept, and nothing is invented. Loading what was written gives an equal pact, and writing that again gives the identical document.",
  ["inputs"], "for every well-formed pact document (V1 to V4; HTTP, message and synchronous-message interactions, with every optional attribute present or absent)",
  "The unit tests load a dozen fixed documents and compare selected fields; the combinations of version, interaction type and optional attributes are not sampled together, and nothing checks that writing is the inverse of loading.",
  [M+"pact.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", M+"v4/http_parts.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"sync_interaction.rs", M+"message.rs", M+"request.rs", M+"response.rs"],
  [("load_pact_from_json", M+"pact.rs"), ("V4 interaction readers", M+"v4/interaction.rs"), ("to_json of each pact/interaction type", M+"v4/pact.rs")],
  ["pact_models::pact::load_pact_from_json", "Pact::to_json", "PartialEq of the loaded pacts"])

p("C02", "Loading never crashes, whatever the JSON document contains",
  "Reading any syntactically valid JSON document as a pact either gives a pact or reports an error; it never aborts the program. The same holds for everything a user can then do with the loaded pact: writing it at any version, converting it, comparing it, listing and displaying its interactions.",
  ["inputs"], "for every pact document with any node replaced by, or extended with, a JSON value of any other type or an extreme value",
  "Tests only load well-formed documents and a few hand-picked malformed ones; crashes need a particular wrong type or extreme value at one particular place.",
  [M+"pact.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", M+"json_utils.rs", M+"matchingrules/mod.rs", M+"generators/mod.rs", M+"provider_states.rs", M+"headers.rs", M+"response.rs", M+"v4/http_parts.rs", M+"plugins.rs"],
  [("typed accessors on JSON values with defaults", M+"json_utils.rs"), ("Result-returning readers", M+"v4/interaction.rs")],
  ["load_pact_from_json", "verify_json", "as_v4_pact", "as_request_response_pact", "as_message_pact"])

p("C03", "Merging pacts keeps every interaction exactly once",
  "Merging two pacts for the same consumer and provider gives a pact that contains every interaction of both and no interaction twice; merging a pact into itself, or merging the same pact a second time, changes nothing, whatever order the interactions are in. Merging pacts for different consumers or providers, or V2/V3 pacts that have the same description and provider states but a different method, path, query or status, is reported as an error, never silently resolved.",
  ["histories", "inputs"], "for every sequence of merges of small pacts (all interaction lists over a fixed set of distinct and conflicting interactions, in every order)",
  "Tests merge single-interaction pacts in one order; duplication and loss need at least two interactions in a particular relative order.",
  [M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", M+"interaction.rs", M+"sync_interaction.rs", M+"v4/interaction.rs", M+"iterator_utils.rs"],
  [("merge_join_by over the two interaction lists", M+"v4/pact.rs"), ("conflicts_with", M+"sync_interaction.rs")],
  ["ReadWritePact::merge"])

p("C04", "Concurrent writers and crashes never lose or corrupt a pact file",
  "When several writers record interactions in the same pact file, the file ends up containing the interactions of every writer that reported success, and a reader never sees anything but a complete pact. If a writer dies at any point, the file is still a complete pact: either as it was before or with that writer's interactions added.",
  ["schedules", "crash_points"], "for every interleaving of the file operations of two writers or a writer and a reader, and every point at which a writer can die, including part-way through a write",
  "The tests write files from one thread to completion; lost updates and torn files need a second process or a crash between two particular file operations.",
  [M+"pact.rs", M+"file_utils.rs"],
  [("write_pact", M+"pact.rs"), ("with_read_lock / with_write_lock", M+"file_utils.rs")],
  ["pact_models::pact::write_pact", "the file system"])

p("C05", "Converting between specification versions keeps the contract",
  "Converting a V1-V3 pact or interaction to the V4 form and back gives the original: description, provider states, method, path, query, headers, body, status, metadata, matching rules and generators. A V4 pact whose interactions are all expressible in the older form is written at that form without losing any of those; interactions that are not expressible are reported as an error when it is written, not dropped.",
  ["inputs"], "for every small pact of each specification version and interaction type, with every optional attribute present or absent",
  "Tests convert a few samples and compare one or two attributes.",
  [M+"sync_interaction.rs", M+"message.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/http_parts.rs", M+"request.rs", M+"response.rs"],
  [("as_v4 / as_request_response / as_message", M+"interaction.rs"), ("as_v3_request / as_v4_request", M+"v4/http_parts.rs")],
  ["Interaction::as_v4", "V4Interaction::as_request_response", "Pact::as_v4_pact", "Pact::to_json"])

p("C06", "Equality, hashes and interaction keys are consistent and stable",
  "Values that are equal have equal hashes, and the hash and generated key of an interaction depend only on its content: they are the same in every process and for every internal map ordering, and attribute order in the source document does not matter. Two interactions or parts of them that differ in any part of their contract (method, path, query, header, body, status, metadata, rule or generator) are not equal.",
  ["inputs", "schedules"], "for every pair of small model values and every iteration order of the hash maps they hold",
  "Map iteration order is random per process, so a test sees one order per run; the pairs that collide are not the ones sampled.",
  [M+"matchingrules/mod.rs", M+"generators/mod.rs", M+"provider_states.rs", M+"v4/http_parts.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"v4/synch_http.rs", M+"v4/message_parts.rs", M+"v4/interaction.rs", M+"bodies.rs"],
  [("Hash/PartialEq implementations", M+"matchingrules/mod.rs"), ("unique_key", M+"v4/interaction.rs")],
  ["Hash::hash", "PartialEq::eq", "V4Interaction::unique_key", "V4Interaction::with_unique_key"])

p("C07", "Body bytes survive the pact file whatever the content type",
  "A body stored in a request, response or message keeps exactly the same bytes, presence state (missing, empty or present) and content type when it is written to a V4 pact document and read back, for any bytes and any content type; a JSON body keeps the same JSON document (its layout and key order are not kept), a body without a content type is the same as one of unknown type `*/*` or of the type the headers, metadata or contents say, a present body without bytes is the same as an empty one, and a null body is written as no body. A body in a document is decoded exactly as its content type and encoding attributes say.",
  ["inputs"], "for every short byte string over an alphabet of text, JSON, XML, invalid UTF-8 and control bytes, with every content type and encoding attribute",
  "Tests use a handful of bodies per content type; JSON-looking text, invalid UTF-8 and base64-looking strings are not combined with each type and encoding.",
  [M+"bodies.rs", M+"v4/http_parts.rs", M+"v4/mod.rs", M+"json_utils.rs", M+"content_types.rs", M+"v4/message_parts.rs"],
  [("OptionalBody::to_v4_json", M+"bodies.rs"), ("body_from_json", M+"v4/http_parts.rs")],
  ["HttpRequest::to_json/from_json", "HttpResponse::to_json/from_json", "MessageContents::to_json/from_json"])

p("C08", "Content types parse, print, compare and classify consistently",
  "A content type (whose attributes have values) that parses prints back to a string that parses to the same type, sub-type, suffix and attributes; attribute order does not affect the printed form or the hash, and equal values print the same. Whether it is JSON, XML, text, binary, form data or unknown follows only from its type, sub-type and suffix, and removing attributes or reducing to the base type never changes the main classification; detection of a body's type depends only on its leading bytes as documented.",
  ["inputs"], "for every content type string over an alphabet of types, sub-types, suffixes and attributes, and every short body prefix",
  "Tests classify a fixed list of strings; combinations of suffix, attributes and case are not covered.",
  [M+"content_types.rs"],
  [("ContentType::parse / Display", M+"content_types.rs"), ("detect_content_type_from_bytes", M+"content_types.rs")],
  ["ContentType::parse", "ContentType::is_json/is_xml/is_text/is_binary", "detect_content_type_from_string"])

p("C09", "Query strings round trip through encoding and decoding",
  "Decoding an encoded query gives back exactly the same parameters, the same values of each in the same order, and the same distinction between an empty and an absent value, for all text. Decoding is total: it turns any string into a query or nothing without failing, and standard percent-encoding (UTF-8) is understood.",
  ["inputs"], "for every query map with up to two names and three values over an alphabet with reserved, space, percent, plus and non-ASCII characters; every short raw query string",
  "Tests decode a dozen ASCII strings; the escaping rules interact with each character class and position.",
  [M+"query_strings.rs", M+"request.rs"],
  [("parse_query_string", M+"query_strings.rs"), ("build_query_string", M+"query_strings.rs")],
  ["parse_query_string", "build_query_string", "query_to_json / query_from_json"])

p("C10", "Path expressions print and parse losslessly",
  "Every path expression that can be built, from any field names (including quotes, brackets, dots, spaces and non-ASCII text), indexes and wildcards, prints to a string that parses to the same expression. Parsing is total: any string gives either an expression or an error, and the expression printed from a parsed string is equivalent to it.",
  ["inputs"], "for every token sequence up to a length over an alphabet of names, indexes and wildcards; every short string over the expression characters",
  "Tests parse a fixed list; names that need escaping and long or odd indexes are rare there.",
  [M+"path_exp.rs"],
  [("path_exp tokenizer", M+"path_exp.rs"), ("DocPath Display", M+"path_exp.rs")],
  ["DocPath::new", "DocPath::to_string", "DocPath::push_field/push_index/push_star/push_star_index/join/parent"])

p("C11", "Path expressions match exactly the paths they denote",
  "A path expression matches a concrete path exactly when each of its tokens denotes the element at that position (a name or index denotes itself, a wildcard any one element, an index wildcard any index); a prefix match is reported only where the documented cascade applies. The specificity used to rank expressions is zero exactly for those that do not match, and otherwise a more specific token at any position outranks a wildcard there.",
  ["inputs"], "for every expression and concrete path up to a length over an alphabet of names, numeric names, indexes and wildcards",
  "Tests compare a few dozen expression/path pairs.",
  [M+"path_exp.rs"],
  [("DocPath::path_weight", M+"path_exp.rs"), ("matches_path / matches_path_exactly", M+"path_exp.rs")],
  ["DocPath::matches_path", "DocPath::matches_path_exactly", "DocPath::path_weight", "DocPath::is_wildcard"])

p("C12", "Matching rules survive serialisation in every version's format",
  "A set of matching rules written in the V3 or V4 format and read back gives the same rules in the same categories and paths, with the same AND/OR logic, for every kind of rule with every parameter; rules expressible in the V2 format survive that format too. A rule definition in a document is read as exactly the rule it names, and an invalid definition is reported, not replaced by a different rule.",
  ["inputs"], "for every kind of rule with boundary parameters, every category, path shape, rule combination and logic, singly and in pairs",
  "Tests round trip single rules of some kinds; combinations of category, path shape and kind are not covered.",
  [M+"matchingrules/mod.rs"],
  [("MatchingRules::to_v3_json / load_from_v3_map / matchers_to_json / matchers_from_json", M+"matchingrules/mod.rs")],
  ["matchers_to_json", "matchers_from_json", "MatchingRule::to_json/from_json/create"])

p("C13", "The most specific matching rule is chosen for every value",
  "The rules applied to a value are those of the most specific expression that matches its path, taken from the value's own category; a rule of a parent applies only when no more specific one matches, and is then marked as inherited. The choice depends only on the rules and the path, never on internal map order or on the order in which rules were added, and rules whose expression does not match are never chosen.",
  ["inputs", "schedules"], "for every set of up to three rules over an alphabet of expressions, every concrete path, and every map iteration and insertion order",
  "Tests check a few rule sets; ties and map order are not controlled.",
  [M+"matchingrules/mod.rs", M+"path_exp.rs"],
  [("MatchingRuleCategory::select_best_matcher / max_by_path / resolve_matchers_for_path", M+"matchingrules/mod.rs")],
  ["MatchingRuleCategory::select_best_matcher", "matcher_is_defined", "type_matcher_defined"])

p("C14", "Matching definition strings mean what they say or are rejected",
  "Every string of the documented matching-definition language gives exactly the value, value type, rules and generator it spells out, with white space and quoting handled as documented; every other string is rejected with an error. Parsing is total, and nothing left over after a complete definition is silently ignored.",
  ["inputs"], "for every definition built from the grammar up to a size, every such definition with one token deleted, duplicated, replaced or appended, and every short token sequence",
  "Tests use a fixed list of definitions and a few errors; the grammar's combinations and near misses are far more numerous.",
  [M+"matchingrules/expressions.rs"],
  [("parse_matcher_def / matching_definition", M+"matchingrules/expressions.rs")],
  ["parse_matcher_def", "is_matcher_def"])

p("C15", "Generators survive serialisation",
  "A set of generators written to a pact document and read back gives the same generators in the same categories and paths, for every kind of generator with every parameter; a generator in a document is read as exactly the generator it names, or skipped with the others kept. The attributes a generator reports are the ones it is created from.",
  ["inputs"], "for every kind of generator with boundary parameters, every category and path shape, singly and in pairs",
  "Tests round trip some generators with typical parameters.",
  [M+"generators/mod.rs"],
  [("generators_to_json / generators_from_json", M+"generators/mod.rs"), ("Generator::create / values", M+"generators/mod.rs")],
  ["generators_to_json", "generators_from_json", "Generator::to_json/from_map/create/values"])

p("C16", "Generated values always lie in the domain the generator promises",
  "Whatever the random source yields, a generated value conforms to its generator: integers within the inclusive bounds, decimals and hexadecimal strings with the exact number of digits, strings of the exact length, strings that match the regular expression, well-formed UUIDs in the requested format, booleans, dates and times in the requested format and shifted by the requested expression, and provider-state values taken from the supplied context with the requested type. Every value of a small domain can occur, the value keeps the kind (number or string) the target requires, and invalid parameters give an error rather than a crash.",
  ["inputs", "schedules"], "for every generator with boundary parameters, every target value kind, and every tape of random draws over an alphabet that includes both extremes",
  "Tests call the generators once with real randomness; off-by-one bounds and rare draws show up once in many runs.",
  [M+"generators/mod.rs", M+"expression_parser.rs", M+"time_utils.rs"],
  [("GenerateValue implementations", M+"generators/mod.rs"), ("generate_decimal/generate_hexadecimal/generate_ascii_string", M+"generators/mod.rs")],
  ["GenerateValue::generate_value for String, u16, Value, Vec<String>"])

p("C17", "Generators change exactly their targets, in the mode they apply to",
  "Applying generators to a JSON or form body changes exactly the elements their path expressions denote (every one of them, wildcards included) and leaves everything else, including the document's structure, as it was; a path that denotes nothing changes nothing. A generator restricted to one side (consumer or provider test) is not applied on the other, and categories are looked up independently.",
  ["inputs"], "for every small JSON document or form body, every path expression up to a length, and each test mode",
  "Tests apply generators at a few fixed paths of one document.",
  [M+"generators/mod.rs", M+"generators/form_urlencoded.rs", M+"json_utils.rs", M+"http_parts.rs"],
  [("JsonHandler::apply_key / FormUrlEncodedHandler::apply_key", M+"generators/mod.rs"), ("apply_generators / corresponds_to_mode", M+"generators/mod.rs")],
  ["JsonHandler::process_body", "FormUrlEncodedHandler::process_body", "apply_generators", "build_generators"])

p("C18", "Date and time expressions compute the documented instant",
  "A date, time or date-time expression applied to a base instant gives the instant the documentation defines: the named base (now, today, yesterday, tomorrow, midnight, noon, a given o'clock), shifted by each adjustment in turn with calendar arithmetic, and next/last units counted as described. Every string outside the language is rejected with an error, and no expression crashes, whatever the size of its numbers.",
  ["inputs"], "for every expression built from the grammar up to two adjustments, every unit, sign and boundary amount, on base instants at month, year, leap-day and day boundaries; each with one token deleted or appended",
  "Tests evaluate each construct once on one base; month ends, leap days, year ends and compositions are not covered.",
  [M+"generators/datetime_expressions.rs", M+"generators/date_expression_parser.rs", M+"generators/time_expression_parser.rs"],
  [("execute_date_expression / execute_time_expression / execute_datetime_expression", M+"generators/datetime_expressions.rs")],
  ["execute_date_expression", "execute_time_expression", "execute_datetime_expression"])

p("C19", "Date and time patterns accept what they format and nothing malformed",
  "Formatting any instant with a supported pattern gives text that validates against that same pattern, and the text is the instant's value in the notation the pattern letters define. Validation rejects text with a field out of range, missing, or followed by anything else, patterns parse into the sequence of fields they spell out, and no pattern or text crashes.",
  ["inputs"], "for every pattern of up to two fields with literals over all pattern letters and counts, instants at field boundaries, and texts mutated by one field or character",
  "Tests validate a fixed list of pattern/text pairs, and do not combine formatting with validation.",
  [M+"time_utils.rs"],
  [("parse_pattern / validate_datetime / to_chrono_pattern", M+"time_utils.rs")],
  ["validate_datetime", "parse_pattern", "to_chrono_pattern", "generate_string"])

p("C20", "Provider states are read completely from every form of document",
  "All provider states of an interaction are read, in order and with all their parameters, from each form the specification versions allow (single name, list of names, list of objects), and written back so that reading gives the same states. Missing or null entries mean no state, never an invented one.",
  ["inputs"], "for every form of the provider state attribute, with up to two states and parameters of every JSON type",
  "Tests read one example per form.",
  [M+"provider_states.rs", M+"sync_interaction.rs", M+"message.rs", M+"v4/interaction.rs"],
  [("ProviderState::from_json / to_json", M+"provider_states.rs")],
  ["ProviderState::from_json", "Interaction::provider_states"])

p("C21", "Provider-state expressions are substituted exactly",
  "Every ${name} in a text is replaced by the value of that name from the supplied context and all other text is left as it is, with a missing value or an unterminated expression reported as an error. A converted value has the requested data type and the same value, or the conversion is reported as an error; no text and no value crashes.",
  ["inputs"], "for every short text over the characters of the expression syntax, every context, and every pair of value and data type",
  "Tests substitute in a handful of well-formed texts.",
  [M+"expression_parser.rs", M+"generators/mod.rs"],
  [("parse_expression / replace_expressions / DataType::wrap / as_json", M+"expression_parser.rs")],
  ["parse_expression", "contains_expressions", "DataType::wrap", "DataValue::as_json"])

p("C22", "The specification version is determined from the document's metadata",
  "The specification version of a document is the one its metadata states, under either spelling of the attribute, with the documented default when it is absent or unparsable, and every entry point agrees on it. Writing a pact records the version it was written at and keeps the other metadata.",
  ["inputs"], "for every spelling and value of the version metadata, with other metadata present or absent, at each entry point",
  "Tests check a few version strings at one entry point.",
  [M+"pact.rs", M+"lib.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs"],
  [("determine_spec_version / parse_meta_data / metadata_to_json", M+"pact.rs"), ("PactSpecification::parse_version", M+"lib.rs")],
  ["load_pact_from_json", "Pact::specification_version", "Pact::to_json"])

p("C23", "The pact file checker accepts valid documents and flags invalid ones",
  "Checking a document produced by writing any request/response pact reports no errors, and it satisfies the published schema; where a part of such a document has the wrong JSON type, or a required part is missing or an unknown attribute present, exactly those are reported, each at the path of that part (or of what contains it), naming the type found. In lenient mode missing parts and unknown attributes are warnings. The checker never crashes on any document.",
  ["inputs"], "for every document written from a small pact, and every such document with one node replaced by a value of another type or one attribute added",
  "Tests check a few documents with one error each.",
  [M+"verify_json.rs", M+"pact.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"sync_interaction.rs", M+"request.rs", M+"response.rs", M+"v4/pact.rs"],
  [("verify_json / verify_metadata", M+"pact.rs")],
  ["PactJsonVerifier::verify_json", "pact_models::verify_json"])

p("C24", "Headers and query parameters keep every value in every document form",
  "Header values keep their number, order and content whether a document gives them as one string or as a list; a single-valued header with commas is split only where the header's own syntax allows it. Header names are compared ignoring case wherever they are looked up, set or removed, and query parameters are read alike from the string and the map form.",
  ["inputs"], "for every header name class and case, every one- or two-value list over values with commas, quotes and parameters, and every form of header and query attribute",
  "Tests cover a few header names and values.",
  [M+"headers.rs", M+"http_parts.rs", M+"v4/http_parts.rs", M+"request.rs", M+"response.rs", M+"json_utils.rs"],
  [("parse_header / headers_from_json / headers_to_json / lookup_header_value", M+"headers.rs")],
  ["headers_from_json", "HttpPart::lookup_header_value", "HttpPart::content_type", "HttpPart::set_header/add_header"])

p("C25", "JSON documents are combined and addressed correctly",
  "Deep-merging two JSON documents keeps every attribute of both, with the second winning on conflicting scalars and lists appended, and adds nothing that is in neither; merging an object or list with an empty one, or a document without list items with itself, changes nothing. Plugin data is merged in the same way, except that list items which are there already are not repeated, so merging it again changes nothing. Resolving a path expression in a document gives exactly the locations it denotes.",
  ["inputs"], "for every pair of JSON documents and every path expression up to a size",
  "Tests merge a few samples and resolve a few paths.",
  [M+"json_utils.rs"],
  [("JsonToNum / json_deep_merge / resolve_path", M+"json_utils.rs")],
  ["json_deep_merge", "resolve_path", "is_empty", "json_to_string"])

p("C26", "XML path expressions denote exactly the matching nodes",
  "Resolving a path expression in an XML document gives exactly the elements, attributes and text it denotes, each once, and every location returned can be resolved to the node itself, whatever the element names.",
  ["inputs"], "for every XML document up to a size over an alphabet of element names (including prefixed, hyphenated and dotted names), attributes and text, and every path expression up to a length",
  "Tests resolve a few paths in one document.",
  [M+"xml_utils.rs"],
  [("resolve_path / resolve_matching_node", M+"xml_utils.rs")],
  ["resolve_path", "resolve_matching_node"])

p("C27", "Editing a pact in memory records exactly what was added",
  "Adding interactions, plugins and version entries to a pact records each exactly once, in order, without disturbing what was there: interactions are listed, filtered by type and found by id as added, plugin data for the same plugin and version is combined, and an interaction type the pact cannot hold is reported as an error.",
  ["histories"], "for every sequence of up to four editing operations on each kind of pact",
  "Tests perform one or two operations on one kind of pact.",
  [M+"v4/pact.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"plugins.rs", M+"pact.rs"],
  [("add_interaction / add_plugin / add_md_version", M+"v4/pact.rs"), ("PluginData::merge", M+"plugins.rs")],
  ["Pact::add_interaction", "Pact::add_plugin", "Pact::interactions", "V4Pact::filter_interactions"])

p("C30", "JSON bodies match exactly when the rules allow it",
  "A JSON body matches an expected body exactly when every expected element is present with a value that satisfies the rules selected for its path (equality where none is), list lengths agree unless a rule relaxes them, and unexpected attributes are accepted in responses and messages but not in requests. Every difference is reported at the path where it occurs.",
  ["inputs"], "for every pair of small JSON documents under every set of up to two matching rules over an alphabet of paths and kinds, for both unexpected-key policies",
  "Tests fix about a hundred document/rule combinations; the interplay of inherited rules, list lengths and key policies is combinatorial.",
  [X+"json.rs", X+"matchingrules.rs", X+"matchers.rs", X+"lib.rs", M+"matchingrules/mod.rs"],
  [("compare_json / compare_maps / compare_lists / compare_values", X+"json.rs")],
  ["pact_matching::json::match_json", "match_response", "match_request"])

p("C31", "A request matches iff it fulfils the expected request",
  "Any request matches itself; without matching rules, a request that differs from the expected one in method, path, a query parameter or its values, a header value, or body is rejected with a mismatch of that kind, while extra headers and differences in method case, header-name case and optional white space are accepted. Changing one part never produces a mismatch in another, and rules affect only the part they are defined for.",
  ["inputs"], "for every pair of small requests over an alphabet for each part",
  "Tests vary one part at a time from one base request.",
  [X+"lib.rs", X+"headers.rs", X+"query.rs", X+"json.rs"],
  [("match_request", X+"lib.rs")],
  ["pact_matching::match_request", "RequestMatchResult"])

p("C32", "A response matches iff it fulfils the expected response",
  "Any response matches itself; without matching rules, a response that differs from the expected one in status, in the value of an expected header or in the value of an expected body element is rejected with a mismatch of that kind, while extra headers and extra JSON attributes are accepted. Status rules accept exactly the status classes they name.",
  ["inputs"], "for every pair of small responses over an alphabet for each part, and every status code with every status rule",
  "Tests vary one part at a time from one base response.",
  [X+"lib.rs", X+"headers.rs", X+"matchers.rs"],
  [("match_response / match_status", X+"lib.rs")],
  ["pact_matching::match_response"])

p("C33", "Header and query values match value by value under their rules",
  "Expected headers and query parameters match exactly when each of their values, in order, satisfies the rule for that parameter or position (equality where none is defined), the number of values agrees unless a rule relaxes it, and header names are compared ignoring case; a missing parameter, or an unexpected query parameter, is reported for that name. Rules for one name never affect another.",
  ["inputs"], "for every pair of value lists up to length three, under every rule from an alphabet at the parameter or position, for one and two names",
  "Tests cover a few list lengths per rule.",
  [X+"headers.rs", X+"query.rs", X+"matchingrules.rs"],
  [("match_headers / match_query", X+"headers.rs")],
  ["pact_matching::match_query", "pact_matching::headers::match_headers"])

p("C34", "A message matches iff its contents and metadata fulfil the expectation",
  "Any message matches itself; a message is rejected when its contents differ from what the rules allow or an expected metadata entry is missing or different, with a mismatch of that kind, and extra metadata is accepted. For request/response messages that expect responses, their number must be the expected one and each is compared with its counterpart.",
  ["inputs"], "for every pair of small messages over an alphabet of contents, metadata and responses",
  "Tests compare a few pairs.",
  [X+"lib.rs"],
  [("match_message / match_sync_message", X+"lib.rs")],
  ["pact_matching::match_message", "match_sync_message_request", "match_sync_message_response"])

p("C35", "Each matching rule accepts exactly the values it describes",
  "Every matching rule applied to a text, number, boolean or JSON value accepts exactly the values its documentation describes, independently of the expected value except for rules that compare with it; text and JSON forms of the same value are judged alike, and no value crashes. Combined rules accept a value when all (AND) or at least one (OR) of them do.",
  ["inputs"], "for every kind of rule with boundary parameters, and every pair of expected and actual values over an alphabet of texts, numbers, booleans and JSON values",
  "Tests sample a few values per rule and type.",
  [X+"matchers.rs", X+"json.rs", X+"matchingrules.rs"],
  [("Matches implementations", X+"matchers.rs"), ("match_values", X+"matchers.rs")],
  ["Matches::matches_with", "match_values"])

p("C36", "Bodies are compared by presence and content type before content",
  "An expected missing body accepts any body, an expected empty or null body accepts only an absent or empty one, and an expected body rejects an absent or empty one; bodies whose known content types differ are rejected with a content-type mismatch. Otherwise text and binary bodies must be identical and form bodies must have the same parameters, unless a rule says otherwise, and no body crashes the comparison.",
  ["inputs"], "for every pair of body states, content types and short contents, with every rule from an alphabet at the root",
  "Tests cover the diagonal of the table.",
  [X+"lib.rs", X+"binary_utils.rs", X+"form_urlencoded.rs"],
  [("match_body / match_body_content / compare_bodies", X+"lib.rs")],
  ["pact_matching::match_body"])

p("C37", "XML bodies match exactly when the rules allow it",
  "An XML body matches an expected one exactly when the element names, attributes, text and children agree, or satisfy the rules selected for their paths; unexpected attributes and children are rejected under the strict policy, and differences in insignificant white space are ignored. Any XML body matches itself.",
  ["inputs"], "for every pair of small XML documents under every rule from an alphabet",
  "Tests compare a few dozen pairs.",
  [X+"xml.rs"], [("match_xml", X+"xml.rs")], ["pact_matching::match_body"])

p("C38", "Generating a request or response fills in exactly what is configured",
  "Generating the concrete request, response or message for an interaction replaces exactly the path, status, headers, query parameters, metadata and body elements that have a generator for the current test mode, with values from that generator, and leaves everything else identical; without generators the result is equal to the input.",
  ["inputs"], "for every small request, response and message with every combination of up to two generators, in each mode",
  "Tests apply one generator per part.",
  [X+"lib.rs", X+"generators/mod.rs", X+"generators/bodies.rs"],
  [("generate_request / generate_response / generate_message", X+"lib.rs")],
  ["generate_request", "generate_response", "generate_message"])

p("C39", "The outcome of a match does not depend on internal ordering",
  "Matching the same expectation against the same actual value gives the same set of mismatches every time, whatever the iteration order of the maps involved and the order in which rules, headers, parameters and metadata were added; and so do loading a pact, and generating values from the same generators: header names that differ only in case, and overlapping generators, are treated in an order of their own.",
  ["schedules", "inputs"], "for every iteration order (a list of seeds of the hash maps and every order of insertion) of the maps of small requests, responses, messages, rule and generator sets",
  "Iteration order is random per process; a test run sees one.",
  [X+"lib.rs", X+"headers.rs", X+"query.rs", X+"matchingrules.rs", M+"matchingrules/mod.rs", M+"headers.rs", M+"generators/mod.rs", M+"http_parts.rs"],
  [("sorted key handling", X+"lib.rs"), ("HttpPart::lookup_header_value", M+"http_parts.rs"), ("apply_generators", M+"generators/mod.rs")], ["match_request", "match_response", "match_message", "generate_request", "RequestResponsePact::from_json"])

p("C40", "The plan-based matching engine agrees with the classic one",
  "With MATCHING_ENGINE=v2, match_request reaches the verdict of the classic engine on each part (method, path, query, headers, body) and overall, for requests with absent, JSON, XML or text bodies and any rules for: the path, parameters and headers with one value, texts, JSON scalars, JSON arrays with one element and objects below a type rule, and XML attributes and texts. Where the two engines are known to differ otherwise is listed in DESIGN.md.",
  ["inputs", "configurations"], "for every pair of small requests and rule sets, with the plan-based engine against a model of the classic one (which C30 to C37 check against the classic engine)",
  "Each engine has its own tests; nothing runs both on the same input.",
  [X+"engine/mod.rs", X+"engine/interpreter.rs", X+"engine/bodies.rs", X+"engine/context.rs", X+"lib.rs"],
  [("build_request_plan / execute_request_plan", X+"engine/mod.rs"), ("ExecutionPlanInterpreter", X+"engine/interpreter.rs"), ("match_request", X+"lib.rs")], ["match_request with MATCHING_ENGINE=v2"])

p("C50", "Verification fails iff a non-pending interaction fails",
  "The overall verification result is successful exactly when every pact of the given sources (documents, files, directories with their sub-directories, addresses, brokers) could be loaded and no interaction that is neither pending itself nor in a pending pact has a mismatch or error. Every selected interaction of every selected pact is run and reported exactly once, in order, with its own result, identity and pending flag, and interactions excluded by the filter are not run.",
  ["inputs", "histories"], "for every combination of interaction outcomes, pending flags, filters and sources of small pacts",
  "Tests verify one or two interactions per outcome against a mock server.",
  [V+"lib.rs", V+"verification_result.rs"],
  [("verify_provider_async / verify_pact_internal / fetch_pact", V+"lib.rs")], ["verify_provider_async"])

p("C51", "Provider states are set up before and torn down after each interaction",
  "For every interaction, every provider state is set up in order before its request is made, with its name, parameters and action in the body or the query as configured, and torn down in order after it when teardown is enabled, also when the request or the comparison fails; a failed setup fails the interaction without making the request, a failed teardown fails it too. A state change answered with a server error is tried again up to the configured number of times (at least once in total). The values returned by the setup calls take precedence over the parameters of the states and replace the expressions of the request.",
  ["fault_sequences", "histories"], "for every sequence of answers to the state change calls of small interactions",
  "Tests check single successes or failures.",
  [V+"lib.rs", V+"callback_executors.rs", V+"provider_client.rs", V+"utils.rs"],
  [("execute_provider_states / verify_interaction", V+"lib.rs"), ("with_retries", V+"utils.rs")], ["ProviderStateExecutor"])

p("C52", "Pacts are fetched from the broker completely and retried on failure",
  "Following a broker's links (absolute, relative, templated, with a query, below a base path, with credentials) fetches every pact of the provider in order with its own links and pending and notice properties; the broker is asked for what was configured; a failing link or a document of unexpected form is reported as an error and never as there being no pacts; server errors are tried again up to three times; and the notices of a pact are shown at their stage according to the result of that pact.",
  ["fault_sequences"], "for every small link graph and every combination of failures of its resources",
  "Tests replay recorded exchanges with one failure each.",
  [V+"pact_broker.rs", V+"utils.rs", V+"lib.rs"],
  [("HALClient::fetch / navigate / fetch_pacts_dynamically_from_broker", V+"pact_broker.rs"), ("with_retries", V+"utils.rs"), ("process_notices", V+"lib.rs")], ["fetch_pacts_from_broker", "fetch_pacts_dynamically_from_broker"])

p("C53", "The provider is sent the request described and its answer compared as received",
  "When an interaction is verified the provider is sent one request with the method, path (below the base path of the provider), query parameters, headers (each value its own header, custom headers replacing those of the same name whatever their case) and body of the interaction, with the generators for the provider side and the values of the state applied; the response the provider makes (status, header values, body bytes and content type) is the response that is compared, and a message provider is asked with the description and states of the message and its answer, metadata included, is compared as the message.",
  ["all_inputs"], "for every request, response and message composed from a bounded alphabet of parts, with the wire observed at a simulated network",
  "The crate's own tests convert a handful of requests and responses.",
  [V+"provider_client.rs", V+"lib.rs", V+"messages.rs"],
  [("create_native_request / native_response_to_pact_response", V+"provider_client.rs"), ("verify_response_from_provider", V+"lib.rs"), ("verify_message_from_provider / verify_sync_message_from_provider", V+"messages.rs")], ["make_provider_request", "verify_provider_async"])

p("C54", "Published results match the verification",
  "The result that is published to the Pact Broker is a success exactly when every interaction of the pact was verified, goes to the link the pact gives, names the provider version, build URL and test results of each interaction with its id and mismatches, the tags and branch of the provider are published first at the broker's own links for the provider version, credentials are sent, and any failure of these requests is reported as an error and changes nothing else.",
  ["fault_sequences"], "for every list of results up to a bound, every set of options and every combination of failures of the broker's resources",
  "Tests publish one result to a recorded broker.",
  [V+"pact_broker.rs", V+"lib.rs"],
  [("publish_verification_results / publish_provider_tags / publish_provider_branch / build_payload", V+"pact_broker.rs"), ("publish_result / publish_to_broker", V+"lib.rs")], ["publish_verification_results", "publish_result"])

p("C60", "A consumer test passes iff every interaction was exercised as declared",
  "A consumer test that uses the mock server passes exactly when each declared interaction was requested as declared and no unexpected request was made, and the pact file is written only then.",
  ["histories"], "for every sequence of requests to the mock server of a small pact",
  "Tests make one request per interaction.",
  ["rust/pact_consumer/src/mock_server.rs", "rust/pact_consumer/src/builders/pact_builder.rs"],
  [("ValidatingMockServer drop", "rust/pact_consumer/src/mock_server.rs")], ["PactBuilder::start_mock_server"])

p("C61", "Interactions built through the C interface are what the calls asked for",
  "After any sequence of calls of the C interface on pact, interaction and message handles (descriptions, provider states, requests, parameters, headers with positions, statuses, bodies and their content types, binary contents and files, matching rules, generators, metadata, comments, keys, pending flags), the interaction that is built holds exactly what the calls put into it: each call changes only what it is documented to change, on the part it names, whatever was called before; its result says whether it was done; calls on handles of released pacts or of no interaction do nothing and report it; interactions of the same pact or of other pacts are not affected; contents given as bytes belong to the pact after the call; and no call crashes on null or unparsable arguments.",
  ["histories", "inputs"], "for every sequence of calls up to a length over small alphabets of arguments, on every kind of interaction and on several interactions of two pacts",
  "Tests call each function once or twice in one typical order.",
  ["rust/pact_ffi/src/mock_server/handles.rs", "rust/pact_ffi/src/mock_server/bodies.rs", M+"message.rs", M+"v4/message_parts.rs"],
  [("handle tables", "rust/pact_ffi/src/mock_server/handles.rs"), ("pactffi_with_body, pactffi_with_header_v2, pactffi_with_query_parameter_v2", "rust/pact_ffi/src/mock_server/handles.rs"), ("process_json", "rust/pact_ffi/src/mock_server/bodies.rs")], ["pactffi_* functions on InteractionHandle, MessageHandle and PactHandle"])

p("C62", "Bodies described as integration JSON become the example, rules and generators",
  "A body given through the C interface as JSON with embedded matchers (for JSON, form and XML bodies, for headers, parameters, paths, methods, statuses and metadata) is stored as the example value it shows, with exactly the matching rules and generators it asks for, each at the path of the value it is written at, whatever names the keys and elements have (numbers, wildcards, characters that are special in paths), however the matchers are nested, in every spelling of a matcher (type or definition, list of matchers, combined matchers), and descriptions that are not valid are reported without a crash and leave no partial rules behind.",
  ["inputs"], "for every description over small alphabets of values, matchers, keys and nestings",
  "Tests use one matcher per document, with plain names.",
  ["rust/pact_ffi/src/mock_server/bodies.rs", "rust/pact_ffi/src/mock_server/xml.rs", "rust/pact_ffi/src/mock_server/form_urlencoded.rs", "rust/pact_ffi/src/mock_server/handles.rs", "rust/pact_models/src/json_utils.rs"],
  [("process_json, process_array, process_object", "rust/pact_ffi/src/mock_server/bodies.rs"), ("generate_xml_body", "rust/pact_ffi/src/mock_server/xml.rs"), ("process_form_urlencoded_json", "rust/pact_ffi/src/mock_server/form_urlencoded.rs")], ["pactffi_with_body", "pactffi_with_header_v2", "pactffi_with_query_parameter_v2", "pactffi_with_request", "pactffi_response_status_v2"])
p("C63", "What is read from a pact through the C interface is what the pact holds",
  "For every pact or message that can be loaded, the model functions of the C interface return exactly what the native model holds: names, descriptions, provider states and their parameters, contents as text and as bytes with their lengths, metadata, matching rules and generators of every category with their paths; iterators return every element exactly once and then stay at the end; interactions are visible as exactly the kinds they are; nothing read remains allocated after it was deleted as documented; invalid documents are reported as NULL.",
  ["inputs"], "for every document over small alphabets of interactions, bodies, rules, generators and metadata, through every accessor",
  "Tests read one or two hand-written interactions.",
  ["rust/pact_ffi/src/models/mod.rs", "rust/pact_ffi/src/models/interactions.rs", "rust/pact_ffi/src/models/iterators.rs", "rust/pact_ffi/src/models/message.rs", "rust/pact_ffi/src/models/async_message.rs", "rust/pact_ffi/src/models/sync_message.rs", "rust/pact_ffi/src/models/http_interaction.rs", "rust/pact_ffi/src/models/contents.rs", "rust/pact_ffi/src/models/matching_rules.rs", "rust/pact_ffi/src/models/generators.rs", "rust/pact_ffi/src/models/provider_state.rs", "rust/pact_ffi/src/models/message_pact.rs"],
  [("pactffi_parse_pact_json", "rust/pact_ffi/src/models/mod.rs"), ("iterators", "rust/pact_ffi/src/models/iterators.rs")], ["pactffi_parse_pact_json", "pactffi_pact_model_interaction_iterator", "pactffi_message_*", "pactffi_sync_http_*", "pactffi_message_pact_*"])
p("C64", "Models changed through the C interface copy their arguments and change one thing",
  "Every setter of the C interface's models (descriptions, text and binary contents of messages, requests and numbered responses, metadata) copies what it is given, so that the caller may reuse or release the memory after the call, changes only the part it names, returns its documented status, and does nothing but report when given NULL or text that is not valid UTF-8; provider states obtained by position are copies owned by the caller; deleting a model releases everything it held.",
  ["histories", "inputs"], "for every sequence of up to two (thorough: three) changes of each kind of model, with the caller's memory overwritten after each call",
  "Tests keep the arguments alive and read back one value.",
  ["rust/pact_ffi/src/models/message.rs", "rust/pact_ffi/src/models/async_message.rs", "rust/pact_ffi/src/models/sync_message.rs", "rust/pact_ffi/src/models/http_interaction.rs", "rust/pact_ffi/src/models/contents.rs", "rust/pact_ffi/src/util/string.rs", "rust/pact_ffi/src/util/ptr.rs"],
  [("set_contents functions", "rust/pact_ffi/src/models/message.rs"), ("safe_str", "rust/pact_ffi/src/util/string.rs")], ["pactffi_message_set_contents", "pactffi_sync_message_set_response_contents_str", "pactffi_sync_http_set_request_contents_bin", "pactffi_message_get_provider_state"])
p("C65", "Matching and generating values through the C interface gives the native verdict",
  "Through the C interface, a matcher definition has the value, type, generator and rules (with their documented numbers and values, in order) of the definition, or its error; a value matches a rule exactly when the native comparison says so, and otherwise the answer is its message; comparing messages gives the native mismatches; generated dates, texts for regular expressions and values of generators are valid for what they were generated for, or an error is reported; error messages are written completely, terminated and zero-filled within buffers that are large enough and never beyond any buffer; no argument crashes the process and answers that are released leave nothing allocated.",
  ["inputs"], "for every sequence of definitions, every rule kind x pair of values of every type, every format, expression and buffer size of small alphabets",
  "Tests check one rule with one matching and one failing value for each function.",
  ["rust/pact_ffi/src/models/expressions.rs", "rust/pact_ffi/src/matching.rs", "rust/pact_ffi/src/mock_server/mod.rs", "rust/pact_ffi/src/models/generators.rs", "rust/pact_ffi/src/util/write.rs", "rust/pact_ffi/src/error/ffi.rs", "rust/pact_ffi/src/lib.rs"],
  [("MatchingRuleIterator, rule_id", "rust/pact_ffi/src/models/expressions.rs"), ("pactffi_matches_*", "rust/pact_ffi/src/matching.rs"), ("write_to_c_buf", "rust/pact_ffi/src/util/write.rs")], ["pactffi_parse_matcher_definition", "pactffi_matches_string_value", "pactffi_generate_regex_value", "pactffi_generate_datetime_string", "pactffi_get_error_message", "pactffi_match_message"])

p("C66", "Pact handles, their files and multipart bodies through the C interface",
  "Through the C interface, setting metadata changes exactly the named value of the named namespace (of a pact as of a message pact) and never a read-only namespace; writing the pact of a handle writes, creates or merges exactly the file the native write does, with the interactions given to the handle, and leaves the handle as it was; a failed write is answered with its documented code and changes nothing; a freed handle answers as an unknown one; the copy of a pact is independent of its handle; a message is reified with the contents, metadata and provider states given; and every file given as a multipart body becomes one further well-formed part with its name, type and bytes, with content type header and rules to match, or an error that changes nothing. No argument crashes the process or makes later calls fail.",
  ["inputs", "histories"], "for every sequence of calls of small alphabets on two handles that share a file, and of multipart calls over files, boundaries and texts (also NULL and not UTF-8)",
  "Tests set two metadata values of a pact, and give two files with fixed boundaries.",
  ["rust/pact_ffi/src/mock_server/handles.rs", "rust/pact_ffi/src/mock_server/bodies.rs", "rust/pact_ffi/src/mock_server/mod.rs"],
  [("pactffi_pact_handle_write_file, pactffi_write_message_pact_file, path_from_dir", "rust/pact_ffi/src/mock_server/handles.rs"), ("pactffi_message_reify", "rust/pact_ffi/src/mock_server/handles.rs"), ("request_multipart, add_part_to_multipart, part_body_replace_marker", "rust/pact_ffi/src/mock_server/bodies.rs")], ["pactffi_with_pact_metadata", "pactffi_with_message_pact_metadata", "pactffi_pact_handle_write_file", "pactffi_write_message_pact_file", "pactffi_message_reify", "pactffi_with_multipart_file_v2"])

p("C67", "The C interface's verifier runs the verification that was asked for",
  "A verification set up through the C interface (a verifier handle, or a command line given in lines) is exactly the one the settings ask for: the provider's address with the documented defaults for NULL and empty texts, its transports, filters (a state given wins over 'no state'), consumers, state change handler, certificates, timeout, custom headers, what a missing pact means, every source in the order given with its credentials (user before token), selectors (tags only without selectors; text that is no JSON is refused with -1 and leaves no source), what is published and for which application. Each setter replaces what it set before and nothing else, an execution leaves the settings as they are, its return value is 0, 1 or 2 as documented, and output (with and without colours) and results are those of the last execution. A command line that is not understood returns 4 (3 for headers without '=') and makes no request; the arguments listed are those understood. Functions without a handle report their error and do nothing.",
  ["histories", "inputs"], "for every sequence of calls of small alphabets of settings, sources and executions (NULL, empty, odd flags, repeated) and every command line of a few arguments in each way to write them",
  "Tests check one error message, the colour filter and two lists of selectors.",
  ["rust/pact_ffi/src/verifier/mod.rs", "rust/pact_ffi/src/verifier/handle.rs", "rust/pact_ffi/src/verifier/verifier.rs", "rust/pact_ffi/src/verifier/args.rs"],
  [("VerifierHandle", "rust/pact_ffi/src/verifier/handle.rs"), ("pactffi_verifier_*", "rust/pact_ffi/src/verifier/mod.rs"), ("handle_args", "rust/pact_ffi/src/verifier/verifier.rs"), ("setup_app", "rust/pact_ffi/src/verifier/args.rs")], ["pactffi_verifier_execute", "pactffi_verifier_set_provider_info", "pactffi_verifier_broker_source_with_selectors", "pactffi_verify", "pactffi_verifier_cli_args"])

p("C68", "Patterns of the consumer DSL mean what their parts mean, each at its place",
  "A pattern of the consumer DSL (fixed JSON, Like, EachLike, Term, DateTime, ObjectMatching, EachKey, EachValue, string patterns, and arrays and objects of them, nested in any way) stands for one example and one set of matching rules: the example is that of its parts put together, the rules are those of its parts, each under the path of its own part, rules that were there before are kept, and no other rules are made. The example of a pattern matches the expectation made from it. A pattern that refuses an example says so when it is made. Stripping null fields drops those fields only.",
  ["inputs"], "for every pattern of nesting depth up to three over small alphabets of values, field names (with spaces, dots, quotes), expressions and counts",
  "Tests look at a handful of patterns, one level deep.",
  ["rust/pact_consumer/src/patterns/json_pattern.rs", "rust/pact_consumer/src/patterns/special_rules.rs", "rust/pact_consumer/src/patterns/string_pattern.rs", "rust/pact_consumer/src/util.rs"],
  [("JsonPattern", "rust/pact_consumer/src/patterns/json_pattern.rs"), ("special_rules", "rust/pact_consumer/src/patterns/special_rules.rs"), ("obj_key_for_path", "rust/pact_consumer/src/util.rs")], ["JsonPattern", "like!", "each_like!", "term!", "StringPattern"])
p("C69", "The consumer DSL builds the pact that was asked for and hands out its messages",
  "The builders of the consumer DSL (pact, interaction, request, response, message, synchronous message) build exactly what their calls ask for: method, path, query, headers, body, status, provider states, comments, test name, key, metadata, the rules and generators of each part in that part and of no other, a call replacing or extending what the same kind of call set before and nothing else; what is built does not depend on when or how often it is built. The iterators of asynchronous and synchronous messages give every message of the pact once, in order, with generators applied, whatever asynchronous runtime they are used from (none, one of one thread, one of several), never block, and leave a pact file of all interactions once the test has ended.",
  ["histories", "inputs"], "for every sequence of a few calls of small alphabets on each builder, and every small pact under every kind of runtime",
  "Tests build single interactions with one or two calls.",
  ["rust/pact_consumer/src/builders/pact_builder.rs", "rust/pact_consumer/src/builders/interaction_builder.rs", "rust/pact_consumer/src/builders/request_builder.rs", "rust/pact_consumer/src/builders/response_builder.rs", "rust/pact_consumer/src/builders/message_builder.rs", "rust/pact_consumer/src/builders/sync_message_builder.rs", "rust/pact_consumer/src/builders/message_iter.rs"],
  [("PactBuilder", "rust/pact_consumer/src/builders/pact_builder.rs"), ("HttpPartBuilder", "rust/pact_consumer/src/builders/http_part_builder.rs"), ("MessageInteractionBuilder", "rust/pact_consumer/src/builders/message_builder.rs"), ("MessageIterator", "rust/pact_consumer/src/builders/message_iter.rs")], ["PactBuilder::interaction", "PactBuilder::message_interaction", "PactBuilder::messages", "PactBuilder::synchronous_messages"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, schema)
except ImportError:
    pass
print(len(P), "properties")
