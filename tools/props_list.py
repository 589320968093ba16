prop("P01", "V4 pact files survive loading and writing unchanged",
 "Loading any well-formed V4 pact document (HTTP, asynchronous and synchronous message interactions) gives a model in which every attribute has the value the document states, and writing that model back gives a document that denotes the same pact. Writing is deterministic and a fixed point: re-loading and re-writing produces the same text.",
 ["inputs"], "All V4 documents in the specification's canonical form: any mix of interaction kinds, bodies (missing, empty, JSON, text, binary), headers, queries, matching rules, generators, provider states, comments, plugin data and markup.",
 "Tests load a dozen fixed files and compare a few attributes; nothing there writes back arbitrary combinations of attributes and compares them with the source.",
 [M+"v4/pact.rs", M+"v4/http_parts.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"v4/message_parts.rs", M+"v4/interaction.rs", M+"v4/synch_http.rs", M+"bodies.rs"],
 [("V4 reader and writer", M+"v4/"), ("body encoding", M+"bodies.rs OptionalBody::to_v4_json")], "models",
 "online round-trip monitor over seeded documents with an independent reading of the source document",
 "Explores thousands of generated documents per run; trusts the document generator's reading of the V4 format.")
prop("P02", "V1 to V3 pact files survive loading and writing unchanged",
 "Loading any well-formed V1, V1.1, V2 or V3 request/response document or V3 message document gives a model in which every attribute has the value the document states, and writing it at the same specification version gives a document that denotes the same pact.",
 ["inputs"], "All canonical documents of the older formats: query strings vs. query maps, joined header values, provider state vs. states, both matching rule formats, generators, JSON and text and binary bodies.",
 "Tests check single files per version; the combinations of format version, body kind, content type and rule form are not sampled.",
 [M+"sync_pact.rs", M+"message_pact.rs", M+"sync_interaction.rs", M+"message.rs", M+"request.rs", M+"response.rs", M+"json_utils.rs", M+"headers.rs", M+"matchingrules/mod.rs", M+"generators/mod.rs"],
 [("V1-V3 readers and writers", M+"request.rs, response.rs, message.rs"), ("V2/V3 rule formats", M+"matchingrules/mod.rs")], "models",
 "online round-trip monitor over seeded documents with an independent reading of the source document",
 "Explores thousands of generated documents per run; trusts the document generator's reading of the formats.")
prop("P03", "Reading a pact never crashes, whatever the file contains",
 "Any JSON document or file contents offered as a pact, of any claimed version, is either loaded or refused with an error; reading it never panics, hangs or overflows. Whatever was loaded can be inspected, compared, hashed, converted and written at every specification version without a crash.",
 ["inputs"], "Valid documents of every version with random structural damage (wrong types, extreme numbers, removed and renamed members), single interactions, truncated and corrupted files.",
 "Tests load well-formed fixtures; the places where a reader trusts a member's type or range are only met by damaged input.",
 [M+"pact.rs", M+"v4/pact.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"interaction.rs", M+"v4/interaction.rs", M+"json_utils.rs", M+"headers.rs", M+"bodies.rs"],
 [("readers", M+"pact.rs load_pact_from_json"), ("accessors of loaded models", M+"interaction.rs")], "models",
 "robustness monitor: panic, hang and crash detection around seeded mutated documents, run in a supervised process",
 "Explores tens of thousands of damaged documents per run; does not enumerate all damage.")
prop("P04", "Merging pacts keeps every interaction of both exactly once",
 "Merging two pacts of one format for the same consumer and provider yields every interaction of both exactly once, in a stable order, and nothing else, whatever order the interactions are in and however often it is repeated; the metadata of the pact merged into and the plugin requirements of both survive. A merge whose interactions contradict each other, or whose formats cannot be combined, is refused with an error and leaves both pacts as they were.",
 ["inputs", "histories"], "Pairs and sequences of pacts of every format, drawn from a pool with equal descriptions, differing provider states and keys, in every order; contradicting pairs.",
 "Tests merge one or two hand-picked interactions in description order; loss and duplication depend on order, equal descriptions and repetition.",
 [M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", "rust/pact_models/src/iterator_utils.rs", M+"plugins.rs", M+"interaction.rs"],
 [("merge of request/response pacts", M+"sync_pact.rs merge"), ("merge of V4 pacts", M+"v4/pact.rs merge"), ("pairing of interactions", M+"iterator_utils.rs")], "models",
 "online conservation checker over merge histories (union, exactly-once, idempotence, order-independence)",
 "Explores thousands of merges per run over small pools of interactions.")
prop("P05", "Concurrent writers of one pact file lose nothing and tear nothing",
 "When several threads and processes write and read the same pact file, the final file is what some one-at-a-time order of the completed writes would leave, and every reader sees a complete file. A refused write leaves the file as it was, and overwriting replaces exactly the old contents.",
 ["schedules", "histories", "faults"], "Histories of up to four processes with several threads each, merging, overwriting and reading one file with delays injected around the file locks; sequences with refused writes and corrupt files; writes that fail part way.",
 "A unit test writes one file from one thread; lost updates need two writers between reading and writing.",
 [M+"pact.rs", M+"file_utils.rs"],
 [("write under lock", M+"pact.rs write_pact"), ("lock helpers", M+"file_utils.rs")], "models",
 "linearizability checker over recorded histories of real processes with injected lock delays",
 "Explores over a hundred multi-process histories per quick run; schedules are perturbed, not enumerated.")
prop("P06", "Converting a pact between specification versions keeps its meaning",
 "A pact taken from an older specification version to a newer one and back means the same as before: requests, responses, messages, provider states, rules and generators are unchanged. A conversion to an older model keeps what that model can express, and one that is impossible is refused with an error.",
 ["inputs"], "V1 to V3 documents taken to V4 and back, V1 and V2 documents re-written at V3, V4 pacts of every mix of interactions taken down.",
 "Tests convert one or two attribute combinations; loss appears in combinations of body kinds, headers, rules and version.",
 [M+"sync_interaction.rs", M+"message.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"v4/http_parts.rs", M+"v4/pact.rs", M+"request.rs", M+"response.rs"],
 [("conversions", M+"interaction.rs as_v4, as_request_response, as_message"), ("pact conversions", M+"pact.rs as_v4_pact, as_request_response_pact, as_message_pact")], "models",
 "differential monitor: source document against converted and re-converted models",
 "Explores thousands of generated documents per run; trusts the generator's reading of the formats.")
prop("P07", "Query strings decode to their meaning and survive being rebuilt",
 "Every legal encoding of a query string gives exactly the parameters, in order, that it encodes, and a set of parameters that is written as a query string reads back as the same set. Text that is not a legal encoding never crashes the parser and is kept, with no parameter invented or lost.",
 ["inputs"], "Query strings over ASCII and non-ASCII names and values, percent and plus encodings, repeated names, bare and empty values and empty segments; arbitrary text.",
 "Tests decode about a dozen strings; correctness is about every character in every position.",
 [M+"query_strings.rs"], [("decoding", M+"query_strings.rs parse_query_string"), ("encoding", M+"query_strings.rs build_query_string")], "models",
 "round-trip monitor against an independent encoder, with totality checks on arbitrary text",
 "Explores tens of thousands of strings per run. Known: non-ASCII values are written as code points (pinned by tests).")
prop("P08", "Document path expressions mean what they spell, both ways",
 "Every legal spelling of a path expression parses to exactly the steps it spells; a path built, joined, shortened or combined prints as an expression that parses back to the same steps. A path matches exactly the concrete paths it denotes and weighs a more exact expression higher; text that is not a path expression is refused without a crash.",
 ["inputs"], "Paths over identifiers, keys with quotes, backslashes, brackets and non-ASCII characters, extreme indexes and wildcards, in every legal spelling; corrupted spellings and arbitrary text.",
 "Tests parse a few dozen literal expressions; printing, escaping and matching have to agree for every key.",
 [M+"path_exp.rs"], [("path parser", M+"path_exp.rs parse_path_exp"), ("path printer and matcher", M+"path_exp.rs DocPath")], "models",
 "round-trip and reference-model monitor over seeded paths",
 "Explores tens of thousands of paths per run against an independent writer and matcher.")
prop("P09", "Paths resolve to exactly the document nodes they denote",
 "Resolving a path expression against a JSON or XML document yields each node it denotes exactly once, as a pointer that leads back to that node, and nothing else. Everything a path resolves to is also matched by that path.",
 ["inputs"], "JSON documents with awkward keys (slashes, tildes, quotes, empty) and XML documents with repeated, nested and non-word names; exact, wildcard, index, attribute and text paths, hitting and missing.",
 "Tests resolve a handful of paths against two small documents with plain keys.",
 [M+"json_utils.rs", M+"xml_utils.rs", M+"path_exp.rs"], [("JSON resolution", M+"json_utils.rs resolve_path"), ("XML resolution", M+"xml_utils.rs resolve_path, resolve_matching_node")], "models",
 "reference-model monitor: independent evaluation of the path on the same document",
 "Explores tens of thousands of path/document pairs per run.")
prop("P10", "The matching rule that applies to a value is the most specific one",
 "For every value the rules selected are exactly those whose path expression matches it, and of those the most exact and longest one wins; a rule on a parent applies to its children only where it is defined to cascade. The choice does not depend on the order in which the rules were added or on the process they run in.",
 ["inputs"], "Sets of overlapping rules (exact, wildcard, index, parent, child) in every category, selected for concrete paths they do and do not match, inserted in different orders.",
 "Tests resolve two or three rules against a few paths; ties and insertion order are not sampled, and map iteration order hides them.",
 [M+"matchingrules/mod.rs", M+"path_exp.rs"], [("rule selection", M+"matchingrules/mod.rs MatchingRuleCategory"), ("path weights", M+"path_exp.rs calc_path_weight")], "models",
 "reference-model monitor: independent weighing and selection over the same rule set, repeated with permuted insertion",
 "Explores tens of thousands of rule sets per run.")
prop("P11", "Matching rules and generators mean the same in every notation",
 "Every matching rule and generator that can be written in a pact file reads back from what it is written as, from its alternative spellings and from its name and attributes as the same rule or generator. Two of them are equal exactly when they mean the same, equal ones hash alike, and collections of them neither lose nor invent any.",
 ["inputs"], "All kinds of rules (nested ones included) and generators with every attribute present or absent, aliases, single-attribute differences, and categories written in the older and newer formats.",
 "Tests cover one literal per rule; equality, names and attributes have to agree for every attribute combination.",
 [M+"matchingrules/mod.rs", M+"generators/mod.rs"], [("rule JSON and attributes", M+"matchingrules/mod.rs MatchingRule"), ("generator JSON and attributes", M+"generators/mod.rs Generator")], "models",
 "round-trip and algebraic-law monitor over seeded rules and generators",
 "Explores tens of thousands of rules and generators per run.")
prop("P15", "Date and time expressions give the instant they describe",
 "Every legal date, time and date-time expression, evaluated against any base, gives exactly the calendar date or time of day it describes: chains of additions and subtractions apply in order, months and years clamp at month ends, and named days and months move to the right occurrence. An expression that is not legal is refused with an error, and none crashes.",
 ["inputs"], "Chains of every unit, named day, month, ordinal and o'clock form with small and extreme amounts over leap days, month ends and year ends; corrupted expressions and arbitrary text.",
 "Tests evaluate a few dozen expressions on one or two base dates; errors sit at month ends, leap days and large amounts.",
 [M+"generators/datetime_expressions.rs", M+"generators/date_expression_parser.rs", M+"generators/time_expression_parser.rs"],
 [("expression evaluation", M+"generators/datetime_expressions.rs"), ("expression parsers", M+"generators/date_expression_parser.rs, time_expression_parser.rs")], "models",
 "reference-model monitor: independent proleptic calendar arithmetic over seeded expressions",
 "Explores tens of thousands of expressions per run.")
prop("P20", "Equality, hashes and keys of interactions agree with their meaning",
 "Two pacts or interactions that mean the same are equal, hash alike and get the same generated key, in this process and in any other; two that differ in any attribute the key covers get different ones. A copy is equal to its original, equality is symmetric, and a stated key is never replaced by a generated one unless asked for.",
 ["inputs"], "Generated interactions of every kind, copied, re-loaded with reordered entries, changed in one attribute, and keyed again in other processes with other map orders.",
 "Tests compare one or two literals; agreement must hold for every attribute, and map order differs between processes only.",
 [M+"interaction.rs", M+"v4/interaction.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"request.rs", M+"response.rs", M+"provider_states.rs"],
 [("key and hash", M+"v4/interaction.rs calc_hash"), ("equality", M+"interaction.rs, request.rs, response.rs PartialEq")], "models",
 "algebraic-law monitor with keys compared between processes",
 "Explores thousands of interactions per run.")
prop("P16", "Date-time formats accept and generate exactly what they describe",
 "A text is valid for a date-time format exactly when it is how that format writes some real date and time: every field in range, every literal present, nothing left over, and a day that its month and year have. A value generated for a format states the instant it was generated for and is valid for the format; no format or value causes a crash.",
 ["inputs"], "Formats over all pattern letters, widths, quoted and plain literals; seeded instants at month, year and day boundaries with offsets from -12 to +14 hours, several local time zones; damaged values and arbitrary text.",
 "Tests validate about a hundred literal pairs and never check generated values against the format at particular instants.",
 [M+"time_utils.rs", M+"generators/mod.rs"],
 [("format parser and validator", M+"time_utils.rs parse_pattern, validate_datetime"), ("generation", M+"time_utils.rs to_chrono_pattern, generate_string; "+M+"generators/mod.rs Date, Time, DateTime")], "models",
 "reference-model monitor: independent formatter, single-part corruption, re-runs under other time zones",
 "Explores tens of thousands of formats per run. Letters without a generated form are known findings.")

prop("P12", "Matching rule definitions mean what their grammar says",
 "Every matching rule definition that follows the documented grammar is read as exactly the example value, value type, rules, references and generator it states, however its strings are escaped and its tokens spaced, and definitions joined with commas combine in order. Every text outside the grammar is refused with a message, and no text causes a crash.",
 ["inputs"], "Definitions over the whole grammar, nested and composed, with every escape and arbitrary characters in strings; token streams with one token removed, added or of the wrong kind; arbitrary text.",
 "Tests parse a few dozen literal definitions with mostly plain strings; quoting, numbers and error cases are sampled only.",
 [M+"matchingrules/expressions.rs"], [("definition parser", M+"matchingrules/expressions.rs parse_matcher_def, matching_definition_exp"), ("string escapes", M+"matchingrules/expressions.rs process_raw_string")], "models",
 "reference-model monitor: definitions built as a model, printed, parsed and compared",
 "Explores tens of thousands of definitions per run.")

prop("P13", "Generated values are of the kind their generator states",
 "Whatever its attributes, a generator gives a value of exactly the kind it states: numbers within their limits with every one of them attainable, the stated number of digits or characters of the stated set, UUIDs in the stated format, texts matching the stated regular expression, the mock server's URL in place of the example's. The value suits the type of the one it replaces, and a generator that cannot give one reports an error and never crashes.",
 ["inputs"], "Generators with small, large, reversed and extreme attributes drawn many times for originals of every JSON type; regular expressions over classes, groups, alternatives, repetitions and anchors; mock server details of every shape.",
 "Tests draw a generator once or twice with one set of attributes; random values fail rarely or for particular attributes only.",
 [M+"generators/mod.rs"], [("value generation", M+"generators/mod.rs GenerateValue"), ("random digits and strings", M+"generators/mod.rs generate_decimal, generate_hexadecimal, generate_ascii_string")], "models",
 "statistical and conformance monitor over repeated draws",
 "Each quick run draws about a hundred thousand values.")
prop("P14", "Generators change exactly the parts they address",
 "Applying generators to a JSON document or form replaces exactly the values at the places their paths address, wildcards included, and leaves everything else as it was. A generator meant for the provider or the consumer side only is applied on that side alone, and the body written is the changed document.",
 ["inputs"], "Documents with awkward keys and forms with repeated and escaped parameters; disjoint generators of known value at present, absent and wildcard paths, in both modes.",
 "Tests apply one generator to one small document; overlooked places show only for particular combinations of path and document.",
 [M+"generators/mod.rs", M+"generators/form_urlencoded.rs"], [("JSON handler", M+"generators/mod.rs JsonHandler"), ("form handler", M+"generators/form_urlencoded.rs FormUrlEncodedHandler"), ("modes", M+"generators/mod.rs corresponds_to_mode, apply_generators")], "models",
 "reference-model monitor: independent application of known values",
 "Explores tens of thousands of documents per run.")
prop("P19", "Provider state values are substituted and cast exactly",
 "An expression over provider state values gives the value itself when it is a single reference, otherwise the text with each reference replaced by its value; a missing value or unclosed brace is an error. A value cast to a type is the same value in that type, alike as JSON, text, number and status, or an error; it is never silently another value and never crashes.",
 ["inputs"], "Expressions mixing literals, braces and oddly named references over values of every JSON type; every value cast to every type, with numbers at the limits of each width.",
 "Tests evaluate a dozen expressions and casts; limits, signs and mixed text are not sampled.",
 [M+"expression_parser.rs", M+"generators/mod.rs"], [("expressions", M+"expression_parser.rs parse_expression"), ("casts", M+"expression_parser.rs DataValue")], "models",
 "reference-model monitor: independent substitution and casts",
 "Explores tens of thousands of expressions and casts per run.")

prop("P17", "Content types and bodies mean what their text says",
 "A content type is exactly what its text states, whatever the case and quoting, and prints as text that states the same; whether it is JSON, XML, text or binary, what it equals and what it covers follow from that alone. JSON, XML and HTML documents are recognised as such from their content, and a body reads as text exactly when its hint, else its type, says it is text.",
 ["inputs"], "Media types over common and arbitrary subtypes, suffixes and attributes in every legal spelling, pairs differing in one part, damaged texts; JSON, XML and HTML documents with non-ASCII text; bodies of any bytes with every type and hint.",
 "Tests parse a couple of dozen media types and detect a handful of bodies.",
 [M+"content_types.rs", M+"bodies.rs"], [("content types", M+"content_types.rs ContentType"), ("detection", M+"content_types.rs detect_content_type_from_bytes"), ("bodies as text", M+"bodies.rs value_as_string")], "models",
 "reference-model monitor: types built as a model, spelled, parsed, compared and printed",
 "Explores tens of thousands of types and bodies per run.")
prop("P18", "Headers and content types are found whatever their case",
 "A header is set, replaced and found whatever the case of its name, and a header's text is split into its values except where the header holds one value. The content type of a request, response or message is the one its body states, else the one its header or metadata states in any case, else the one detected from its content.",
 ["inputs", "histories"], "Sequences of setting, adding and looking up headers in every case on every kind of part, messages included; header texts with padding and empty values; parts and loaded documents with every combination of stated, unreadable and absent types.",
 "Tests set one header twice and look up a few names.",
 [M+"http_parts.rs", M+"headers.rs", M+"v4/http_parts.rs", M+"v4/message_parts.rs", M+"message.rs", M+"v4/mod.rs", M+"json_utils.rs"], [("header access", M+"http_parts.rs HttpPart; "+M+"v4/http_parts.rs set_header"), ("header texts", M+"headers.rs parse_header"), ("content type of a part", M+"v4/mod.rs calc_content_type; "+M+"http_parts.rs content_type")], "models",
 "reference-model monitor over header histories and part contents",
 "Explores tens of thousands of histories and parts per run.")

T = "rust/pact_matching/src/"
prop("P30", "JSON bodies are accepted exactly when they comply with the rules",
 "A JSON body is accepted when every value equals the example or satisfies the matching rules for its place, and otherwise refused with each mismatch naming the place that differs. An example always matches itself, array size limits hold whatever the example holds, additional keys are allowed in responses and messages but not in requests, and no rule is lost through nesting, wildcards, maps or contained variants.",
 ["inputs"], "Templates nesting objects, arrays, maps, contained variants and leaves under every kind of rule with awkward key names, as the body of requests, responses, messages and synchronous messages; complying documents and documents with one known difference.",
 "Tests match a few hand-written documents with one or two rules; how rules combine over nested documents is not sampled.",
 [T+"json.rs", T+"matchingrules.rs", T+"matchers.rs"], [("JSON bodies", T+"json.rs match_json"), ("lists and maps", T+"matchingrules.rs compare_lists_with_matchingrule, compare_maps_with_matchingrule"), ("best rule", M+"matchingrules/mod.rs select_best_matcher")], "matching",
 "generative monitor: templates with known verdict and place of difference",
 "Explores about fifty thousand documents per quick run.")
prop("P31", "Every difference in a request or response is reported, and no other",
 "Matching a request or response reports a difference for exactly the parts that differ: method, path, status, each query parameter and header by name, and the body or its type. Header names, methods and header parameters match in any case and order, additional headers are ignored and additional query parameters are not; a request matches as a whole exactly when nothing is reported, and a worse one scores lower.",
 ["inputs"], "Requests and responses with rules of every kind on paths, queries, headers and status, lists of values, parameterised headers, JSON, text, empty and absent bodies, and up to 160 headers and parameters; actual ones that comply and ones with any subset of parts changed.",
 "Tests change one part of a small request at a time.",
 [T+"lib.rs", T+"query.rs", T+"headers.rs", T+"matchers.rs"], [("requests and responses", T+"lib.rs match_request, match_response"), ("query parameters", T+"query.rs match_query_maps"), ("headers", T+"headers.rs match_headers"), ("score", T+"lib.rs RequestMatchResult")], "matching",
 "generative monitor: requests and responses whose differing parts are known",
 "Explores about forty thousand pairs per quick run.")

prop("P32", "XML bodies are accepted exactly when they comply with the rules",
 "An XML body is accepted when its elements, attributes and texts equal the example or satisfy the rules for their place, and otherwise refused with every mismatch naming the place that differs. Layout, comments, declaration, order of attributes and namespace prefixes make no difference; a document always matches itself.",
 ["inputs"], "Template documents with namespaces, repeated and mixed children, attributes, texts and rules of every kind at every depth, as bodies of requests and responses; complying documents in other presentations and documents with one known difference.",
 "Tests match a few small documents with one rule.",
 [T+"xml.rs", T+"matchingrules.rs", T+"matchers.rs"], [("XML bodies", T+"xml.rs match_xml"), ("lists of children", T+"matchingrules.rs compare_lists_with_matchingrule")], "matching",
 "generative monitor: template documents with known verdict and place of difference",
 "Explores about five thousand document pairs per quick run.")
prop("P33", "Text, binary and form bodies are compared as what they are",
 "Bodies of forms are accepted exactly when each field has the values or satisfies the rules of the expected one, other texts when they are equal or satisfy the rule for the whole body, and binary ones when they are the same bytes or of the type asked. A missing expected body accepts anything, an empty one only nothing, and a body of another type is refused as such.",
 ["inputs"], "Text, binary and form bodies of all sizes with and without rules, in any character set and spelling of the content type; bodies of each type against each other; absent, null and empty bodies on either side.",
 "Tests compare two or three bodies per type.",
 [T+"lib.rs", T+"form_urlencoded.rs", T+"binary_utils.rs", T+"matchers.rs"], [("bodies and their types", T+"lib.rs compare_bodies, match_body"), ("forms", T+"form_urlencoded.rs"), ("binary", T+"binary_utils.rs")], "matching",
 "generative monitor: bodies of known type, presence and difference",
 "Explores tens of thousands of body pairs per quick run; multipart bodies are outside, their parser is not available offline.")

prop("P34", "Generating changes what generators are bound to and nothing else",
 "Generating a request, response or message replaces exactly the values that generators of the current mode are bound to, in the path, query, headers, status, metadata and contents, with values those generators yield; everything else, with the content type, stays as it was. What is generated for a matching rule satisfies it, and a generator that fails leaves the original.",
 ["inputs"], "Requests, responses and messages of every kind with generators of known value in every part, at present and absent places and names in other case; contents of every type; both modes; generators of every kind next to the rule for the same place.",
 "Tests apply one generator to one part at a time.",
 [T+"lib.rs", T+"generators/mod.rs", T+"generators/bodies.rs"], [("requests and responses", T+"lib.rs generate_request, generate_response"), ("messages", T+"generators/mod.rs generate_message, apply_generators_to_async_message, apply_generators_to_sync_message"), ("contents", T+"generators/bodies.rs generators_process_body")], "matching",
 "generative monitor: generators of known value against everything that came out",
 "Explores over fifty thousand documents per quick run.")
prop("P37", "Messages match by their metadata, contents and every response",
 "Matching messages reports exactly the metadata entries and contents that differ: every expected entry has to be there and equal or satisfy its rules, and additional ones are ignored. Each response of a synchronous message is compared with the one at its place, a wrong number of responses is reported, and interactions of different kinds never match.",
 ["inputs"], "Messages of both formats and synchronous messages with up to three responses with rules on metadata and contents; actual ones that comply, differ in a known set of entries, or have other numbers of responses; every kind of interaction against every other.",
 "Tests match a message with one entry of metadata.",
 [T+"lib.rs"], [("messages", T+"lib.rs match_message, match_message_metadata"), ("synchronous messages", T+"lib.rs match_sync_message"), ("interactions", T+"lib.rs match_interaction")], "matching",
 "generative monitor: messages whose differing parts are known",
 "Explores about thirty thousand comparisons per quick run.")

prop("P38", "Published cases decide the same in every presentation",
 "Each of the specification's published request, response and message cases is decided as published, and stays so in every equivalent presentation: header names in other case, headers, parameters, members and rules in other order, loaded as another specification version that means the same, matched alone or within a pact.",
 ["inputs"], "The published cases of all specification versions, each in dozens of seeded equivalent presentations.",
 "The published cases are run once, as written.",
 [T+"lib.rs", T+"json.rs", T+"xml.rs", T+"query.rs", T+"headers.rs", T+"matchingrules.rs", T+"matchers.rs"], [("requests, responses and messages", T+"lib.rs match_request, match_response, match_message")], "matching",
 "metamorphic monitor: published verdicts kept under equivalent presentations",
 "Explores the 803 published cases in several presentations each per run.")

prop("P21", "Checking a pact file reports exactly its faults",
 "Checking a pact file against a specification version reports every missing, misnamed or wrongly typed part at its place, naming what is expected and what is there, and reports nothing about a file without such faults. Strictness changes how serious a fault is and never which faults are found, and the outcome survives being written and read. The JSON schema published for a format accepts every file of that format and refuses one whose required parts are missing or of the wrong kind.",
 ["inputs"], "Documents of the formats with a known set of missing, wrongly typed and unknown parts in pacticipants, interactions, states and metadata; every strictness and version; documents that are no objects at all.",
 "Tests check a few documents with one fault each.",
 [M+"verify_json.rs", M+"sync_pact.rs", M+"sync_interaction.rs", M+"provider_states.rs", M+"message_pact.rs", M+"v4/pact.rs"], [("pact checks", M+"verify_json.rs; "+M+"sync_pact.rs verify_json"), ("interaction and state checks", M+"sync_interaction.rs, provider_states.rs verify_json")], "models",
 "generative monitor: documents with a known set of faults",
 "Explores tens of thousands of documents per run.")
prop("P22", "Matching rules say what they are",
 "A matching rule, list or category of rules describes itself truly: its kind, the generators it holds, whether it is about types, values or lengths, which places it holds for and whether it hands down to what is below. Building, combining, filtering and renaming rules does exactly that, keeps equality and never loses, doubles or reorders a rule.",
 ["inputs", "histories"], "Rules of every kind with nested contained variants and key and value rules; histories of additions, removals, renames, filters and merges on lists, categories and collections.",
 "Tests build one or two rules and ask one question of them.",
 [M+"matchingrules/mod.rs"], [("rules", M+"matchingrules/mod.rs MatchingRule"), ("lists of rules", M+"matchingrules/mod.rs RuleList"), ("categories", M+"matchingrules/mod.rs MatchingRuleCategory"), ("collections", M+"matchingrules/mod.rs MatchingRules")], "models",
 "reference-model monitor over histories of changes to rules",
 "Explores tens of thousands of rules and histories per run.")
prop("P23", "Changing a pact changes what was asked and nothing else",
 "Through any history of adding interactions of either format, plugins and versions, and of setting identifiers, descriptions, states, comments, markup, transport, bodies, rules and headers, a pact states exactly what was asked and nothing else changes. What a pact cannot hold is refused and leaves it as it was; copies are equal to it and untouched by later changes.",
 ["histories"], "Seeded histories of up to a dozen steps over pacts of the three formats holding interactions of all kinds.",
 "Tests make one change to one kind of pact.",
 [M+"pact.rs", M+"interaction.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"v4/pact.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"v4/interaction.rs", M+"plugins.rs"], [("pact changes", M+"v4/pact.rs, sync_pact.rs, message_pact.rs impl ReadWritePact and Pact"), ("interaction changes", M+"v4/ impl Interaction and V4Interaction")], "models",
 "history monitor: a record of the steps asked for against everything reported and written",
 "Explores thousands of histories per run.")
prop("P24", "The specification version is the one the document states",
 "The specification version of a pact is the one its metadata states, in any of the accepted spellings and places, and the pact is loaded, written and loaded again as that version and kind. Versions are ordered, named and read back consistently, and a version that is not supported is refused.",
 ["inputs"], "Versions with missing, additional and odd components in every place the metadata allows them; documents with requests or messages of every version, written at every version.",
 "Tests read a few spellings of one or two versions.",
 [M+"lib.rs", M+"verify_json.rs", M+"json_utils.rs", M+"pact.rs"], [("version text", M+"lib.rs PactSpecification"), ("stated version", M+"lib.rs; "+M+"pact.rs load_pact_from_json"), ("metadata lookup", M+"pact.rs determine_spec_version")], "models",
 "reference-model monitor: versions spelled from a model, read, ordered, written and read again",
 "Explores tens of thousands of documents per run.")
prop("P25", "Fetching pacts sends the credentials and never shows them",
 "Fetching a document asks the server named for exactly the resource named with exactly the credentials given, and gives exactly the document answered; an answer that reports failure, is cut short or is no document is an error. Passwords and tokens are not shown in full in errors or wherever credentials are displayed.",
 ["inputs", "faults"], "A scripted loopback server answering documents, failures, cut short and unreadable contents; user names, passwords and tokens of any length and characters.",
 "Tests display two credentials and fetch one document.",
 [M+"http_utils.rs", M+"pact.rs"], [("HTTP access", M+"http_utils.rs fetch_json_from_url, with_auth"), ("display", M+"http_utils.rs HttpAuth Display")], "models",
 "conformance monitor at a scripted loopback server",
 "Explores over a thousand exchanges per run; the HTTP client library is a stand-in, so its own defects are outside.")

prop("P26", "Another spelling of a pact loads as the same pact",
 "A pact written in any of the forms its specification allows loads as the same pact: what is left out takes its default, older names and aliases mean what the newer ones do, single values mean lists of one, and content means the same in any encoding it states. Attributes the specification does not know change nothing else.",
 ["inputs"], "Pacts of every version with rewritings of methods, paths, statuses, queries, headers, bodies, states, metadata, rules, generators and versions into each other form.",
 "Tests load a few files in the older forms.",
 [M+"request.rs", M+"response.rs", M+"message.rs", M+"json_utils.rs", M+"provider_states.rs", M+"matchingrules/mod.rs", M+"generators/mod.rs", M+"v4/http_parts.rs"], [("loading", M+"pact.rs load_pact_from_json"), ("rules", M+"matchingrules/mod.rs MatchingRule::from_json")], "models",
 "metamorphic monitor comparing the pacts loaded from two spellings",
 "Explores tens of thousands of rewritten documents per run; only rewritings the monitor knows.")

V = "rust/pact_verifier/src/"
prop("P27", "A pact reads the same whole, in parts and from a file",
 "A pact document gives the same pact through every way of reading it: as a value, from a file, through the reader of its own format, and interaction by interaction and part by part. An interaction without a description gets the documented default for its position, and a file that was cut short is refused and never read as a smaller pact.",
 ["inputs", "faults"], "Documents of every version and kind read through each public reader, each part of them read on its own, and files cut at any byte.",
 "Tests read each fixture through one reader.",
 [M+"pact.rs", M+"interaction.rs", M+"v4/pact.rs", M+"v4/interaction.rs", M+"v4/http_parts.rs", M+"v4/message_parts.rs", M+"v4/synch_http.rs", M+"v4/async_message.rs", M+"v4/sync_message.rs", M+"sync_pact.rs", M+"message_pact.rs", M+"message.rs", M+"request.rs", M+"response.rs"], [("readers", M+"pact.rs read_pact, load_pact_from_json; "+M+"v4/pact.rs pact_from_json; "+M+"v4/interaction.rs interactions_from_json"), ("parts", M+"interaction.rs http_interaction_from_json, message_interaction_from_json; from_json of each part")], "models",
 "differential monitor comparing everything observable of a pact across its readers",
 "Explores thousands of documents through every reader per run.")
prop("P28", "Conflicts between interactions name exactly what differs",
 "Comparing two requests, responses or interactions reports a difference of each kind exactly when they differ in that part, the same in either direction. Two interactions of the same description and provider states conflict exactly when they differ in their method, path, query or status, those of another description or state never do, and pacts holding conflicting interactions are not merged.",
 ["inputs"], "Interactions of any content and a copy changed in any set of parts: method, path, query, headers, bodies, rules, status, description, states and their parameters.",
 "Tests change one part of a default request.",
 [M+"request.rs", M+"response.rs", M+"sync_interaction.rs", M+"sync_pact.rs", M+"v4/synch_http.rs"], [("differences", M+"request.rs differences_from; "+M+"response.rs differences_from"), ("conflicts", M+"sync_interaction.rs conflicts_with; "+M+"sync_pact.rs merge")], "models",
 "reference monitor: the set of changes made against the differences and conflicts reported",
 "Explores tens of thousands of pairs per run.")
prop("P40", "A provider is judged exactly by whether it kept the pacts",
 "Verifying a provider succeeds exactly if it keeps every interaction of the pacts that is not pending: each one it breaks is reported under its name with the parts that differ, none it keeps is reported, and the results are the same whatever else is verified with it. A provider that cannot be reached or fails to provide a message never passes.",
 ["inputs", "faults"], "1-3 generated pacts of every version with requests and messages against a loopback provider with a known set of faults in status, headers, body, metadata, connections and answers.",
 "Tests verify one or two interactions against a mock of the expected answer.",
 [V+"lib.rs", V+"provider_client.rs", V+"messages.rs", V+"verification_result.rs"], [("verdict", V+"lib.rs verify_provider_async, verify_pact_internal"), ("messages", V+"messages.rs")], "verifier",
 "fault-injecting loopback provider of known behaviour judged by the real verifier",
 "Explores thousands of verifications per run; the HTTP client library is a stand-in.")
prop("P41", "A provider is sent exactly the request of the pact",
 "The provider receives the method, path, query, headers and body of each interaction exactly as the pact states them, below the base path of the provider and at the address of the interaction's transport, with the custom headers added and the request filter applied. For a message it receives the description and the provider states.",
 ["inputs"], "Generated interactions with awkward paths, queries, headers and bodies, transports, base paths, custom headers and filters; the bytes received are decoded by the monitor.",
 "Tests send a few requests with simple values.",
 [V+"provider_client.rs", V+"request_response.rs", V+"messages.rs", V+"lib.rs"], [("requests", V+"provider_client.rs make_provider_request, create_native_request"), ("transports", V+"lib.rs ProviderTransport")], "verifier",
 "conformance monitor on the bytes received by a loopback provider",
 "Explores thousands of requests per run; the HTTP client library is a stand-in.")
prop("P42", "Provider states are set up before and torn down after each request",
 "The state changes of an interaction are all made in order before its request and, if asked for, torn down after it, each with its name and parameters, and no other interaction's. An interaction whose state could not be set up is reported as failed without being sent, and values returned by a state change appear in the request in the places that ask for them.",
 ["inputs", "faults", "orderings"], "State changes by callback, body or query with parameters, teardown, handlers that fail, break the connection or recover after retries and values they return; one log over both servers checked in order.",
 "Tests run one state change that succeeds.",
 [V+"lib.rs", V+"callback_executors.rs", V+"provider_client.rs"], [("state changes", V+"callback_executors.rs; "+V+"lib.rs execute_provider_states"), ("requests", V+"provider_client.rs make_state_change_request")], "verifier",
 "ordering monitor over one log of state changes and provider requests",
 "Explores thousands of verifications per run.")
prop("P43", "The interactions selected are verified, each once",
 "Of the pacts given as documents, files and nested directories, those of the provider and the consumers asked for are verified, and of those the interactions that match the filters by description and provider state: each exactly once, and nothing else. Asking for nothing that exists is an error unless that is allowed.",
 ["inputs"], "Generated pacts of several consumers and providers in documents and directory trees, with consumer lists and filters of known meaning.",
 "Tests check the filter of one interaction.",
 [V+"lib.rs", V+"pact_broker.rs"], [("sources", V+"lib.rs fetch_pacts, walkdir"), ("filters", V+"lib.rs FilterInfo, filter_interaction, filter_consumers")], "verifier",
 "conservation monitor: interactions requested against interactions selected",
 "Explores thousands of selections per run.")
prop("P44", "The broker is told what was found, once, and nothing unasked",
 "Each pact the broker lists for the selection is fetched with the credentials given and verified once. Where asked for, its results are published once with the right outcome for the pact and each interaction, after the version's tags and branch; the broker's notices for that outcome are shown, and trouble with the broker never counts as success.",
 ["inputs", "faults"], "1-3 generated pacts in a loopback broker with context paths, relative and absolute links, authentication, selectors, pending pacts and notices, and troubles from missing pacts to malformed lists and failed publishing.",
 "Tests fetch or publish one pact with a scripted broker.",
 [V+"pact_broker.rs", V+"lib.rs", V+"selectors.rs"], [("broker client", V+"pact_broker.rs HALClient, publish_verification_results"), ("publishing and notices", V+"lib.rs publish_result, process_notices")], "verifier",
 "protocol monitor over the log of requests at a loopback broker",
 "Explores thousands of broker sessions per run; the HTTP client library is a stand-in.")
F = "rust/pact_ffi/src/"
prop("P50", "No call to the C API crashes, whatever it is given",
 "Any sequence of calls to the C API, with NULL, empty, malformed or non-UTF-8 texts, unfinished or unexpected JSON, and handles that are invalid, released or of another kind, comes back with the documented failure value: nothing aborts, overflows, or reads or writes memory it does not own. Every function that takes a pointer accepts NULL.",
 ["inputs", "histories"], "Sequences of up to 28 calls that build pacts, messages and bodies with hostile arguments; every function with NULL for each pointer and hostile texts.",
 "Tests call each function with the arguments of a well-behaved caller; aborts and stray reads depend on what is passed and what was called before.",
 [F+"mock_server/handles.rs", F+"mock_server/bodies.rs", F+"mock_server/mod.rs", F+"util/", F+"models/", "rust/pact_models/src/matchingrules/mod.rs"],
 [("building functions", F+"mock_server/handles.rs"), ("integration JSON", F+"mock_server/bodies.rs"), ("panic barrier", F+"util/ffi.rs, "+F+"error/panic.rs")], "ffi",
 "AddressSanitizer, overflow checks and a crash supervisor around seeded hostile call sequences",
 "Explores thousands of call sequences per run; mock server, plugin driver, TLS and multipart crates are stand-ins.")
prop("P51", "A pact built through the C API says what it was told",
 "A pact built by calls to the C API and written to a file has every interaction that was added with every attribute it was given (states, query, headers, bodies of every form, rules, generators, metadata, comments), in the order given, and nothing else, whichever order the parts were given in. Pacts built by several threads at once do not affect each other.",
 ["inputs", "orderings", "schedules"], "Generated pacts of every version and interaction kind made with calls in random order, with JSON, XML, text, form and binary bodies in plain and annotated form; four builders on four threads at once.",
 "Tests build a few fixed interactions in one order on one thread.",
 [F+"mock_server/handles.rs", F+"mock_server/bodies.rs", F+"mock_server/xml.rs", F+"mock_server/form_urlencoded.rs"],
 [("building functions", F+"mock_server/handles.rs"), ("annotated bodies", F+"mock_server/bodies.rs, xml.rs, form_urlencoded.rs"), ("shared tables of handles", F+"mock_server/handles.rs PACT_HANDLES")], "ffi",
 "reference monitor: the file written against a record of what was asked for, alone and with concurrent builders, under AddressSanitizer",
 "Explores thousands of built pacts per run.")
prop("P52", "What the C API hands out is right, safe to keep and freed",
 "Walking a parsed pact through the accessors and iterators of the C API gives every interaction, body, rule, generator, state and metadata entry the document has, with its value. What is documented as a copy outlives its source and is the caller's to delete, what was set is copied from the caller's memory, and when everything is deleted nothing is left behind. Definitions, mismatches and error messages are reported with their values within the buffer given.",
 ["inputs", "histories"], "Generated V3 and V4 pacts walked completely, changed from memory that is then overwritten and released, and read again, four times each; parsed definitions, matched messages and error buffers of every size.",
 "Tests walk one message and cannot see a use after free or a leak.",
 [F+"models/", F+"lib.rs", F+"matching.rs", F+"util/", F+"error/ffi.rs"],
 [("accessors and iterators", F+"models/"), ("ownership", F+"util/ptr.rs, "+F+"util/string.rs"), ("error messages", F+"error/ffi.rs, "+F+"util/write.rs")], "ffi",
 "AddressSanitizer and a per-thread count of live memory around complete walks, with a reading of the document as reference",
 "Explores thousands of walks per run.")
C = "rust/pact_consumer/src/"
prop("P53", "A pact built with the consumer DSL says what the test said",
 "The pact of a test written with the Rust consumer DSL has every interaction, HTTP request and response, message and synchronous message with every attribute it was given (states, query, headers, bodies, metadata, comments, references), and the rules and generators of its patterns at the right places, whichever order the parts were given in. The example of every pattern matches the pattern's own rules.",
 ["inputs", "orderings"], "Generated pacts of V3 and V4 with HTTP, message and synchronous message interactions, nested patterns of every kind, and contents made elsewhere with rules and generators of their own, the parts given in random order.",
 "Tests build a few fixed interactions and patterns.",
 [C+"builders/", C+"patterns/", C+"util.rs"],
 [("builders", C+"builders/pact_builder.rs, interaction_builder.rs, request_builder.rs, response_builder.rs, message_builder.rs, sync_message_builder.rs"), ("patterns", C+"patterns/json_pattern.rs, string_patterns.rs, special_rules.rs")], "consumer",
 "reference monitor: the pact built and written against a record of what was asked for; every example matched against its own rules",
 "Explores thousands of built pacts per run; plugin contents are not covered, pact_mock_server is a stand-in.")
prop("P54", "A consumer test gets its messages, and its pact only if all requests matched",
 "Iterating over the messages of a pact gives each one once, in order, with its generators applied, in plain code as well as inside any async runtime, and writes the whole pact unless the test fails. A mock server started for a test that goes out of scope with every request matched writes the whole pact; otherwise it writes nothing and makes the test fail, naming each request that went wrong. What other tests have written to the file is kept.",
 ["inputs", "schedules", "faults"], "Generated message pacts iterated outside a runtime and inside one-thread and multi-thread runtimes; mock servers dropped with and without mismatches, in passing and failing tests.",
 "Tests iterate over one message in one kind of runtime and start servers whose requests all match.",
 [C+"builders/message_iter.rs", C+"mock_server/http_mock_server.rs", C+"builders/pact_builder.rs"],
 [("iterators", C+"builders/message_iter.rs"), ("end of a test", C+"mock_server/http_mock_server.rs drop_helper"), ("output directory", C+"util.rs, "+C+"mock_server/http_mock_server.rs")], "consumer",
 "trace monitor with deadlines: what each test is handed, panics with, and leaves on disk, in three kinds of runtime",
 "Explores thousands of test runs per run; the mock server itself is a stand-in that reports the mismatches it is told to.")
