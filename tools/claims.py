BASE = "Exhaustive within the stated alphabet and bounds; trusts the reference model in the check, rustc, and the offline stand-ins for onig/fs2/reqwest (see DESIGN.md)."
BX = "bounded exhaustive exploration of the real code against a reference model"
CLAIMS = {
 "C01": (BX + " (every interaction kind and specification version x sets of attribute alternatives x lists of interactions)", BASE),
 "C04": ("stateless exploration of the real writers and readers under a controlled scheduler at the level of system calls: every interleaving of their file operations, every point of death and part-way writes", BASE),
 "C05": (BX + " (every interaction kind x sets of attribute alternatives through every conversion; every list of interaction kinds x version)", BASE),
 "C06": (BX + " (all pairs of documents and of rules, generators and states; every iteration order of every map)", BASE),
 "C10": (BX + " (all token sequences, all texts up to a length)", BASE),
 "C11": (BX + " (all expressions x all paths up to a depth)", BASE),
 "C12": (BX + " (every rule kind x location, pairs of rules, definition documents)", BASE),
 "C13": (BX + " (all sets of up to 3 expressions, insertion orders and hash seeds)", BASE),
 "C14": (BX + " (all sentences of the grammar with every single-token edit, all token sequences and texts up to a length)", BASE),
 "C18": (BX + " (all token sequences, every unit x amount x base instant)", BASE),
 "C21": (BX + " (all texts up to a length, every value x type)", BASE),
 "C19": (BX + " (every pattern letter sequence, field x instant x zone, number x field)", BASE),
 "C16": (BX + " (every sequence of words of the random source up to a length, every target kind, bounds, lengths, clock readings)", BASE),
 "C17": (BX + " (all documents x all paths up to a depth, all sequences of form fields)", BASE),
 "C09": (BX + " (every Unicode character, all texts up to a length, all small queries in every document version)", BASE),
 "C20": (BX + " (all entry lists up to a length through every interaction type)", BASE),
 "C24": (BX + " (every header class x value list x document form, all update sequences up to a length)", BASE),
 "C25": (BX + " (all pairs of JSON documents up to a size, all path expressions x documents)", BASE),
 "C02": (BX + " (every node of every generated document x every replacement value, name, removal and addition)", BASE),
 "C03": (BX + " (every pair of interaction lists up to a length, in every order, with repeated and reversed merges)", BASE),
 "C22": (BX + " (all version texts up to a length, every version x spelling x other metadata through every entry point)", BASE),
 "C27": (BX + " (all sequences of editing operations up to a length on every kind of pact, every observer compared with a model after each)", BASE),
 "C23": (BX + " (every node of written documents replaced, removed or added to, and all pairs of such changes, against a reference checker and the JSON schema)", BASE),
 "C07": (BX + " (all byte strings over an alphabet x content types x hints, JSON documents, encodings)", BASE),
 "C08": (BX + " (all types x attribute lists, all texts over the media type syntax up to a length)", BASE),
 "C15": (BX + " (every generator kind x location, definition documents)", BASE),
 "C30": (BX + " (all pairs of small JSON documents x every set of up to two rules with AND/OR logic x both extra-key modes)", BASE),
 "C33": (BX + " (all pairs of header and query value lists over an alphabet x rules, and all sets of names)", BASE),
 "C35": (BX + " (every rule kind x parameters x expected value x actual value in native JSON, text and bytes)", BASE),
 "C31": (BX + " (every pair of requests with all values for any two parts, and all parts at once, under every rule set)", BASE),
 "C32": (BX + " (every pair of responses with all values for any two parts, and all parts at once, under every rule set; every status code)", BASE),
 "C34": (BX + " (every pair of messages over contents x content types x metadata x rules, every pair of lists of responses)", BASE),
 "C36": (BX + " (every pair of body states, contents and content types, under every rule at the root; every pair of form bodies under every rule)", BASE),
 "C26": (BX + " (every document over an alphabet of names, attributes and text x every path expression up to a length)", BASE),
 "C37": (BX + " (all pairs of small XML documents in several layouts x every set of up to two rules x both extra-child modes)", BASE),
 "C38": (BX + " (every request, response and message over an alphabet x up to two generators per part x mode x context, generated values compared with a reference)", BASE),
 "C39": (BX + " (every match, load and generation over small alphabets repeated under a list of hash seeds and every order of insertion, all outcomes equal)", BASE),
 "C40": (BX + " (every pair of small requests for each part and in all combinations, JSON, XML and text bodies under every rule and list of two rules, through the plan-based engine)", BASE),
 "C50": (BX + " (the real verifier against every provider, pact source and broker of a bounded alphabet behind a simulated network)", BASE),
 "C51": (BX + " (the real verifier against every pattern of answers of a state change handler and a provider behind a simulated network)", BASE),
 "C52": (BX + " (the real broker client against every small link graph and every combination of faults of its resources behind a simulated network)", BASE),
 "C53": (BX + " (the real provider client and verifier: every request, response and message of a bounded alphabet, with the wire observed at a simulated network)", BASE),
 "C61": (BX + " (the real C interface: every sequence of calls up to a length on every kind of interaction, and on several interactions of two pacts, compared with a model of the handles after each history)", BASE),
"C62": (BX + " (the real C interface: every description over alphabets of values, matchers, names and nestings for JSON, form and XML bodies and for headers, parameters, paths, statuses and metadata)", BASE),
 "C63": (BX + " (every document over alphabets of interactions read through every accessor of the C interface, compared with the natively loaded model; allocations counted)", BASE),
 "C64": (BX + " (every sequence of setters of every kind of model through the C interface, with the caller's memory overwritten after each call; allocations counted)", BASE),
 "C65": (BX + " (every sequence of definitions, rule kind x pair of values, format, expression, buffer size and pair of messages through the C interface)", BASE),
 "C66": (BX + " (every sequence of calls on a pact and a message pact handle that share a file, and of multipart calls, through the C interface)", BASE),
 "C67": (BX + " (every sequence of settings, sources and executions of a verifier handle, and every small command line, through the C interface, against the native verification on a network of our own)", BASE),
 "C68": (BX + " (every pattern of the consumer DSL of small nesting depth, against its meaning put together from its parts)", BASE),
 "C69": (BX + " (every short sequence of calls of the consumer DSL's builders, and every small pact's message iterators under every kind of runtime)", BASE),
 "C54": (BX + " (the real publication of results: every list of results, set of options and combination of faults of the broker's resources behind a simulated network)", BASE),
}
NOT_APPLICABLE = {
 "C60": "a consumer test runs against the mock server, and pact_mock_server is an empty git submodule in this checkout and not in the crate cache; the DSL's patterns and builders are decided by C68 and C69",
}
NOTES = "All checks build a harness crate under /verif with path dependencies on /repo's crates, natively and offline."
