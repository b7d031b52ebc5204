prop("P01", "Scanning rewrites exactly the reported spans, and reports correct offsets",
 "After a scan, every string of the event equals its original with each reported match replaced by its rule's replacement and every other character unchanged; nothing else in the event changes. Each match reports its path, the start and end of the replacement in the rewritten string, and the running shift (end in the rewritten string minus end in the original), counted in the units of the event's encoding (UTF-8 bytes, UTF-16 units, or characters).",
 ["inputs", "configurations"], "all rule sets and match actions, all events (trees of strings with any Unicode text) and all event encodings",
 "The tests scan a handful of ASCII strings with one or two matches; offsets after several replacements of different lengths, in non-ASCII text and other encodings, are hardly sampled.",
 [SC, S+"encoding.rs", S+"match_action.rs", S+"event.rs"],
 [("apply_match_actions: replacement, shift bookkeeping", SC), ("encoding index conversion", S+"encoding.rs")],
 "property-based testing: invariant rebuilt from input and output, plus comparison with a reference model",
 "Generated worlds (1-4 rules, tree events, three encodings); the 'rebuild' part decides from input and output alone, the 'model' part predicts every field.")
prop("P02", "Reported matches never overlap, and the documented match wins",
 "The matches reported for one string never overlap and come in order of position. Of overlapping candidates, one whose rule modifies the text wins over one whose rule does not, then the one that starts first, then the longer one, then the rule listed first; a candidate is dropped only when it overlaps a reported match.",
 ["inputs", "configurations"], "all rule sets, actions and texts",
 "Overlap resolution depends on the combination of several rules, actions, positions and lengths; tests fix a few pairs.",
 [SC], [("sort and removal of overlapping matches", SC)], MODEL,
 "2-6 rules over a small alphabet so that most cases have overlapping candidates; exact comparison with the model.")
prop("P03", "A match action replaces the match exactly as configured, hiding the value",
 "For every match and action: Redact puts the configured text in place of the whole match; Hash (and the UTF-16 variant) the hexadecimal FarmHash fingerprint of the match's UTF-8 (UTF-16LE) bytes, so equal values get equal hashes and different values different ones; PartialRedact puts exactly the configured number of asterisks in place of that many characters (or all, when there are fewer) at the chosen end, counting characters and not bytes; no action leaves the match alone. The reported replacement type names the action. No other part of a redacted value remains.",
 ["inputs", "configurations"], "all actions, counts and replacement texts, and all matched texts, including non-ASCII and shorter than the count",
 "The tests apply each action to one or two ASCII words.",
 [S+"match_action.rs", SC], [("get_replacement", S+"match_action.rs"), ("apply_match_actions", SC)],
 "property-based testing against an executable specification of the actions, plus a metamorphic check: two values give the same output exactly when the parts the action lets through are equal",
 "Through the whole scanner and through MatchAction::get_replacement; the FarmHash of the build is a stand-in checked against published vectors.")
prop("P04", "A rule reports exactly its leftmost, non-overlapping true matches",
 "In a text in its scope, a rule without proximity keywords reports exactly the matches found by searching its pattern left to right: a candidate accepted by the rule's secondary validator is reported and the search resumes at its end; a rejected candidate is not reported and the search resumes one character after its start.",
 ["inputs", "configurations"], "all patterns, secondary validators and texts",
 "No finite set of texts shows that no match is missed or invented; tests check one or two positions per rule.",
 [CO, SC, VAL], [("true positive search", CO), ("false positive check and resume position", SC)], MODEL,
 "Generated patterns (simple and full syntax) and texts biased to match; PCRE2 finds the candidates, own checksum specifications accept or reject them.")
prop("P05", "Included keywords: a match counts exactly when a keyword is close before it",
 "A rule with included keywords reports a match exactly when one of the keywords occurs in the same text, starting at or before the start of the match, with at most the configured number of characters from the start of the keyword to the start of the match, the pattern being searched from the start of the keyword on. Keywords are compared ignoring case, and a keyword that starts (or ends) with an ASCII letter or digit must start (or end) at a word boundary; distances count characters, not bytes.",
 ["inputs", "configurations"], "all keyword lists, look-ahead counts, patterns and texts, including several and overlapping keywords and non-ASCII text",
 "The tests use one keyword and one match; the interplay of several keywords, windows and matches is not sampled.",
 [CO, PKI, PK], [("included keyword search and windows", CO), ("keyword search", PKI)], MODEL,
 "Model: union over all keyword occurrences of the matches found from there within the window. Where a keyword lies inside a match, so that different keywords align the matches differently, only 'every match is a candidate' is required.")
prop("P06", "Excluded keywords: a match is dropped exactly when a keyword precedes it",
 "A rule with excluded keywords (and no included ones) drops a candidate exactly when one of the keywords lies entirely within the configured number of characters before the candidate; the search then resumes one character after the candidate's start. The comparison ignores case and the characters '-' and '_', and requires word boundaries next to ASCII letters and digits.",
 ["inputs", "configurations"], "all keyword lists, look-ahead counts, patterns and texts",
 "Boundaries of the window, dashes and non-ASCII characters next to it combine in ways the few tests do not sample.",
 [PKE, PK, SC], [("excluded keyword check", PKE), ("false positive check", SC)], MODEL,
 "Exact comparison with a model written over character lists, without regexes.")
prop("P07", "Keywords in field names: a keyword in the path makes every match count",
 "When matching of keywords in event paths is enabled, a rule with included keywords reports every match in a string whose path contains one of the keywords as words, where separators, camelCase and case do not matter; in other strings, and when the feature is disabled, only keywords in the text count.",
 ["inputs", "configurations"], "all keyword lists, paths (ASCII field names) and texts",
 "Tests cover a few fixed paths; the standardisation of names and its cache across the tree are not explored.",
 [CO, MS, PK, S+"path.rs"], [("path standardisation", PK), ("path keyword tracking during traversal", MS)], MODEL,
 "Tree events over field names that contain, split or camel-case the keywords; exact comparison with the model.")
prop("P08", "A rule is applied exactly to the parts of the event its scope selects",
 "A rule that includes only some paths reports matches only in strings under those paths and not under its exclusions; a rule that excludes paths reports in all other strings; a rule with the default scope reports everywhere. A path is under another when it starts with it; with implicit index wildcards, array positions the scope does not mention are skipped. A path prints as its field names joined by '.', with positions as [n].",
 ["inputs", "configurations"], "all scopes (nested, overlapping, with fields and indices) and all event trees",
 "The rule trees of several rules are merged; tests cover single small trees.",
 [MS, S+"scanner/scope.rs", S+"path.rs", SCOPE], [("rule tree and traversal", MS), ("bool set", SCOPE)], MODEL,
 "1-4 rules with random scopes over random trees; the model decides each (rule, string) pair by prefix comparison.")
prop("P09", "A value matched at an excluded path is not reported elsewhere",
 "When a value is matched by a rule at a path which that rule excludes, the same value is a false positive for every regex rule in the whole event, whatever the order in which the strings are visited; values differing in any character are unaffected, and nothing is carried over to another event. With the feature disabled, excluded paths only exclude themselves.",
 ["inputs", "configurations"], "all rule sets, scopes and events",
 "Order of visits, several rules and values that are parts of each other are not sampled by the tests.",
 [SC, CO, MS], [("excluded matches of an event", SC), ("collection at excluded paths", CO)], MODEL,
 "Random trees with repeated values, random exclusions; exact comparison with the model.")
prop("P10", "Rules, and the strings of an event, do not influence each other",
 "Blocking rules for a scan gives exactly the result of a scanner built without them. Scanning with many rules reports exactly the matches each rule reports alone, less those that lose to an overlapping match. A string's matches and rewriting do not depend on the other strings of the event, as long as no rule excludes paths.",
 ["inputs", "configurations"], "all rule sets (1 to 140 rules), blocked lists, events",
 "Interference shows up only for particular combinations of rules, scopes and strings.",
 [SC, MS, SCOPE, CO], [("blocked rules", SC), ("rule selection per string", MS)],
 "metamorphic property testing: one scan compared with scans by scanners built from parts of the rules, or of parts of the event",
 "Blocked lists include duplicates and indexes out of range; up to 140 rules so that rule sets span several machine words.")
prop("P11", "A pattern means what it means in PCRE, or is rejected",
 "A pattern that is accepted matches what PCRE2 matches, for the supported syntax: literals and escapes, classes (ranges, negation, POSIX, nested escapes), \\d \\w \\s \\h \\v (ASCII), Unicode properties by general category or script, alternation, groups (capturing, named, flags i m s x), greedy and lazy quantifiers, the anchors ^ $ \\A \\z \\Z and \\b \\B (ASCII), and \\Q..\\E quoting; $ and \\Z include a final newline in the match. Unsupported constructs (look-around, backreferences, atomic groups, possessive quantifiers, recursion, comments, unknown escapes or properties, malformed classes, groups and ranges) are rejected as InvalidSyntax.",
 ["inputs"], "all patterns of the supported syntax and all texts; all listed unsupported constructs in any surrounding pattern",
 "Patterns compose without bound; the tests check single constructs, most of them only by their parse tree.",
 [PARSE, ADAPT, S+"parser/ast.rs", S+"normalization/mod.rs"], [("parser", PARSE), ("conversion to the regex crate's syntax", ADAPT)],
 "differential property testing: generated patterns are run by the scanner and by PCRE2 on generated texts; for patterns of one character, the exact sets of characters are compared",
 "Mismatches that the stand-in regex engine itself produces on the converted pattern are set aside (see DESIGN.md). Left open: a second brace quantifier (x{2}{3}), comments under x, empty quotes (\\Q\\E), and malformed patterns that are not listed (e.g. POSIX classes of unknown names).")
prop("P12", "Pattern validation always answers, and only safe patterns are accepted",
 "For any string, validation returns without panicking, and building a scanner with it as a rule's pattern gives the same verdict. A pattern that can match the empty string anywhere is rejected as MatchesEmptyString and one that cannot is not; 50 or more nested groups give ExceededDepthLimit, a quantifier above 3000 ExceededQuantifierLimit, and an estimated complexity above 1,000,000 TooComplex. Scanning any text with an accepted pattern ends, and never reports an empty match or part of a character.",
 ["inputs"], "all strings as patterns, all texts",
 "The space of malformed patterns is unbounded, and the tests try a few dozen.",
 [S+"validation.rs", PARSE, ADAPT], [("validate_and_create_regex", S+"validation.rs"), ("depth and quantifier limits", PARSE)],
 "fuzzing with token soup and damaged valid patterns, differential check of emptiness against PCRE2, and boundary tests of the limits",
 "A scan or validation that hangs is caught by the engine's watchdog.")
SV = S+"secondary_validation/"
MV = S+"match_validation/"
prop("P13", "Secondary validators accept exactly the valid identifiers",
 "A candidate of a rule with a secondary validator is reported exactly when it is valid by the published definition: Luhn (any number of digits, other characters are separators); the Chinese resident identity number (18 characters, MOD 11-2); GitHub tokens (CRC32 of the part after the last underscore, base62, padded to six characters); NHS numbers (exactly 10 digits, modulus 11); French NIR (exactly 15 digits, key modulo 97); IBANs (country in upper case, its structure, modulus 97; characters that are neither letters nor digits are separators, and ignored); JWTs (three segments, header and payload base64url JSON, and an expiry that is absent or an integer in the future).",
 ["inputs"], "all texts as candidates: valid values with separators and any damage, wrong lengths, non-ASCII text",
 "Check digits catch errors only if every digit, position and length is handled; the tests try a dozen values each.",
 [SV+f for f in ["luhn_checksum.rs", "chinese_id_checksum.rs", "github_token_checksum.rs", "nhs_check_digit.rs", "nir_checksum.rs", "iban_checker.rs", "jwt_expiration_checker.rs", "mod.rs"]],
 [("is_valid_match of each validator", SV+"mod.rs")],
 "differential property testing against independent implementations of the published definitions, on valid values, damaged ones and random ones, through the whole scanner",
 "Left open: IBANs of countries outside an 18-country table, expiry within 100 s of now or beyond 64 bits.")
prop("P14", "HTTP match validation asks each endpoint as configured and merges the answers",
 "validate_matches sends the (original) value of every match of a rule with HTTP validation to every endpoint of that rule, with that rule's method, headers ($MATCH replaced everywhere in their values) and timeout, and nothing else to anyone. The match becomes Valid if some answer is in the rule's valid ranges; else Error if some request failed, timed out, could not be sent or was answered outside both ranges; else Invalid. This holds with other rules that have the same endpoints. A builder with hosts makes one endpoint of each by replacing every $HOST, and rejects hosts without $HOST and $HOST without hosts.",
 ["inputs", "configurations", "fault_sequences"], "all configurations, sets of rules, matches, and all answers and failures of the endpoints",
 "The tests use one rule, and one or two endpoints with fixed answers.",
 [MV+"http_validator.rs", MV+"config.rs", MV+"match_status.rs", SC], [("HttpValidator::validate", MV+"http_validator.rs"), ("HttpValidatorConfigBuilder", MV+"config.rs"), ("MatchStatus::merge", MV+"match_status.rs")],
 "property-based testing with fault injection: a recording loopback server gives generated answers, delays and failures; requests and statuses are compared with a model",
 "Endpoints are on the loopback interface; refused and closed connections, slow answers and values with control characters are injected.")
prop("P15", "AWS match validation tries every pair of key id and secret, correctly signed",
 "validate_matches asks the STS endpoint of a secret's rule about every pair of an AWS id match and an AWS secret match with a GetCallerIdentity request that carries a correct AWS Signature Version 4 for that id and secret (the 40-character secret extracted from the match, whatever characters it ends in) and the current (or forced) time. An id or secret becomes Valid if some pair is answered with 2xx; else Error if some request failed or got a 5xx answer; else Invalid if there was a 4xx answer; a 3xx answer changes nothing; without any pair, and for session tokens, it stays NotChecked.",
 ["inputs", "configurations", "fault_sequences"], "all sets of ids, secrets and rules, in any order, and all answers",
 "The tests check two fixed key pairs.",
 [MV+"aws_validator.rs", MV+"validator_utils.rs", MV+"config.rs"], [("AwsValidator::validate", MV+"aws_validator.rs"), ("generate_aws_headers_and_body", MV+"validator_utils.rs")],
 "property-based testing against a fake STS that verifies signatures with its own implementation of SigV4 (SHA-256, HMAC) and gives generated answers",
 "0-3 ids, 0-3 secrets in 1-3 rules with endpoints and dates of their own; answers 2xx, 3xx, 4xx, 5xx and closed connections.")
prop("P16", "Match validation changes statuses only, and only upwards",
 "A scan reports the matches of a rule that has a match validation type as NotChecked, all others as NotAvailable, and their values only if some rule of the scanner can be validated. validate_matches keeps every match given to it, with its rule, path, position, value and replacement type, and returns them ordered by start; it changes nothing but statuses. Matches of rules without match validation keep theirs (NotAvailable), and no status ever goes down in the order NotChecked, NotAvailable, Invalid, Error, Valid, also when matches are validated again. A scanner none of whose rules can be validated returns an error and leaves the matches untouched.",
 ["inputs", "configurations", "histories"], "all rule sets with any mix of validation types, all lists of matches (any part, any order), repeated validation",
 "The tests look at the status of one or two matches.",
 [SC, MV+"match_status.rs", MV+"aws_validator.rs", MV+"http_validator.rs"], [("validate_matches", SC), ("merge", MV+"match_status.rs")],
 "property-based testing: invariant over the matches before and after, two rounds with changing answers",
 "Mixes of HTTP, AWS and unvalidated rules, several strings, shuffled and partial match lists.")
RS, RCS, SPOOL = S+"scanner/regex_rule/regex_store.rs", S+"scanner/regex_rule/regex_cache_store.rs", S+"scanner/shared_pool.rs"
prop("P17", "A scan's result does not depend on what was scanned or created before",
 "The result of a scan depends only on the scanner's rules and options and on the event: scanning it again gives the same result, as does a scanner newly built from the same rules, however many scanners were created or dropped before (also with rules or keywords of the same text, rejected rule sets, and thousands of memoized regexes), and whatever other events were scanned in between.",
 ["histories", "configurations"], "all histories of creating scanners (valid and invalid), scanning, and dropping them, in one process",
 "Compiled regexes, their caches and statistics are shared between scanners of a process and cleaned up lazily; tests create one scanner and scan once.",
 [RS, RCS, SC, MS], [("regex store and its garbage collection", RS), ("regex caches of a scan", RCS), ("pool of caches", SPOOL)],
 "stateful model-based property testing: generated histories of creations, drops and scans, every scan compared with the reference model (which has no history) and with a repetition",
 "history: up to 16 operations over several live scanners that share patterns; churn: thousands of regexes, so that the store is garbage collected many times; stream: long sequences of events through one scanner.")
prop("P18", "A scanner gives the same results when used from several threads at once",
 "Scans running at the same time, with the same scanner or with scanners that share regexes, while other threads create and drop scanners, each give exactly the result of the same scan alone; a scan started from within another scan (an event that scans while it is visited) does too. A pool of shared objects never hands one object to two users at once and never loses one.",
 ["schedules", "histories"], "all numbers of threads, events and interleavings",
 "The tests are single-threaded.",
 [SPOOL, RCS, RS, SC], [("SharedPool get and put", SPOOL), ("regex store lock", RS)],
 "property-based testing of concurrent executions: generated work lists run by 2-8 threads behind a barrier, compared with the sequential results; a pool of counted objects checked for exclusive use",
 "Schedules are sampled by running, not enumerated.")
B = "sds-bindings-utils/src/binary_encoding.rs"
GR, GG = "sds-go/rust/src/native/", "sds-go/go/"
prop("P19", "The binary event format carries events and results without loss",
 "An event given in the bindings' binary format is scanned exactly like the same event given directly, whatever encoding the offsets are counted in (UTF-8 bytes, UTF-16 units, characters), including strings that are not well-formed UTF-8 (read with U+FFFD where they are damaged, when the event is not declared valid). The encoded response contains every match once (rule, path, replacement type, start, end, shift) and every string that changed with its new content, and no string that did not change; there is no response exactly when nothing matched.",
 ["inputs", "configurations"], "all rule sets and events, including empty strings, deep paths, non-ASCII text and damaged UTF-8",
 "The crate has no tests of its own; the Go tests use small ASCII events.",
 [B, S+"encoding.rs"], [("BinaryEvent::visit_event", B), ("encode_response", B)],
 "property-based testing: own encoder and decoder of the format around the real code, results compared with the reference model",
 "Field names are well-formed UTF-8 and paths distinct (see DESIGN.md).")
prop("P20", "The Go binding gives the results of the Rust library, and errors as errors",
 "Rules built with the Go package and events scanned through it (Scan of a string, ScanEventsMap of nested maps and lists) give the same matches and the same rewritten event as the library itself, also when many goroutines scan at once; Mutated tells whether the event was rewritten, and an event that was not comes back as it was given. A map with a value that is neither string, map nor list is refused with an error and left alone. Invalid rules are reported as errors (by kind) when the scanner is created, and damaged events or internal panics as an error of the call, never as a crash; this also holds for the C functions underneath.",
 ["inputs", "configurations", "fault_sequences"], "all rules expressible in Go, all events, invalid rules, damaged events",
 "The Go tests need the shared library, cover a dozen fixed events, and are not run with the Rust tests.",
 [GG+"scanner.go", GG+"regex_rule.go", GG+"rule.go", GR+"scan.rs", GR+"rule.rs", GR+"create_scanner.rs", GR+"mod.rs", B],
 [("encodeEvent and decodeResponse", GG+"scanner.go"), ("scan over FFI", GR+"scan.rs"), ("rule JSON", GG+"regex_rule.go")],
 "differential property testing: the C interface in process, and a Go program linked with the shared library, driven with generated rules and events, compared with the reference model",
 "Go maps with distinct well-formed keys; several scanners alive at once.")
CFG = S+"scanner/regex_rule/config.rs"
prop("P21", "A rule's JSON configuration says exactly what the rule is",
 "A rule configuration read from JSON is the one the JSON describes, whatever the order of its keys, its escapes, and which optional parts are left out (those get their documented defaults) or unknown keys are present; written to JSON and read again it is the same configuration. A configuration that is built with the setters has exactly the parts that were set, and setting parts of a copy never changes the original. JSON that does not describe a rule is an error, never a panic.",
 ["inputs", "configurations"], "all rule configurations (actions, scopes, keywords, validators, match validation, labels) and all damaged JSON texts",
 "Configurations are stored and sent between services; the tests deserialise a few examples.",
 [CFG, S+"match_action.rs", S+"scanner/scope.rs", MV+"config.rs", S+"observability/labels.rs"], [("RegexRuleConfig serialisation and setters", CFG), ("MatchAction, Scope, MatchValidationType", S+"match_action.rs")],
 "property-based testing: round trip and an independent JSON writer whose output is read by the real code and compared part by part; damaged texts as a fuzz input",
 "The exact serialised form is compared too, since other services read it.")
prop("P22", "Invalid rule sets are rejected with the right error, valid ones accepted",
 "Creating a scanner succeeds exactly when every rule is valid: its pattern is accepted, the number of characters of a partial redaction is not zero, the keyword look-ahead is between 1 and 50 characters, and there are at most 50 keywords of each kind, none of them longer than the look-ahead, empty, only whitespace, or (excluded ones) only '-' and '_'. Otherwise the error is one that the first invalid rule has, with its documented text and code. A rule is judged the same alone and among others.",
 ["configurations"], "all lists of rules, with any number of things wrong with them",
 "The tests build one rule with one mistake each.",
 [S+"scanner/error.rs", S+"validation.rs", PK, SC, S+"match_action.rs"], [("CreateScannerError", S+"scanner/error.rs"), ("keyword validation", PK), ("MatchAction::validate", S+"match_action.rs")],
 "property-based testing against a specification of validity, with values at and next to every limit",
 "1-4 rules; look-ahead 0, 1, 50, 51; 49 to 80 keywords; keywords of arbitrary characters; bad patterns of each kind; bad actions.")
prop("P23", "Metrics count what happened",
 "For every scanner, under its labels: scanned_events counts its scans and scanning.match_count the matches reported; and for each rule, under the scanner's and its labels, false_positive.multipass.excluded_match counts the matches dropped because of an excluded path and false_positive.proximity_keywords those dropped because of an excluded keyword. For the process: scanner.creations and scanner.deletions count scanners made and dropped (failed creations count as neither) and scanner.total_count those alive; scanner.total_regexes and scanner.total_regex_cache_size follow the memoized regexes, which are forgotten some time after their last user.",
 ["histories", "configurations"], "all labels, rule sets, and histories of creating, scanning and dropping",
 "The tests read one counter after one scan.",
 [S+"scanner/metrics.rs", RS, S+"stats.rs", SC, CO, S+"observability/labels.rs"], [("ScannerMetrics, RuleMetrics", S+"scanner/metrics.rs"), ("regex store and its statistics", RS), ("global statistics", S+"stats.rs")],
 "stateful model-based property testing: a recording metrics backend, its counters compared with the reference model's counts after generated histories",
 "Left open: the count for a match found from several keywords (only a lower bound), keyword counts of rules that also have a validator, durations.")
prop("P24", "All kinds of events are scanned alike",
 "A string, a map, a nested SimpleEvent and a JSON value are scanned as the same tree of strings: every string in them is visited with its path (field names and list positions), numbers and booleans of a JSON value are scanned as their text, null is not scanned, and only the values with a match are rewritten (a rewritten number or boolean becomes a string); everything else stays as it was, in type, order and value.",
 ["inputs", "configurations"], "all trees, rule sets and actions",
 "The tests scan small maps with one rule.",
 [S+"event_json.rs", S+"simple_event.rs", S+"event.rs"], [("Event for serde_json::Value", S+"event_json.rs"), ("Event for SimpleEvent, HashMap, String", S+"simple_event.rs")], MODEL,
 "Random JSON values with numbers of all kinds, booleans and nulls, and the same trees as other kinds of events.")
prop("P25", "Rule types of the user's own work like regex rules, with correctly shared data",
 "A rule type implemented by the user of the library (CompiledRule) is asked exactly once about every string its scope selects, unless it is blocked, with the string, its path, and whether the path is excluded for the rule. Its group data is new for each string and shared by the rules with the same type of group data; its scan cache is new for each scan and shared in the same way; its group config knows all rules of the scanner with that type, in their order. The matches it emits, in whatever order and however they overlap, are resolved, rewritten and reported like those of regex rules; values it adds to the excluded matches drop equal matches of regex rules and of rules that opt in, each of which is told; a rule that cannot be created makes the creation of the scanner fail.",
 ["inputs", "configurations"], "all mixes of rule types and regex rules, data types, scopes, blocked lists, labels and events",
 "The tests use one custom rule at a time, mostly without shared data.",
 [SC, MS, S+"scanner/config.rs"], [("CompiledRuleDyn for CompiledRule", SC), ("ScannerContentVisitor", SC), ("ExclusionCheck", MS)],
 "model-based property testing: logging rule types with eight combinations of shared data types, their logs and the results compared with a model, over two scans",
 "Included keywords of custom rules cannot be built outside the crate and are not covered; the order in which rules are asked is left open.")
prop("P26", "Memory is given back",
 "The memory in use does not grow without bound: however often events are scanned with a scanner, however many scanners are created from valid or invalid rules and dropped, with the same patterns and keywords or always new ones, what is in use stays bounded by what is alive and by caches of bounded size. The same holds for the C functions, when what they return is freed with the functions meant for it, and for the Go package; nothing is freed twice or with the wrong size.",
 ["histories", "configurations", "fault_sequences"], "all histories of creating scanners (valid and invalid), scanning (also damaged events), and dropping them",
 "A leak shows only over many repetitions, and not in any result.",
 [RS, RCS, SC, GR+"scan.rs", GR+"rule.rs", GR+"create_scanner.rs", GR+"delete_scanner.rs", GG+"scanner.go", GG+"rule.go", GG+"regex_rule.go"],
 [("garbage collection of the regex store", RS), ("ownership over FFI", GR+"scan.rs"), ("freeing in the Go package", GG+"scanner.go")],
 "stateful property testing with a counting allocator: generated rounds are repeated in windows that double until the memory in use is steady; memory that rises in every window is a violation",
 "Per thread, in one thread; the Go program reports what malloc has handed out. Memory of the Go heap is not counted.")
