"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
G = "graphtransliterator/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [G + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": G + w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


p("C01", "Rule matching selects the most specific rule that fits the context",
  "For every valid configuration, token sequence and position, matching at that position returns a rule whose tokens occur there and whose required previous/next tokens and token classes all surround it, and no other rule that fits there has a lower cost (needs more tokens). It reports no match exactly when no rule fits; context never extends beyond the whitespace-framed sequence.",
  ["inputs", "configurations"],
  "every rule set (tokens, previous/next tokens and classes), class assignment, token sequence and position within the stated bounds",
  "The tests try about fifteen inputs on one 13-rule grammar; which rule wins depends on every combination of rule shapes, shared prefixes, failed constraints and distance from the ends of the input.",
  ["core.py", "initialize.py", "graphs.py"],
  [("best-first search", "core.py:match_at"), ("constraint check on edges before rules", "core.py:_match_constraints"), ("tree with cost-ordered children", "initialize.py:_graph_from")],
  ["GraphTransliterator.match_at"], [("graph", "tree of tokens with rules as leaves", "core.py:__init__")])

p("C02", "Listing all matches returns every fitting rule once, best first",
  "For every valid configuration, token sequence and position, asking for all matches returns each rule that fits at that position exactly once and nothing else. The list is ordered from lowest to highest cost, it is empty when nothing fits, and its first entry costs the same as the single best match.",
  ["inputs", "configurations"],
  "every rule set, class assignment, token sequence and position within the stated bounds",
  "One test asks for all matches, of two unconstrained rules at one position.",
  ["core.py", "initialize.py"],
  [("search without early exit", "core.py:match_at")], ["GraphTransliterator.match_at(match_all=True)"])

p("C03", "Tokenization is greedy, longest-first, left to right, and lossless",
  "For every set of token strings (of any characters, including regular-expression metacharacters) and every input string, tokenization without whitespace consolidation yields, between the two framing whitespace tokens, the sequence obtained by repeatedly taking the longest configured token that is a prefix of the remaining input. Joined together those tokens give back exactly the input.",
  ["inputs", "configurations"],
  "every set of token strings and every input string within the stated bounds, over all Unicode scalar values",
  "Tests tokenize a handful of ASCII strings with one-letter tokens; overlapping multi-character tokens and metacharacters are infinitely many.",
  ["core.py", "initialize.py"],
  [("escaped alternation, longest first", "initialize.py:_tokenizer_pattern_from"), ("scan loop", "core.py:tokenize")],
  ["GraphTransliterator.tokenize"])

p("C04", "Whitespace framing and consolidation",
  "The token list always starts and ends with the default whitespace token. With consolidation on, no two adjacent tokens of the result are whitespace except the frame around an empty result, leading and trailing whitespace vanishes into the frame, each inner run of two or more whitespace tokens becomes one default whitespace token, and every non-whitespace token survives in order; with consolidation off nothing is dropped or added besides the frame.",
  ["inputs", "configurations"],
  "every input string over the tokens, every choice of whitespace tokens/class/default and both consolidation settings, within the stated bounds",
  "Tests cover a single leading and a single trailing blank with one whitespace token; runs, several whitespace tokens and unrecognised characters inside runs are not covered.",
  ["core.py", "rules.py"], [("whitespace state machine", "core.py:tokenize")], ["GraphTransliterator.tokenize"],
  [("whitespace", "default token, class, consolidate flag", "core.py:__init__")])

p("C05", "Output is the left-to-right composition of best matches",
  "For every configuration and input, transliteration starts at the first token after the opening whitespace, repeatedly takes the rule that matching selects at the current position, appends its production and continues right after the tokens it consumed, until the closing whitespace is reached. The reported last input tokens, last matched rules and last matched rule tokens describe exactly that run.",
  ["inputs", "configurations"],
  "every rule set and input token sequence within the stated bounds",
  "Tests compare about twenty fixed strings; skipping, repeating or misplacing a token for some other combination of rule lengths would go unnoticed.",
  ["core.py"], [("transliteration loop", "core.py:transliterate"), ("matched rules record", "core.py:last_matched_rules")],
  ["GraphTransliterator.transliterate", "last_input_tokens", "last_matched_rules", "last_matched_rule_tokens"],
  [("last matched rule keys", "rules matched in the last run", "core.py:transliterate")])

p("C06", "On-match rules: the first applicable one, and only it, is inserted",
  "Whenever a rule is matched, the production of the first on-match rule (in the configured order) whose previous classes are those of the tokens immediately before the match and whose next classes are those of the tokens from the match position on is inserted directly before the rule's production. If none applies nothing is inserted, and class lists that would reach beyond either end of the framed token sequence never apply.",
  ["inputs", "configurations"],
  "every list of on-match rules, class assignment and token sequence within the stated bounds",
  "Tests have at most two on-match rules and three inputs; order, longer class lists and boundaries vary without limit.",
  ["core.py", "initialize.py"],
  [("current/previous token lookup", "initialize.py:_onmatch_rules_lookup"), ("on-match loop", "core.py:transliterate")],
  ["GraphTransliterator.transliterate", "onmatch_rules_lookup"])

p("C07", "Errors are raised exactly when due; ignoring them skips one unit",
  "With errors not ignored, transliteration raises the unrecognizable-token error iff at some point of the scan no token is a prefix of the remaining input, otherwise the no-matching-rule error iff some reached position has no matching rule, and otherwise raises nothing. With errors ignored it never raises: each unrecognizable character, and each token without a matching rule, is skipped on its own and everything else is processed as usual; the setting can be switched at any time.",
  ["inputs", "configurations", "histories"],
  "every input string, rule set and value of the ignore-errors setting (also toggled between calls) within the stated bounds",
  "Tests try '!' in three strings and one unmatched token.",
  ["core.py", "exceptions.py"], [("error branches", "core.py:tokenize"), ("error branches", "core.py:transliterate")],
  ["GraphTransliterator.transliterate", "GraphTransliterator.tokenize", "ignore_errors"])

p("C08", "Transliteration does not depend on earlier calls",
  "The result (output or exception) of transliterating a string, and the details reported about that run if its input could be tokenized, are the same whatever sequence of earlier transliterations, tokenizations, matches, dumps, prunings or failed calls the same object has been through. No call changes the transliterator's rules, tokens, whitespace settings, on-match rules or metadata.",
  ["histories", "inputs"],
  "every history of API calls within the stated length, followed by any input, within the stated bounds",
  "Tests call transliterate repeatedly but never compare against a fresh object, in particular not after a failed call.",
  ["core.py"], [("per-call state reset", "core.py:transliterate")],
  ["GraphTransliterator.transliterate", "last_matched_rules"],
  [("last matched rule keys / last input tokens", "the only per-call state", "core.py")])

p("C09", "A configuration passing the ambiguity check has a unique best rule",
  "If a transliterator is built with ambiguity checking on and no ambiguity exception is raised, then for every token sequence and position at most one of the rules that fit there has the lowest cost. In particular rules whose common matches are only covered by another equally costly rule are not let through.",
  ["configurations", "inputs"],
  "every rule set, class assignment, token sequence and position within the stated bounds",
  "Two tests check that two ambiguous grammars are refused; that nothing ambiguous is accepted quantifies over all grammars and inputs.",
  ["ambiguity.py"], [("pairwise intersection and cover test", "ambiguity.py:check_for_ambiguity")],
  ["GraphTransliterator constructor", "from_dict"])

p("C10", "The ambiguity check refuses only truly conflicting rules",
  "With ambiguity checking on, the ambiguity exception is raised only if two rules of equal cost have a token context that both match and that is not entirely matched by one single cheaper rule. With checking off, the exception is never raised.",
  ["configurations"],
  "every rule set and class assignment within the stated bounds",
  "Tests accept about ten unambiguous grammars.",
  ["ambiguity.py"], [("pairwise intersection and cover test", "ambiguity.py:check_for_ambiguity")],
  ["GraphTransliterator constructor", "from_dict"])

p("C11", "Readable dump and load restore an equivalent transliterator",
  "For every transliterator, loading its uncompressed dump, as Python data or as JSON text, gives a transliterator with the same tokens and classes, rules in the same order with the same costs, on-match rules, whitespace settings, metadata, ignore-errors setting and search graph. It therefore transliterates every input identically, also when optional derived entries are dropped from the dump before loading.",
  ["configurations", "inputs"],
  "every configuration within the stated bounds, with and without metadata, on-match rules and ignore-errors",
  "Tests reload one two-token configuration.",
  ["core.py", "schemas.py", "graphs.py"], [("schemas", "schemas.py"), ("dump/load", "core.py:dump")],
  ["GraphTransliterator.dump", "dumps", "load", "loads"])

p("C12", "Compressed dump and load lose no information",
  "For every transliterator with automatically assigned costs and every compression level, loading its compressed dump, as Python data or as JSON text, gives a transliterator with the same tokens and classes, rules in the same order with the same costs, on-match rules, whitespace settings, metadata, ignore-errors setting and search graph as the original. Other compression levels are refused.",
  ["configurations"],
  "every configuration within the stated bounds, at compression levels 1 and 2",
  "One test compares one configuration at level 1 and a single transliteration at the other levels.",
  ["compression.py", "core.py"], [("index encoding", "compression.py:compress_config"), ("decoding", "compression.py:decompress_config")],
  ["GraphTransliterator.dump(compression_level)", "dumps", "load", "loads"])

p("C13", "Options given when loading or constructing are honoured",
  "The ignore-errors and check-ambiguity options passed by the caller take effect in the same way for every way of constructing a transliterator: from settings, from easy-reading data, from YAML, from a readable dump and from a compressed dump, as data or as JSON text. Without the options, errors are not ignored (unless the dump says so), and ambiguity is checked except when loading a dump.",
  ["configurations"],
  "every construction route, compression level and combination of options, for ambiguous and unambiguous configurations",
  "Tests set ignore-errors on one route only and never set check-ambiguity when loading.",
  ["core.py", "compression.py"], [("option merging before deserialization", "core.py:load"), ("schema pre/post processing", "core.py:GraphTransliteratorSchema")],
  ["from_dict", "from_easyreading_dict", "from_yaml", "load", "loads"])

p("C14", "Dumps from later versions are refused, others are accepted",
  "Loading a dump whose recorded library version is later than the running library's, comparing the dotted numbers as numbers, raises the incorrect-version error, compressed or not. A dump recording the same or an earlier version, or none, is never refused for its version.",
  ["inputs"],
  "every dotted numeric version with up to three components within the stated digit bounds",
  "One test appends a digit to the current version.",
  ["core.py"], [("version comparison", "core.py:check_version_and_compression")], ["load", "loads"])

p("C15", "Rules are ordered by specificity, whatever their declared order",
  "However the rules are ordered in the settings, the transliterator's rules are exactly the configured rules sorted by cost, and of two rules the one requiring more tokens in total (its own, previous, next, and classes) has the strictly lower cost; equally costly rules keep their declared order. Unless the ambiguity check would refuse the rules, permuting the declared rules changes no transliteration.",
  ["configurations", "inputs"],
  "every multiset of rule shapes and every declared order within the stated bounds; cost strictly monotone for every total within the bound",
  "Tests look at the order of two rules.",
  ["schemas.py", "initialize.py"], [("sort by cost", "schemas.py:sort_rules_by_cost"), ("cost function", "initialize.py:_cost_of")],
  ["from_dict", "GraphTransliterator.rules"])

p("C16", "Easy-reading rule notation means what the documentation says",
  "For every combination of previous classes, previous tokens, tokens, next tokens and next classes, writing the rule in the documented easy-reading notation and loading it yields a rule with exactly those components in that order and the given production. This holds for every name made of characters other than white space, parentheses and angle brackets, and for a lone blank as token.",
  ["inputs", "configurations"],
  "every rule shape and all token/class names within the stated bounds, over all Unicode scalar values allowed in names",
  "Tests parse about twenty fixed rule strings.",
  ["process.py", "schemas.py"], [("rule pattern", "process.py:RULE_RE"), ("rule conversion", "process.py:_process_rule")],
  ["from_easyreading_dict", "from_yaml"])

p("C17", "Easy-reading on-match notation means what the documentation says",
  "For every non-empty list of previous classes and of next classes whose names contain no white space, plus signs or angle brackets, writing '<p1> ... + <n1> ...' with any amount of blanks (also none) around the plus sign yields an on-match rule with exactly those classes in that order and the given production, and the configured order of on-match rules is kept. Keys that do not have this form are refused with a validation error.",
  ["inputs", "configurations"],
  "all class names within the stated bounds and every list length and spacing within the bounds",
  "Tests parse three fixed on-match keys.",
  ["process.py", "schemas.py"], [("on-match pattern", "process.py:ONMATCH_RE"), ("conversion", "process.py:_process_onmatch_rules")],
  ["from_easyreading_dict"])

p("C18", "Unicode character names in YAML are replaced exactly",
  "Reading YAML with character names enabled replaces each '\\N{NAME}' whose braces contain upper-case letters, digits, blanks and hyphens by the single character of that Unicode name (raising an error if there is none) and leaves every other character of the text untouched. With the feature disabled the text is passed on unchanged.",
  ["inputs"],
  "every text of the stated length, over all Unicode scalar values, with any number of escapes",
  "Tests use two names in fixed positions.",
  ["initialize.py", "core.py"], [("escape substitution", "initialize.py:_unescape_charnames")], ["from_yaml"])

p("C19", "Settings are accepted iff every reference is defined",
  "Well-typed settings are refused with a validation error if any rule uses an undefined token, any rule, on-match rule or the whitespace setting uses an undefined token class, the default whitespace is not a token, or a required section is missing. Settings without such defects are accepted (unless ambiguous), with or without the optional on-match rules and metadata.",
  ["configurations"],
  "every well-typed settings dictionary within the stated bounds, in direct and easy-reading form",
  "Tests refuse eleven fixed configurations.",
  ["schemas.py", "core.py"], [("reference validation", "schemas.py:SettingsSchema")], ["from_dict", "from_easyreading_dict"])

p("C20", "Accepted settings never hang or crash transliteration",
  "For every settings dictionary that is accepted and every input string, tokenization and transliteration terminate and either return or raise one of the two documented transliteration errors. Degenerate settings that would break this, such as empty token strings, rules without tokens or on-match rules without classes, are refused with a validation error.",
  ["configurations", "inputs"],
  "every well-typed settings dictionary and input string within the stated bounds; termination is a bound on loop steps linear in the input length",
  "Tests only use well-formed grammars.",
  ["core.py", "schemas.py", "initialize.py"], [("validation", "schemas.py"), ("scan and transliteration loops", "core.py")],
  ["from_dict", "tokenize", "transliterate"])

p("C21", "Pruning removes exactly the rules with the given productions",
  "Pruning by one production or by a list of productions returns a new transliterator whose rules are exactly the original rules whose production is not one of the given strings, in the same order, with all other settings unchanged, and which behaves like one built from those rules. The original transliterator is left as it was.",
  ["configurations", "inputs"],
  "every rule set, production strings and list of productions within the stated bounds",
  "Tests prune two rules with unrelated one-letter productions.",
  ["core.py"], [("rule filter and reconstruction", "core.py:pruned_of")], ["GraphTransliterator.pruned_of"])

p("C22", "Coverage tracking is faithful and does not change behaviour",
  "A coverage-tracking transliterator returns the same outputs and errors as a plain one. Its coverage check passes if every rule and every on-match rule has been applied since the last reset, and cannot pass while some rule's tokens have never occurred at a matched position or some on-match rule has never been tried; resetting forgets all visits, and the non-raising form of the check returns the same verdict.",
  ["inputs", "histories", "configurations"],
  "every history of transliterations and resets and every small configuration within the stated bounds",
  "One test replays five strings on one grammar.",
  ["core.py", "graphs.py"], [("visit logging", "graphs.py:VisitLoggingDirectedGraph"), ("coverage check", "core.py:check_coverage")],
  ["CoverageTransliterator.transliterate", "check_coverage", "clear_visited"],
  [("visited sets", "nodes, edges and on-match rules visited", "graphs.py")])

p("C23", "The search graph is a tree with one cost-consistent leaf per rule",
  "The graph built from any rules is a tree rooted at its single start node in which the token path to each leaf spells that leaf's rule and every rule has exactly one leaf carrying its constraints. Each edge costs as much as the cheapest rule below it, children are listed under each possible next token in order of cost together with the rules ending at that node, and equal token prefixes share nodes.",
  ["configurations"],
  "every rule set within the stated bounds",
  "A test looks only at the type of the first node.",
  ["initialize.py", "graphs.py"], [("graph construction", "initialize.py:_graph_from")], ["GraphTransliterator.graph"])

p("C24", "Directed graph operations keep nodes, edges and edge list consistent",
  "After any sequence of node and edge additions, node keys are consecutive from zero, the edge list contains each edge of the edge mapping exactly once and nothing else, and every edge joins existing nodes. A call with an invalid head, tail or data raises a value error and changes nothing; a graph rebuilt from nodes and edges has the same edge list, sorted.",
  ["histories", "inputs"],
  "every sequence of operations with arbitrary integer or non-integer arguments within the stated length",
  "Tests make five valid and six invalid calls once.",
  ["graphs.py"], [("argument checks", "graphs.py:add_edge"), ("edge list derivation", "graphs.py:DirectedGraph.__init__")],
  ["DirectedGraph.add_node", "DirectedGraph.add_edge"])

p("C25", "Caller data is never modified or shared",
  "Constructing from settings or easy-reading data, loading a dump and pruning leave the dictionaries and lists passed in by the caller unchanged. A dump can be changed afterwards by the caller, or loaded several times, without affecting the transliterator it came from or the other loaded ones.",
  ["configurations", "histories"],
  "every configuration within the stated bounds and every construction route",
  "A test compares a dump to itself.",
  ["core.py", "schemas.py", "compression.py"], [("deep copy on graph load", "schemas.py:make_graph"), ("marshmallow (de)serialization", "schemas.py")],
  ["from_dict", "from_easyreading_dict", "load", "dump", "pruned_of"])

p("C26", "The command line gives the same results as the library",
  "For every supported source format, option combination and list of inputs, the transliterate command prints what the library returns for those inputs: a single result for one input and the list of results in order otherwise, as Python text or as JSON. The dump command prints a dump at the requested level that loads back to an equivalent transliterator, and the ignore-errors and check-ambiguity flags reach the transliterator, also with generate-tests and test.",
  ["inputs", "configurations"],
  "every source format, flag combination, output format and list of inputs within the stated bounds",
  "Tests run each command on one letter.",
  ["cli.py"], [("loading by format", "cli.py:load_transliterator"), ("commands", "cli.py")], ["cli.transliterate", "cli.dump"])

p("C27", "Bundled transliterators behave the same from YAML and from JSON",
  "Every bundled transliterator loaded from its JSON file has the same settings as, and transliterates every input identically to, the one loaded from its YAML file, with coverage tracking on or off. Ignoring errors and checking ambiguity can be requested on both routes. Iterating over the bundled transliterators yields one instance of each, made with the options given, and each dumps, reloads and prunes like any other transliterator.",
  ["inputs", "configurations"],
  "every input string within the stated bounds, for every bundled transliterator",
  "Tests run the listed examples through both routes.",
  ["transliterators/bundled.py", "transliterators/__init__.py"], [("initialization by method", "transliterators/bundled.py:_init_from")],
  ["Bundled.new", "Bundled.transliterate", "iter_transliterators"])

p("C28", "Dumps are a deterministic function of the settings",
  "Two transliterators with equal settings produce identical compressed dumps, whatever order a token's classes were written in or their sets happen to iterate in, and dumping twice or dumping a reloaded dump yields the same text.",
  ["configurations", "schedules"],
  "every configuration within the stated bounds and every iteration order of the class sets",
  "A test dumps the same transliterator fifty times in one process, where set order never varies.",
  ["compression.py", "core.py", "schemas.py"], [("sorted class and token lists", "compression.py:compress_config")],
  ["GraphTransliterator.dumps"])

p("C29", "Generated tests pass and exercise the configured contexts",
  "For every transliterator whose rules cover the needed tokens, the generated tests contain, for each rule, an input made of one token for each previous class, the previous tokens, the tokens, the next tokens and one token for each next class, and, for each on-match rule, an input of one token for each previous class followed by one for each next class. Each input is paired with the output that transliterating it gives.",
  ["configurations"],
  "every configuration within the stated bounds",
  "A test counts the generated tests of one grammar.",
  ["transliterators/bundled.py"], [("test generation", "transliterators/bundled.py:generate_yaml_tests")],
  ["Bundled.generate_yaml_tests", "cli.generate_tests"])

p("C30", "Running tests succeeds exactly when every output is as expected",
  "For every bundled transliterator and every set of tests, running the tests (from the given mapping, from the transliterator's test file, or with the test command, with any coverage option) succeeds if and only if each source, taken as text, transliterates to its target, taken as text (an empty file holds no tests); otherwise an error is raised. The tests that dump-tests prints are those of the file.",
  ["inputs", "configurations"],
  "every list of tests (sources and targets) within the stated bounds",
  "Tests run the bundled test files, all of whose tests pass.",
  ["transliterators/bundled.py", "cli.py"], [("running tests", "transliterators/bundled.py:run_tests"), ("commands", "cli.py")],
  ["Bundled.run_tests", "Bundled.run_yaml_tests", "cli.test", "cli.dump_tests"])

p("C31", "make-json writes the named transliterators' settings and nothing else",
  "Given a name, make-json writes the JSON file of exactly the bundled transliterator of that name; with the regular-expression option, of exactly those whose names the expression matches from their start. Each file written loads back to the settings of the YAML file, and no other file changes. list-bundled lists every bundled transliterator once.",
  ["inputs", "configurations"],
  "every argument within the stated bounds, over a package of several transliterators",
  "A test makes the JSON of one transliterator.",
  ["cli.py", "transliterators/__init__.py"], [("make-json", "cli.py:make_json"), ("listing", "transliterators/__init__.py")],
  ["cli.make_json", "cli.list_bundled"])

p("C32", "All ways of giving the same settings make the same transliterator",
  "The same settings given in dictionary form, in the easy-reading form, as YAML text or as a YAML file give transliterators with the same tokens, rules in the same order, on-match rules, whitespace and metadata as the documented meaning of the settings, and with the same outputs for every input; nothing is lost, added or reordered on the way.",
  ["inputs", "configurations"],
  "every configuration and input within the stated bounds, by every route",
  "Tests construct a transliterator by each route and compare a few fields.",
  ["core.py", "process.py", "schemas.py", "initialize.py"],
  [("routes", "core.py:from_dict"), ("routes", "core.py:from_easyreading_dict"), ("parsing", "process.py")],
  ["GraphTransliterator.from_dict", "GraphTransliterator.from_easyreading_dict", "GraphTransliterator.from_yaml", "GraphTransliterator.from_yaml_file"])

p("C33", "The tables a transliterator reports agree with its settings",
  "On every route (settings, a dump of any level, a dump without its computed parts, pruning) the reported tables are those of the settings: the tokens of each class are exactly the tokens with that class, the productions are those of the rules in their order, and the on-match lookup holds for each pair of tokens exactly the on-match rules whose class contexts can meet there, in their order.",
  ["configurations"],
  "every configuration within the stated bounds, on every route",
  "Tests compare these tables for one configuration.",
  ["core.py", "initialize.py"], [("tokens by class", "initialize.py:_tokens_by_class_of"), ("on-match lookup", "initialize.py:_onmatch_rules_lookup")],
  ["GraphTransliterator.tokens_by_class", "GraphTransliterator.productions", "GraphTransliterator.onmatch_rules_lookup"])

p("C34", "Transliterators in one process are independent of one another",
  "Constructing, using, dumping, pruning or changing the error setting of one transliterator never changes what another one returns, reports or holds, whatever the differences between their settings and whichever was made first.",
  ["histories", "inputs", "configurations"],
  "every order of calls on two transliterators whose settings differ in any one respect, and every input, within the stated bounds",
  "Each test uses one transliterator; a leak through shared state needs two related ones used in turn.",
  ["core.py", "initialize.py", "graphs.py", "compression.py"], [("state", "core.py:__init__")],
  ["GraphTransliterator.transliterate", "GraphTransliterator.dumps", "GraphTransliterator.pruned_of"])

p("C35", "Overlapping transliterations on one object do not disturb each other",
  "If, while a transliteration is under way, another call on the same transliterator (transliterate, tokenize, match_at, dumps, pruned_of) runs to its end, both give what each gives alone, whether or not they raise errors.",
  ["schedules", "inputs"],
  "every point of preemption at an access to the public attributes and methods, and every pair of inputs, within the stated bounds",
  "Tests never overlap two calls.",
  ["core.py"], [("transliteration loop", "core.py:transliterate")],
  ["GraphTransliterator.transliterate"])

p("C36", "Every error and ambiguity is reported by a warning",
  "Every character that no token starts at, every token position that no rule fits, every pair of equally cheap rules in conflict and every graph node, edge and on-match rule that a coverage check finds missed is reported by exactly one warning that names it (the character and its position, the position, both rules, the node, both ends of the edge, the rule), whether or not errors are ignored; without errors or conflicts there is no warning, and a call raises only if it has warned.",
  ["inputs", "configurations"],
  "every input and configuration within the stated bounds, errors ignored or not",
  "Tests trigger each warning once, without looking at how many there are or what they name.",
  ["core.py", "ambiguity.py", "graphs.py"],
  [("errors", "core.py:tokenize"), ("errors", "core.py:transliterate"), ("conflicts", "ambiguity.py:check_for_ambiguity"), ("missed rules", "core.py:check_onmatchrules_coverage")],
  ["GraphTransliterator.transliterate", "GraphTransliterator.tokenize", "CoverageTransliterator.check_coverage"])

p("C37", "Malformed settings are refused with a validation error",
  "Whatever is given as settings in dictionary form, in easy-reading form or as the content of YAML, construction either succeeds or raises the validation error or the ambiguity exception, and nothing else. Settings in which something other than text, a list or a mapping stands where the documentation requires one, a required part is missing, an undocumented section or field is added, a token is not named by non-empty text, or an easy-reading on-match entry does not hold exactly one rule, are refused, also in the settings of a readable dump, as is a dump with an on-match lookup but no on-match rules; settings that are accepted (from a dictionary or YAML) transliterate every input with no error but the two documented ones and can be dumped.",
  ["configurations", "inputs"],
  "every single deviation, of each of 21 kinds and at each place, from feature-complete settings, within the stated bounds",
  "Tests try a few malformed settings; every place of the settings can hold every wrong kind of value.",
  ["schemas.py", "process.py", "core.py"],
  [("validation", "schemas.py:SettingsSchema"), ("validation", "schemas.py:EasyReadingSettingsSchema")],
  ["GraphTransliterator.from_dict", "GraphTransliterator.from_easyreading_dict", "GraphTransliterator.from_yaml"])

p("C38", "Refused settings name every undefined token and class",
  "Settings in dictionary or easy-reading form that are well formed and unambiguous are refused exactly when a rule, an on-match rule or the whitespace settings refer to a token or token class that the tokens do not define. The validation error's messages then are listed by section (\"rules\", \"onmatch_rules\", \"whitespace\"), for exactly the sections that hold an undefined reference, and for each undefined reference some message of its section quotes its name in double quotes and gives the production of the rule.",
  ["configurations"],
  "every rule shape and choice of references, defined or not, within the stated bounds",
  "Tests refuse settings with one undefined reference each and do not look at the messages.",
  ["schemas.py"],
  [("reference checks", "schemas.py:SettingsSchema.validate_token_classes"), ("reference checks", "schemas.py:SettingsSchema.validate_tokens")],
  ["GraphTransliterator.from_dict", "GraphTransliterator.from_easyreading_dict"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
