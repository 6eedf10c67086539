"""writes ../properties.jsonl (run by hand when a property changes)"""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=["src/" + f for f in files],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


p("C01", "Taking the derivative by a byte is exact",
  "For every regex and every byte of its alphabet, the derivative accepts exactly the words that, prefixed with that byte, the regex accepts. This holds for every operator (byte, byte set, concatenation, alternation, intersection, complement, bounded and unbounded repetition, prefix closure, lookahead), for memoised as well as fresh results, and a lookahead derivative reports a length one larger.",
  ["inputs", "histories"], "all regex nodes of every operator and nesting, all bytes, any earlier derivative calls",
  "Tests sample some 60 concrete regexes and a handful of strings; the nine operators interact (nullable prefixes in a concatenation, min/max of repeats, complement under intersection).",
  ["deriv.rs", "ast.rs", "simplify.rs"],
  [("DerivCache::derivative", "src/deriv.rs"), ("ExprSet::map", "src/ast.rs")], ["raw::DerivCache::derivative", "Regex::transition"])
p("C02", "Nullable and known-non-empty marks are truthful",
  "A regex node says it accepts the empty string exactly when it does, and a node that claims to be certainly non-empty does accept some word. The marks are those a user reads through nullability queries and the ones matching and the emptiness check rely on.",
  ["inputs"], "all nodes every constructor can produce from any operands",
  "Marks are computed compositionally from the operands' marks in every constructor; tests look at the acceptance of a few strings only.",
  ["simplify.rs", "ast.rs"],
  [("mk_or/mk_and/mk_concat/mk_not/mk_repeat/mk_prefixes/mk_lookahead", "src/simplify.rs"), ("ExprFlags", "src/ast.rs")], ["RegexBuilder::is_nullable", "ExprSet::is_nullable", "ExprSet::is_positive"])
p("C03", "Constructing and simplifying nodes preserves the language",
  "Building an alternation, intersection, concatenation, complement, repetition, prefix closure, lookahead, byte, byte set or literal from any operands yields a node that denotes exactly that operation applied to the operands' languages. All simplifications (flattening, deduplication, identity and absorbing elements, merging of byte sets and of lookaheads, sharing of common prefixes in large alternations) keep it, with optimisation on and off.",
  ["inputs", "configurations"], "all operand lists in any order and multiplicity, optimisation on or off",
  "Simplifications fire on particular operand shapes; the tests exercise a few combinations and compare only match results of short strings.",
  ["simplify.rs"],
  [("mk_* constructors, flatten_tag, or_optimized, trie_rec, add_to_sorted", "src/simplify.rs")], ["raw::ExprSet::mk_*", "RegexBuilder::mk"])
p("C04", "Byte-set algebra is exact and stays inside the alphabet",
  "Union, intersection, difference and complement of byte sets compute exactly the set operation over the symbols of the alphabet, and no result ever contains a symbol outside of it. A set with one symbol and a single byte are the same node, and an empty set is the no-match node.",
  ["inputs", "configurations"], "all pairs of byte sets, all alphabet sizes (also not multiples of the machine word)",
  "Alphabets are compressed to arbitrary sizes, where the last machine word is partly unused; tests never look at those bits.",
  ["simplify.rs", "ast.rs"],
  [("mk_byte_set*, byteset_*", "src/simplify.rs, src/ast.rs")], ["raw::ExprSet::mk_byte_set_and/_or/_sub/_not/_neg_or"])
p("C05", "The symbolic derivative covers all successors",
  "The emptiness check's view of the successors of a regex agrees with byte derivatives: for every byte, the alternation of the successors whose condition contains the byte accepts the same words as the derivative by that byte. For regexes with a lookahead, whose length this view drops, they agree on being empty. In particular no byte's successor is lost or made up, for complement, intersection, overlapping conditions and nullable concatenation prefixes too.",
  ["inputs"], "all nodes of every operator with any successor lists of the operands",
  "Only emptiness of whole regexes is observed by tests; a lost successor matters when it is the only way to a match.",
  ["relevance.rs", "simplify.rs"],
  [("RelevanceCache::deriv, simplify, make_disjoint, group_by_first", "src/relevance.rs")], ["raw::RelevanceCache::is_non_empty", "Regex::always_empty"])
p("C06", "The emptiness search is exhaustive and its memory is valid",
  "The check whether a regex matches anything says no only after all derivatives reachable from it were examined and none can accept, and says yes only if one can. Verdicts remembered from earlier queries are never wrong for any later query, whatever the order of queries and also after a query that ran out of fuel.",
  ["inputs", "histories"], "all derivative graphs, all sequences of queries sharing the cache",
  "The breadth-first search marks many nodes at once; tests query single regexes with fresh caches.",
  ["relevance.rs", "regex.rs"],
  [("RelevanceCache::is_non_empty_limited", "src/relevance.rs")], ["Regex::always_empty", "RegexBuilder::is_contained_in"])
p("C07", "The forced next byte is never wrong",
  "When a state reports a forced next byte, any other byte leads to the dead state and the end of input does not match there; when it reports forced end of input, every byte leads to the dead state; and it reports dead only where nothing matches. It may be imprecise only by reporting that some bytes are possible, and a text is called forced only if every match starts with it.",
  ["inputs", "histories"], "all nodes and states, any earlier queries",
  "Tests check the answer for a few literal prefixes; unsound answers need alternations, lookaheads, repeats or compressed alphabets.",
  ["nextbyte.rs", "regex.rs", "ast.rs"],
  [("NextByteCache::next_byte", "src/nextbyte.rs"), ("Regex::next_byte, AlphabetInfo::inv_map", "src/regex.rs")], ["Regex::next_byte"])
p("C08", "Reported lookahead length is the length of the lookahead match",
  "For a regex ending in a lookahead, the length reported after a match is the number of bytes matched by the lookahead part of the shortest such match, zero for a regex without lookahead, and nothing when there is no match. An alternation of lookaheads reports the smallest one.",
  ["inputs"], "all regexes with a final lookahead, all matching inputs",
  "Tests compare a few strings; the value is threaded through derivatives, simplification and per-state caches.",
  ["ast.rs", "regex.rs", "deriv.rs", "simplify.rs"],
  [("lookahead_len, possible_lookahead_len", "src/ast.rs"), ("lookahead_len_for_state", "src/regex.rs"), ("mk_lookahead, mk_or", "src/simplify.rs")], ["Regex::lookahead_len", "Regex::lookahead_len_bytes"])
p("C09", "Alphabet compression is invisible",
  "Compressing the alphabet maps two bytes to one symbol only if no set or byte of the regex tells them apart, maps bytes told apart to different symbols, and translates the regex so that matching mapped input gives the same verdict. Every byte gets a symbol below the compressed alphabet size, and the inverse map returns a byte only if it is the only one with that symbol.",
  ["inputs", "configurations"], "all byte partitions up to 256 classes, any number of byte sets",
  "The tests' regexes give a handful of classes; limits (64 sets, 256 classes, bytes used both alone and in sets) are never reached.",
  ["bytecompress.rs", "regex.rs"],
  [("ByteCompressor::compress, map_expr, compress_bytesets", "src/bytecompress.rs"), ("AlphabetInfo::from_exprset", "src/regex.rs")], ["Regex::alpha", "Regex::transition"])
p("C10", "The lazily built automaton is transparent",
  "State queries give the same answers however much of the automaton was built before: the transition from a state by a byte is the state of the derivative of its regex, acceptance, next byte and lookahead length of a state depend on its regex only, and equal regexes share a state. No order or repetition of queries changes an answer.",
  ["histories"], "all sequences of transition, acceptance, next-byte and lookahead queries",
  "Tests run each regex with one or two query sequences; stale or misplaced table entries need interleaved queries over several states.",
  ["regex.rs"],
  [("Regex::transition, transition_inner, insert_state, append_state, lookahead_len_for_state, next_byte", "src/regex.rs")], ["Regex::transition", "Regex::is_match", "Regex::next_byte"],
  [("state_table", "lazily filled transitions", "src/regex.rs"), ("state_descs", "per-state memo", "src/regex.rs")])
p("C11", "The dead state means exactly that no continuation can match",
  "A transition leads to the dead state exactly when no continuation of the input can match any more; the dead state is never left and never accepts. A regex that matches nothing at all starts in the dead state and reports to be always empty.",
  ["inputs", "histories"], "all regexes, states and bytes",
  "Needs the emptiness of every derivative to be decided; tests look at few states.",
  ["regex.rs", "relevance.rs"],
  [("Regex::new_with_exprset, transition_inner", "src/regex.rs")], ["StateID::is_dead", "Regex::always_empty"])
p("C12", "Hash-consing gives equal content equal ids, for ever",
  "Inserting a vector returns the id it was given when first inserted, and a fresh consecutive id otherwise; different vectors never share an id. The content read back for an id is what was inserted, whatever was inserted before or after, also piecewise and for empty and very long vectors.",
  ["inputs", "histories"], "all sequences of insertions of any vectors, all hash functions (collisions included)",
  "Collisions and buffer growth at particular lengths do not occur in the tests.",
  ["hashcons.rs"],
  [("VecHashCons::insert, start_insert, push_u32, push_slice, finish_insert, get", "src/hashcons.rs")], ["raw::VecHashCons"])
p("C13", "Stored nodes read back as they were built",
  "A node of any kind read back from the store has the same kind, operands, numeric bounds, byte content and marks it was created with; kind, operand and mark accessors agree with it. The predefined constants have their documented identities and content for every alphabet size.",
  ["inputs", "configurations"], "all node kinds and field values, all alphabet sizes",
  "Encoding mistakes affect single kinds or extreme field values.",
  ["ast.rs", "hashcons.rs"],
  [("Expr::serialize, Expr::from_slice, ExprSet::new, get_tag, get_flags, get_args", "src/ast.rs")], ["raw::ExprSet::get"])
p("C14", "Regex syntax is translated faithfully",
  "A parsed regex accepts exactly the byte strings that the parsed syntax denotes when matched against the whole input: literals, classes, repetitions with their bounds, groups, concatenation, alternation, and start and end anchors. A group named stop becomes a lookahead, and word boundaries and multi-line anchors are rejected with an error, never translated wrongly; so are anchors in places that are not supported.",
  ["inputs"], "all syntax trees of the regex parser",
  "Tests parse some 60 patterns; nesting of anchors, empty alternatives, bounds and groups is unbounded.",
  ["syntax.rs", "mapper.rs"],
  [("ExprSet::from_ast, parse_expr", "src/syntax.rs"), ("map_ast", "src/mapper.rs")], ["Regex::new", "RegexBuilder::mk_regex"])
p("C15", "Unicode classes match exactly their characters' UTF-8 bytes",
  "A class of Unicode scalar values, given as any list of ranges, accepts exactly the UTF-8 encodings of its members and no other byte string. A class seen again (from the cache) denotes the same.",
  ["inputs", "histories"], "all lists of scalar value ranges, any earlier classes",
  "Range boundaries between encoding lengths and continuation-byte corner cases; tests use a few classes.",
  ["syntax.rs"],
  [("handle_unicode_ranges, TrieNode", "src/syntax.rs")], ["Regex::new"])
p("C16", "JSON quoting accepts exactly legal quotations",
  "The quoted form of a regex accepts only texts that unquote, by JSON rules with the allowed escapes, to a text the regex accepts, and accepts the standard quotations of each text the regex accepts. With raw mode off, delimiting quotes belong to the accepted text; characters that may not stand unescaped (control characters, DEL, quote, backslash) never do.",
  ["inputs", "configurations"], "all regexes over bytes, all sets of allowed escapes, raw mode on or off",
  "The tests quote some ten regexes with two option sets.",
  ["regexbuilder.rs"],
  [("RegexBuilder::json_quote", "src/regexbuilder.rs")], ["RegexBuilder::json_quote", "JsonQuoteOptions"])
p("C17", "The regex builder means what its tree says",
  "Building a regex tree denotes the operation each tree node names, applied to its children in their order, with the given bounds, bytes, sets and literals, and embedded references unchanged. Sharing and depth of the tree do not matter.",
  ["inputs"], "all regex trees",
  "Each tree node kind is used by at most a few tests, never with unusual arity or order.",
  ["regexbuilder.rs", "mapper.rs"],
  [("RegexBuilder::mk", "src/regexbuilder.rs"), ("map_ast", "src/mapper.rs")], ["RegexBuilder::mk"])
p("C18", "Bad input is refused with an error, not a panic or a wrong regex",
  "Regex trees with an invalid reference, wrong byte-set size, reversed repetition bounds or invalid embedded pattern, and patterns with unsupported constructs, give an error. Valid ones give a result and no input of the building API makes it panic.",
  ["inputs"], "all regex trees and syntax trees",
  "Tests contain almost no invalid input.",
  ["regexbuilder.rs", "syntax.rs"],
  [("ensure!/bail! in RegexBuilder::mk", "src/regexbuilder.rs"), ("bail! in from_ast", "src/syntax.rs")], ["RegexBuilder::mk", "RegexBuilder::mk_regex", "Regex::new"])
p("C19", "Containment verdicts are exact",
  "Asking whether one regex is contained in another answers true exactly if every word of the first is a word of the second, or gives an error if the fuel limit is exceeded or a pattern is invalid. The containment regexes that can be built denote the words of the first that are not words of the second.",
  ["inputs"], "all pairs of regexes, all fuel limits",
  "Only a few pairs are tested.",
  ["regexbuilder.rs", "relevance.rs"],
  [("RegexBuilder::is_contained_in, mk_contained_in, RegexAst::contained_in", "src/regexbuilder.rs")], ["RegexBuilder::is_contained_in"])
p("C20", "Deeply nested regexes do not overflow the stack",
  "Building, compressing, deriving, checking for emptiness and matching use call-stack depth bounded by a constant, however deep the regex is nested. Only dropping, cloning and printing recursive syntax trees, and prefix sharing with an explicit depth bound, recurse.",
  ["inputs"], "all nesting depths",
  "A test nests to one depth; a recursion introduced elsewhere shows only at depths of many thousands.",
  ["ast.rs", "mapper.rs", "bytecompress.rs", "relevance.rs", "syntax.rs", "pp.rs", "simplify.rs"],
  [("ExprSet::map, map_ast, map_expr work lists", "src/ast.rs, src/mapper.rs, src/bytecompress.rs"), ("trie_rec depth bound", "src/simplify.rs")], ["RegexBuilder::mk", "Regex::new"])
p("C21", "Work is accounted and fuel is honoured",
  "Every construction of nodes and every symbolic derivative is charged to the cost counter, which never decreases and which a compiled regex reports. A limited emptiness check stops with an error once the cost spent exceeds its fuel while work remains, returns the exact verdict otherwise, and never fails with unlimited fuel.",
  ["inputs", "configurations"], "all regexes, all fuel values",
  "The cost counter is observed by one test; a path that does not charge makes a limit ineffective.",
  ["simplify.rs", "relevance.rs", "ast.rs"],
  [("ExprSet::pay", "src/simplify.rs"), ("is_non_empty_limited fuel test", "src/relevance.rs")], ["RegexBuilder::to_regex_limited", "Regex::cost"])
p("C22", "Results do not depend on hash seeds or iteration order",
  "Two runs with the same calls give the same nodes, states, answers and costs: nothing depends on the order in which hash tables iterate, on hash values, time, randomness, addresses or the environment.",
  ["schedules", "inputs"], "all hash seeds and iteration orders",
  "A test run samples one seed per process.",
  ["relevance.rs", "regex.rs", "hashcons.rs", "bytecompress.rs"],
  [("hash tables used for membership only", "src/")], ["all of the API"])
p("C23", "Clones are independent and values can be sent between threads",
  "A clone of a regex, builder or expression set answers like the original at the moment of cloning, and shares no mutable state with it: operations on one never change answers of the other. All public types can be moved to and shared with other threads.",
  ["schedules", "histories"], "all interleavings of operations on clones, in any threads",
  "No test clones and mutates both.",
  ["regex.rs", "regexbuilder.rs", "ast.rs"],
  [("derived Clone, no shared interior mutability", "src/")], ["Regex::clone", "RegexBuilder::clone"])
p("C24", "No memory-unsafe operation is reachable with bad values",
  "Every unchecked memory operation of the library has its precondition established by a check in the function that performs it. In particular a number is re-interpreted as a node kind only if a kind with that number exists, and plain-data reinterpretations are between types of the same layout.",
  ["inputs"], "all inputs and node words",
  "Undefined behaviour need not show in a test.",
  ["ast.rs"],
  [("ExprTag::from_u8", "src/ast.rs")], ["raw::ExprSet::get"])
p("C25", "The exported automaton equals the lazy one",
  "The exported table lists for every byte its symbol and for every state and symbol the successor, complete and identical to what step-by-step transitions give.",
  ["inputs", "histories"], "all regexes with fewer than 250 states, any earlier queries",
  "No test reads the exported table back.",
  ["regex.rs"],
  [("Regex::dfa", "src/regex.rs")], ["Regex::dfa"])
p("C26", "Bottom-up traversal visits children first, once, in order",
  "The generic tree traversal calls the node function once per tree node with the results of its children in order and returns the root's result or the first error. The node traversal likewise processes every needed node exactly once per key, children before parents, with operand results in operand order.",
  ["inputs"], "all trees and shared node graphs",
  "Order and sharing matter only for unusual shapes.",
  ["mapper.rs", "ast.rs"],
  [("map_ast", "src/mapper.rs"), ("ExprSet::map, simple_map", "src/ast.rs")], ["map_ast"])
p("C27", "Answers already found are not computed again, and matching is linear",
  "A transition, acceptance length, next-byte hint, derivative or emptiness answer that was found once is never computed again: asking again does no derivative, emptiness check or node construction, and its work does not depend on how many states were built. Once the states for a text exist, matching it takes work linear in its length.",
  ["inputs", "histories"], "all regexes, states, texts and orders of queries",
  "Tests check answers, not work: a cache that misses one kind of entry still gives right answers.",
  ["regex.rs", "ast.rs", "deriv.rs", "relevance.rs"],
  [("Regex::transition, lookahead_len_for_state, next_byte", "src/regex.rs"), ("ExprSet::map", "src/ast.rs"), ("RelevanceCache::is_non_empty_limited", "src/relevance.rs")],
  ["Regex::is_match_bytes", "Regex::transition", "Regex::cost"])
p("C28", "Printing a regex is bounded and total",
  "Printing any node, for any alphabet size and mapping and any limit, terminates, never panics and yields text whose length is bounded by a small multiple of the limit plus a constant, however large and however shared the node is: once the text is longer than the limit no further child is printed. The same holds of `RegexAst::write_to_str` (plus the text of one leaf).",
  ["inputs"], "all nodes, limits and alphabet mappings",
  "Debug output is printed but not checked; an unbounded text shows only on nodes with exponentially many paths.",
  ["pp.rs", "regexbuilder.rs", "ast.rs"], [("PrettyPrinter", "src/pp.rs"), ("RegexAst::write_to_str", "src/regexbuilder.rs")], ["ExprSet::expr_to_string_max_len", "ExprSet::expr_to_string_with_info", "RegexAst::write_to_str"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
