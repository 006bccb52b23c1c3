"""Writes properties.jsonl (run by hand after editing)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})


EX, MA, PA, QU, WO, BI = ("noodle/src/expression.rs", "noodle/src/matcher.rs", "noodle/src/parser.rs",
                          "noodle/src/query.rs", "noodle/src/words.rs", "noodle/src/bitset.rs")
GR, CLI, WEB = "noodle/src/noodle_grammar.pest", "noodle-cli/src/main.rs", "noodle-webapp/src/main.rs"

prop("C01", "Exact single-word matching",
     "For every expression without edits and anagrams (letters, '.', character classes, alternatives, groups, repetitions, "
     "numbers, substrings, subsets, supersets, explicit spaces and punctuation) and every word list, the single words "
     "answered are exactly the words which the expression describes: no match is missing, none is wrong, and each entry of "
     "the list is answered once. Spaces and punctuation in a word are ignored unless the expression asks for them.",
     ["inputs", "programs"], "every expression and every word list, of any size",
     "The tests compile no expression into a matcher against a list; the one evaluation test needs a system dictionary and fails here.",
     [EX, MA, QU, GR],
     [("build_states", EX), ("optimize_states", EX), ("fill_transition_table", EX), ("next_single_word", MA)],
     [("table_char_src_fuzz_dst", "transition tables of the last word, reused for common prefixes", MA)],
     ["QueryEvaluator responses"])

prop("C02", "Fuzzy matching is edit distance",
     "With the option !n, a word is answered exactly if at most n edits turn it into a text which the expression describes; an edit "
     "drops a character of the word, inserts a letter, or changes a character to a letter, anywhere in the word including its "
     "ends. Letters which are inserted or changed to must be ones the expression has there: spaces and punctuation are never invented.",
     ["inputs", "programs"], "every expression, every n, every word list",
     "No test evaluates a fuzzy expression.",
     [EX, MA], [("fill_transition_table", EX), ("start_transitions", EX), ("fuzz loop of step", MA)],
     [("fuzz_limit", "number of edits plus one", MA)], ["QueryEvaluator responses"])

prop("C03", "Anagrams: no match is missed",
     "For every expression containing anagrams (<abc>, <abc+>, <abc->, <abc+n>, <abc-n>, alone or within any other syntax), all words and "
     "phrases which the expression describes are answered. An anagram on its own is answered exactly; combined with other "
     "syntax, any other answer must still satisfy the expression with each anagram relaxed to the count of any one of its letters, "
     "or to its length.",
     ["inputs", "programs"], "every expression with anagrams and every word list",
     "test_parse_roundtrip and test_expression_ast only look at syntax, and no test evaluates an anagram.",
     [PA, EX, QU], [("expand_expressions", PA)], [], ["QueryEvaluator responses"])

prop("C04", "Phrase search is sound and complete",
     "For every query and word list, the phrases of two or more words (up to the bound on words) which are answered are exactly the sequences "
     "of words of the list whose text, taken together, is described by the expression, with edits counted over the whole "
     "phrase. Every such sequence is answered exactly once, including the last one found, whatever the tranches of its words.",
     ["inputs", "programs"], "every query and word list; every number of words",
     "No passing test searches for a phrase.",
     [QU, MA], [("next_within_deadline, phrase phase", QU), ("optimize_for_wordlist", MA), ("filter_search_phases", MA), ("WordClass", MA)],
     [("search_queue", "the lengths and tranches still to be searched", QU), ("search_layers", "the words tried at each place", QU),
      ("alive_wordlist", "words which may be part of a match", MA)],
     ["QueryEvaluator responses"])

prop("C05", "Several expressions must all match",
     "A query with several expressions answers exactly the words and phrases which every one of its expressions describes, each "
     "expression with its own options. The answer does not depend on how many expressions there are, nor on their order.",
     ["inputs", "programs"], "every list of expressions and every word list",
     "No passing test evaluates a query with several expressions.",
     [QU, MA], [("chained WordMatchers", QU), ("iter", MA), ("phrase matchers loop", QU)],
     [("alive_wordlist", "each matcher reads the words left by the previous one", MA)], ["QueryEvaluator responses"])

prop("C06", "Order of results",
     "Single words are answered before phrases, in the order of the word list. Phrases come in groups by number of words and rarest "
     "tranche used: a group is never interleaved with another, it never comes before a group that has no more words and no "
     "rarer tranche, and within it phrases follow the order of the word list word by word.",
     ["inputs", "programs"], "every query and word list, with any tranches",
     "No passing test looks at the order of results.",
     [QU, WO], [("search_queue sort", QU), ("max_tranche of SearchLayer", QU), ("Word ordering", WO)],
     [("search_queue", "groups in the order of their size", QU)], ["QueryEvaluator responses"])

prop("C07", "Limits on results and on words",
     "With a limit of n results an evaluation answers exactly the first n results of the unlimited evaluation (all, if there are "
     "fewer) and then completes; without a given limit, n is 300. With a bound of k words it answers exactly those results "
     "of the unbounded evaluation which have at most max(k, 1) words; without a given bound, k is 10.",
     ["inputs", "programs", "configurations"], "every query, word list, limit and bound, given in the query or through the API",
     "No passing test limits an evaluation.",
     [QU, PA], [("results_count", QU), ("from_ast", QU), ("set_results_limit / set_search_depth_limit", QU)],
     [("results_count", "results so far", QU)], ["QueryEvaluator responses"])

prop("C08", "Interrupting and resuming changes nothing",
     "An evaluation which is interrupted by deadlines any number of times, at any points, answers exactly the same results in the same order as "
     "one which is not; a timeout is only reported if a deadline was given, and an evaluation which is complete stays complete. "
     "When its deadline has passed, a call gives control back after examining a bounded number of words or phrases.",
     ["schedules", "histories", "inputs"], "every query, word list and sequence of deadlines",
     "Tests never give a deadline.",
     [QU, MA], [("deadline checks", QU), ("deadline_check_count", MA)],
     [("word_index", "resumption point in the list", MA), ("layer_index, search_layers", "resumption point in the search", QU)],
     ["QueryResponse::Timeout", "QueryResponse::Complete"])

prop("C09", "Reading a query",
     "Every query text is read as the documented language: lines separated by newlines or semicolons, comments, macros (later lines only, "
     "textual, redefinable), the pragmas #words #limit #dict #quiet #wordlist, and expressions with their options; anything else is refused "
     "with the number of the first line at fault. Expressions, options and in-line word lists that are read are those that were written, "
     "and the text shown for an expression reads back as the same expression. Refused as too large are: lines of more than 65536 bytes (macros replaced), groups nested more than "
     "100 deep, #words above 1000, repetitions and edits above 65535, and expressions whose tables would exhaust the memory.",
     ["inputs", "programs"], "every text",
     "Two tests sample a few dozen lines; macros, pragmas, comments in queries and error lines are not tested.",
     [PA, GR], [("new_from_str", PA), ("grammar", GR)], [("macros", "definitions so far", PA)],
     ["QueryAst::new_from_str", "Display of ExpressionAst"])

prop("C10", "Words are reduced to letters uniformly",
     "Every text becomes a word over 26 letters, one sign for punctuation and one for spaces, ending in a space: case is ignored, spaces and underscores are "
     "spaces, accented Latin letters become their plain letters, ligatures become several letters, combining marks are dropped, and any other "
     "character is punctuation. The text itself is kept as it was for display.",
     ["inputs"], "every text of characters assigned in Unicode 13 (the version of the tables the code uses)",
     "No test builds a word with a character outside the lower-case letters.",
     [WO], [("Word::new", WO), ("Char::from", WO), ("CharNormalizer table", WO)], [], ["Word.chars", "Word.text"])

prop("C11", "Loading a word list",
     "A word list file is loaded as documented: one word per line with an optional leading count, words of one letter dropped except 'I' and 'a', words with digits "
     "dropped, other lines kept once each; tranches grow with the position in the file and words which are not all lower-case ASCII letters "
     "are one tranche rarer. The result is sorted by tranche, then alphabetically, compressed files load like plain ones, and unreadable files are an error.",
     ["inputs", "fault_sequences"], "every file contents",
     "No test loads a file; the one that would needs /usr/share/dict/words.",
     [WO], [("load_wordlist", WO), ("parse_wordlist", WO)], [("tranche, tranche_count", "running position", WO)], ["load_wordlist"])

prop("C12", "Bit sets behave as sets of any size",
     "Bit sets of one, two or three dimensions behave as families of independent sets of numbers for every size of at least one and every sequence of "
     "operations: inserting, removing, union, difference, intersection, comparison and iteration act on exactly the members and slices addressed. "
     "Operations on two sets are between sets of one size, or, for union and difference, with a smaller second set.",
     ["histories", "inputs"], "every size (including multiples of the block size) and every sequence of operations",
     "Three tests sample one size each, below two blocks, with few operations.",
     [BI], [("BitSetRefMut operations", BI), ("slice, slice_mut, slice2d", BI)], [("blocks", "members in blocks of machine words", BI)],
     ["bit set operations"], "cfg(noodle_verif): makes the bitset module public")

prop("C13", "The web service answers like the library",
     "Every way to ask the web service (plain GET, JSON POST, websocket) answers with the results of an evaluation of that query over the word list it names (or the default one), in order, or reports "
     "that the query was refused. A plain GET without a given limit answers at most 15 results; an answer is only cut short when its time is up (10 s for a plain GET, 150 s otherwise), and says so. "
     "A websocket carries one query, which is abandoned when its client closes it. The number of queries that are reported as active is the number which are being evaluated, the total the number which were asked; "
     "when all clients have their answers or have gone, none is active. No request, malformed or abandoned, makes the service fail to answer later ones. "
     "(The service is given a list named default.)",
     ["schedules", "inputs", "histories", "fault_sequences"], "every sequence of requests by several clients, including malformed ones and disconnections",
     "The web service has no tests.",
     [WEB], [("run_query_sync", WEB), ("run_websocket", WEB), ("ActiveQuery", WEB)],
     [("ACTIVE_QUERIES, TOTAL_QUERIES", "gauge of active queries, and their total number", WEB)], ["HTTP and websocket responses", "/metrics"])

prop("C14", "The command line tool answers like the library",
     "The command line tool prints, one per line, exactly the words and phrases which an evaluation of its query over the given word list answers, in that order, "
     "as many as asked for with -n (all, without it) and of no more words than allowed with -m (10, without it); these options take precedence over "
     "#limit and #words in the query. A query that is refused or a word list that cannot be read is reported, "
     "and nothing is printed as a result.",
     ["inputs", "configurations"], "every query, word list file and combination of options",
     "The command line tool has no tests.",
     [CLI], [("main", CLI)], [], ["standard output", "exit status"])

prop("C15", "Every query is refused or completes",
     "Reading any text as a query, and evaluating any query that is accepted on any word list (empty ones included), never crashes: the text is refused with an error, "
     "or the evaluation goes on, through any number of results and timeouts, to completion. Numbers, sizes and lengths out of "
     "the usual range are no exception: what is accepted is evaluated, unless the tables of an unusually large expression with unusually long words exceed the memory.",
     ["inputs", "programs"], "every text and word list",
     "Tests only use well-behaved queries.",
     [PA, EX, QU, MA, BI], [("size and number checks", PA), ("indexing of states and tables", MA)], [], ["absence of panics"])

prop("C16", "Progress reports",
     "The progress of an evaluation of a query (of at least one expression) can be asked for at any point, before, between and after responses, without changing what is "
     "answered. While words and phrases are still to come it gives one percentage, between 0 and 100, and does not say that it is done; within the phase of "
     "single words it never decreases and is not behind the words already answered. When the evaluation is complete it says so.",
     ["schedules", "histories"], "every query, word list and sequence of calls",
     "No test asks for progress.",
     [QU, MA], [("progress", QU), ("search_estimate", QU)], [("initial_search_estimate", "estimated work", QU)], ["QueryEvaluator::progress"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
