#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing this file)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, method, note, check=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, method=method, note=note, check=check))

Q, M, X, B, A, W = ("noodle/src/query.rs", "noodle/src/matcher.rs", "noodle/src/expression.rs",
                    "noodle/src/bitset.rs", "noodle/src/parser.rs", "noodle/src/words.rs")
G, CLI, WEB = "noodle/src/noodle_grammar.pest", "noodle-cli/src/main.rs", "noodle-webapp/src/main.rs"

SMALL = ("Exhaustive inside the stated bounds, on the real code; beyond them it rests on the small-scope "
         "hypothesis. Trusts the reference model in mc/src/model.rs, written from the help text only.")

prop("C01", "Regular-expression operators match exactly the words they describe",
     "For every expression built from letters, '.', letter classes (also inverted), sequences, groups, alternatives and the repetition operators ?, *, +, {n}, {n,}, {,m}, {n,m}, and every word list, searching for single words reports exactly the words whose letters the expression describes. No such word is missed and no other word is reported.",
     ["inputs", "programs"], "every expression tree over the operators, every word",
     "The test suite samples a few ASTs and no matching at all; state merging and epsilon handling only go wrong for particular combinations of nested operators.",
     [X, M, A, G, B], [("expression to automaton", X + " build_states"), ("automaton simplification", X + " optimize_states"), ("word stepping", X + " fill_transition_table")],
     "explicit enumeration of all operator trees up to a size, each executed on the real engine against a reference matcher on every word of a bounded universe",
     SMALL)

prop("C02", "Phrase search reports exactly the matching word sequences, each once",
     "For every query, word list and maximum phrase length d, the reported phrases of two or more words are exactly the sequences of at most d listed words (repetition allowed) whose concatenated letters match. Each is reported exactly once, whatever groups of frequency the words are in.",
     ["inputs", "programs", "configurations"], "every expression, every list (any grouping by frequency, duplicates included), every depth",
     "The single end-to-end count test runs one query on a machine-specific list; iterative deepening, pruning of words, states and search phases interact in ways a sample cannot settle.",
     [Q, M], [("iterative deepening search", Q + " next_within_deadline"), ("pruning of words, states and phases", M + " optimize_for_wordlist, filter_search_phases")],
     "explicit enumeration of queries x word lists x depths; for each, all word sequences up to the depth are enumerated as the state space and compared with the complete real search",
     SMALL)

prop("C03", "Several expressions mean intersection, in any order",
     "The answers to a query of several expressions are exactly those that answer every one of them alone, for single words and phrases alike. The order in which the expressions are written changes neither the answers nor the order they are reported in.",
     ["inputs", "programs"], "every tuple of 2-4 expressions (fuzzy ones included), every permutation, every list",
     "No test evaluates two expressions together; feeding each matcher the words the previous one kept alive can only fail for particular combinations.",
     [Q, M], [("chained word matchers", Q + " QueryPhase::Word"), ("joint phrase stepping", Q + " QueryPhase::Phrase")],
     "explicit enumeration of all pairs, triples and selected quadruples of a pool of expressions, all permutations, against the intersection of the reference model's answers",
     SMALL)

prop("C04", "A fuzzy search finds exactly the texts within n edits",
     "With '!n' a word or phrase is reported exactly when it can be turned into a text the expression matches by at most n edits, each adding, removing or changing one letter. This holds for edits at any position, at word boundaries and before the first or after the last letter.",
     ["inputs", "programs"], "every expression, every n, every word and phrase",
     "No test runs a fuzzy query; an edit lost at the first letter or at the seam between two words needs a specific text to be seen.",
     [X, M], [("edit counting while stepping", X + " fill_initial_table, fill_transition_table"), ("edits across words", M + " step")],
     "explicit enumeration of expressions x n x bounded word universes and phrases, against an edit-distance dynamic programme over the expression",
     SMALL + " Whether explicit spaces and punctuation can be edited is left open by the help text and not judged.")

prop("C05", "Anagram blocks count letters correctly",
     "<bank>, <bank+>, <bank->, <bank+n> and <bank-n> match exactly the texts whose letters are a rearrangement of the bank, contain it, are contained in it, or differ from it by exactly n added or removed letters, when the block stands alone, is surrounded by parts of fixed length, or stands next to plain or '-' blocks over other letters. In any other context no text that satisfies the expression is ever missed.",
     ["inputs", "programs"], "every bank, kind and count, every context, every text",
     "Only parsing of one anagram is tested; each block is expanded into several expressions whose conjunction must have the right meaning.",
     [A], [("expansion into expressions", A + " expand_expressions")],
     "explicit enumeration of banks x kinds x counts x contexts on all strings of a bounded universe and on phrases, against letter counting",
     SMALL)

prop("C06", "Subsets, supersets, substrings and enumerations mean what is documented",
     "(…:-) matches any subsequence of its terms, (…:+) its terms in order with anything in between, (…:^) any run of consecutive terms, and numbers like '3 4' words of exactly those lengths. This holds for terms of any shape, nested in each other and in the other operators, for single words and phrases.",
     ["inputs", "programs"], "every nesting of the partial-pattern operators, every text",
     "Only the parse tree of one subset is tested; the automaton of a substring shares exits between its terms.",
     [X, A, G], [("substring automaton", X + " build_states Substring"), ("partial pattern rewriting", A + " parse_term")],
     "explicit enumeration of operator trees with partial patterns, run against the reference matcher on bounded word and phrase universes",
     SMALL + " Whether the empty run belongs to a substring is left open.")

prop("C07", "Spaces and punctuation are ignored unless asked for",
     "Word boundaries and punctuation of the words are ignored by an expression that does not mention them, and are respected exactly when it mentions '_' or punctuation (also inside a class) or says !_ or !'. The two choices are independent, hold per expression, and a word boundary left over at the very end never prevents a match.",
     ["inputs", "programs", "configurations"], "every placement of spaces and punctuation in words and expressions, every option combination, every expression of a query on its own",
     "Option detection is tested, its effect on matching is not.",
     [A, X], [("option detection", A + " detect_options"), ("implicit symbols", X + " fill_transition_table")],
     "explicit enumeration of expressions over letters, '_' and punctuation x option sets x words with spaces and punctuation x phrases, against the reference matcher",
     SMALL)

prop("C08", "Interrupting a search never loses, repeats or reorders answers",
     "Whenever and however often a search runs out of its time slice, continuing it delivers exactly the answers and the order an uninterrupted search delivers. A search whose deadline has passed returns within a bounded number of steps with a timeout, and one whose deadline has not passed never reports a timeout.",
     ["schedules", "histories"], "every choice of points at which the clock passes the deadline, every query shape and phase",
     "No test sets a deadline; the interruption points are hidden clock reads inside three different loops.",
     [Q, M], [("deadline checks", Q + " next_within_deadline"), ("resumable word matching", M + " next_single_word")],
     "exhaustive fault injection: the clock is virtualised, and for every query the search is re-run with the deadline expiring at every single clock read, every pair of reads and every period",
     SMALL + " The clock is replaced through clock_gettime in the checking process.")

prop("C09", "Limits and the end of the answer stream",
     "A result limit n yields exactly the first n answers of the unlimited search, #words and the evaluator's phrase limit bound the number of words of every answer, and programmatic settings override those of the query text. Every search ends with exactly one completion message, after which nothing more is reported.",
     ["inputs", "configurations", "histories"], "every limit, every phrase limit, every query and list, every way of setting them",
     "No test sets a limit or drains the iterator past its end.",
     [Q], [("limits", Q + " from_ast, set_results_limit, set_search_depth_limit"), ("iterator", Q + " Iterator::next")],
     "explicit enumeration of queries x lists x all limits (0..answers+1) x all phrase limits x both interfaces, comparing complete response histories",
     SMALL)

prop("C10", "Answers come in a fixed, documented order",
     "Single words come first, in list order; then phrases, where those of one length and frequency group come in list order and none comes before a phrase that is both no longer and in no later group. Repeating a search gives the identical response stream.",
     ["inputs", "programs", "configurations"], "every query, list and grouping",
     "Nothing tests the order of answers.",
     [Q, M], [("search queue", Q + " search_queue"), ("tranches", M + " SearchPhase")],
     "explicit enumeration of queries x lists x all assignments of words to groups x depths, with an order monitor on the complete response stream",
     SMALL)

prop("C11", "Every query text is answered or rejected, never crashes or hangs",
     "Every text is either rejected with an error that points at a line of the text or can be evaluated to completion or timeout without a panic, out-of-bounds access, stack overflow or unbounded time and memory before the first deadline check. Progress can be asked for at any moment and is a percentage.",
     ["inputs", "histories"], "every string as a query, every word list",
     "The tests parse some two dozen fixed strings.",
     [A, G, X, Q], [("parser", A + " QueryAst::new_from_str"), ("size limits", A + " check_numbers, expression_size")],
     "explicit enumeration of all token strings up to a length over the full token alphabet plus all single-symbol edits of a corpus and scaled pathological families, each parsed and evaluated in a watched process",
     "Exhaustive over token strings to the stated length; crashes and hangs are attributed to the exact case by process supervision. Longer texts are covered by the scaled families only.")

prop("C12", "Query text: lines, comments, settings, macros and embedded lists",
     "A query is its lines (separated by newline or ';'), where comments and blank lines change nothing, settings lines set exactly their setting (the last wins), a macro replaces its name by its text in every later line only, and everything after #wordlist is the word list. Letter case and redundant whitespace do not change the meaning, and an error is reported on the line that caused it.",
     ["inputs", "programs"], "every arrangement of line kinds",
     "No test parses a query of more than one line.",
     [A, G], [("line loop", A + " QueryAst::new_from_str"), ("grammar", G)],
     "explicit enumeration of all sequences of line kinds up to a length, against a reference interpreter of query text, comparing settings, answers and error lines",
     SMALL)

prop("C13", "Words are compared by their letters, whatever the script or accents",
     "For every word, letter case, accents, compatibility forms and the ligatures of a-e and o-e make no difference to what matches it; every other character than a letter a-z, a space or an underscore counts as punctuation. The text reported is the word as listed, unchanged.",
     ["inputs"], "every Unicode character, alone and in context",
     "No test has a word with a character outside a-z.",
     [W], [("normalisation", W + " Word::new"), ("symbols", W + " From<char> for Char")],
     "explicit enumeration of all 1,112,064 Unicode scalar values (and pairs of composing ones), each observed through real queries, against a reference normalisation table",
     "Complete over single characters; sequences are bounded. Trusts the unicode-normalization crate's decomposition data, and std's case mapping.")

prop("C14", "Loading a word list keeps every usable word, ranked by position",
     "A loaded list holds exactly the usable words of the file (not one-letter words other than I and a, nor words with digits), from plain, tab-separated and zstd files alike, undecodable lines being skipped without losing others. Words are grouped by their rank in the file, capitalised or punctuated words one group later, and the list is ordered by group; scores are the counts given in the file.",
     ["inputs", "fault_sequences"], "every file content, every line kind in every order, every size around the group boundaries, truncated and unreadable files",
     "No test loads a list other than the machine's dictionary.",
     [W], [("loader", W + " load_wordlist")],
     "explicit enumeration of files: all sequences of line kinds up to a length in all formats and endings, every truncation point of compressed files, all sizes around each group boundary, against a reference loader",
     SMALL)

prop("C15", "Whether an entry is reported does not depend on other entries",
     "A word is reported as a single-word answer or not regardless of which other words are in the list, their order, duplicates and shared prefixes. A phrase is reported depending only on the words it is made of.",
     ["inputs", "configurations", "histories"], "every list, sublist and permutation, every query",
     "The prefix cache and the pruning of words carry state from one word to the next; no test varies the list.",
     [M], [("prefix cache", M + " table_chars"), ("word classes", M + " WordClass")],
     "explicit enumeration of all sublists and permutations of a universe of prefix-sharing words for a family of queries; answers must equal the per-entry answers",
     SMALL)

prop("C16", "Equivalent spellings of a query give equal answers, at every size",
     "Rewriting an expression by a law of the language - a group around any part, x? for x{,1}, x{2} for xx, reordered alternatives, the distribution of sequence over alternatives, unrolled repetitions, the expression as printed back by the engine - never changes the answers. The meaning of an expression does not depend on how large it is.",
     ["programs", "inputs"], "every expression, every law, every size including those around machine-word boundaries of the state sets",
     "No test compares two spellings, and no test has an expression of more than a few states.",
     [X, B, A], [("bit sets", B), ("state merging", X + " optimize_states"), ("printing", A + " Display")],
     "explicit enumeration of expressions x laws x positions, and of padded expressions at every size up to several hundred states, comparing real runs with each other and with the reference",
     SMALL)

prop("C17", "The HTTP interface gives the library's answers",
     "GET /query/… and POST /query return exactly the answers the library gives for that query on the requested (or default) list, in order, in the documented format with the default limit; parse errors and timeouts are reported in the body. The word-list routes and metrics describe the loaded lists.",
     ["inputs", "histories"], "every query, list choice, encoding and request history",
     "The web server has no tests.",
     [WEB], [("run_query_sync", WEB), ("routes", WEB + " main")],
     "explicit enumeration of requests (query x method x encoding x list) and of request sequences against the real server process, compared with the library",
     "Runs the real server binary on loopback; exhaustive over the enumerated requests and sequences.")

prop("C18", "The websocket protocol delivers every answer once, for every schedule",
     "A websocket query receives status, log and match messages in which the matches are exactly the library's answers in order, then one final status, then the close; other clients, slow readers and other queries do not change it. A client that disconnects or sends something else than a query never disturbs the server or others.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of the actions of concurrent clients, every disconnect point, every message kind",
     "The web server has no tests.",
     [WEB], [("run_websocket", WEB)],
     "exhaustive enumeration of interleavings of two clients' protocol actions (and of disconnects at every step) against the real server process, with a protocol monitor per connection",
     "Exhaustive over client action interleavings; thread scheduling inside the server is not controlled.")

prop("C19", "The number of active queries always returns to zero",
     "After any history of requests - answered, rejected, interrupted, malformed, abandoned by the client at any point - the active-queries gauge returns to the number of queries still running, and the total counter grew by exactly the number of queries started.",
     ["histories", "fault_sequences", "schedules"], "every history of request kinds and of disconnect points",
     "The web server has no tests.",
     [WEB], [("ActiveQuery", WEB), ("metrics", WEB + " get_metrics")],
     "exhaustive enumeration of histories of request kinds up to a length against the real server process, with the gauge read after each",
     "Exhaustive over histories of the enumerated request kinds to the stated length.")

prop("C20", "The command line prints the library's answers",
     "The command-line tool prints, one per line, exactly the answers the library gives for the query and list file, in order; -n and -m override #limit and #words. Errors end it with a non-zero status and no answers.",
     ["inputs", "configurations"], "every query, list file, flag combination",
     "The command-line tool has no tests.",
     [CLI], [("main", CLI)],
     "explicit enumeration of queries x flag combinations x list files run through the real binary and compared with the library",
     SMALL)

PAGE = "noodle-webapp/static/index.html"

prop("C21", "The web page shows exactly the answers to the latest query",
     "Whatever the user and the network do, and in whatever order: each click on the query button, Ctrl-Enter or example opens one connection and asks exactly what the page shows (query, list, phrase length, limit, custom list). The page shows exactly the answers received for the latest query, those that pass the filter, in the order received, or by score after sorting; 'use results as wordlist' copies what is shown. Connections of earlier or stopped queries are closed and change nothing afterwards. The links beside an answer are about its exact text, and the page's address brings the query back; the page works whatever its address.",
     ["schedules", "histories", "inputs"], "every sequence of user actions and network events, every text",
     "The page has no tests; its scripts only go wrong for particular orders of clicks and network events, or for particular characters.",
     [PAGE, WEB], [("asking", PAGE + " submit, stop"), ("showing", PAGE + " onmessage, rebuildOutput"), ("list of word lists", WEB + " get_wordlist_js")],
     "stateless model checking of the page's real scripts: every sequence of user actions and network events up to a depth in a document with a controlled WebSocket; the messages come from the real server and the meaning of requests and answers from the library",
     "Exhaustive inside the stated bounds, on the page's real scripts and the real server's messages; trusts the harness's own implementation of the document and of WebSocket events (mc/page).")

prop("C22", "The server delivers the page's files, whole, and no other file",
     "Each of the page's files is delivered with exactly its content, as it is at that time, under its path, from static/, noodle-webapp/static/ or as the page alone, whatever was asked before on the connection; GET / is the page. No path, however written (dots, double slashes, percent-encoding, backslashes), delivers the content of a file outside those directories.",
     ["inputs", "configurations", "histories"], "every path, layout of files and sequence of requests",
     "The web application has no tests.",
     [WEB], [("static files", WEB + " main: statics, index"), ("routes", WEB + " main: routes"), ("word lists", WEB + " get_wordlist")],
     "explicit enumeration of all paths up to a number of segments, all files, layouts and short sequences of requests against the real server",
     SMALL)

prop("C23", "The list generator ranks every word once, and noodle can load its lists",
     "From articles and dictionary entries, listgen.py counts every word (ends trimmed, en dashes as dashes; no digits, brackets, colons, underscores or internet names) in titles and in bodies up to their second ' Retrieved '. All forms of a word (case, accents, ligatures) count as one, written plainly if that form has at least 1% of the uses. The lists have every word of at least the cutoff's points exactly once, by falling points, valued on the logarithmic scale; noodle reads each with that value and those letters.",
     ["inputs", "histories"], "every set of articles, dictionary entries, counts and cutoffs, every character",
     "The generator has no tests, and takes hours on the real input.",
     ["listgen/listgen.py", W], [("words", "listgen/listgen.py strip_word, canonicalize"), ("counting", "listgen/listgen.py extract_word_frequency, word_frequency"), ("ranking", "listgen/listgen.py create_wordlist, Wordlist")],
     "explicit enumeration of characters, short texts, articles, counts of forms, dictionary entries and cutoffs, the real generator run on each and compared with a reference; each list loaded by the real loader",
     SMALL.replace("mc/src/model.rs, written from the help text only", "mc/listgen/driver.py, written from the README and the comments"))

prop("C24", "Running searches never keep the server from answering others",
     "While any number of searches (up to hundreds) are running, over GET, POST or websockets, whether their clients read the answers, do not, or have gone, every other request - metrics, word lists, files, new searches over GET, POST or websocket - is taken up and answered correctly, without waiting for a running search to end.",
     ["configurations", "histories", "schedules"], "every number and mix of running searches, every kind of further request",
     "The web server has no tests.",
     [WEB], [("searches over HTTP", WEB + " run_query_sync"), ("searches over websockets", WEB + " run_websocket"), ("runtime", WEB + " main")],
     "explicit enumeration of numbers and mixes of running searches on the real server; in each state every kind of request is made, twice, and must be answered correctly while all of them run",
     "Exhaustive over the stated numbers and kinds of running searches on the real server process; thread scheduling inside the server is not controlled, an answer counts as missing after 60 s (8 s, three times, for searches over GET, which end after 10).")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b if isinstance(b, str) else b) for a, b in p["mech"]]))) + "\n")
    have = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {p["id"] for p in P}
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh check %s quick" % p["id"],
                          thorough_cmd="./run.sh check %s thorough" % p["id"],
                          technique="model checking: " + p["method"], level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="the check is not built yet"))
    json.dump(dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
