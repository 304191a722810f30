# HOW[id]: what is generated, against which oracle, at what cost.  CAUGHT[seed]: which checks catch it, when not just its own.
HOW = {
"C02": "random initial graphs and sequences of SPARQL updates (INSERT DATA, DELETE DATA, DELETE WHERE, DELETE/INSERT WHERE), half of them aimed at stored triples and at freeing and recycling IDs; after every step the full contents (SELECT ?s ?p ?o plus every literal) must equal a Python set, and pure inserts/deletes must report the true number of changes. About 10 s quick.",
"C03": "random histories mixing SPARQL updates, batch file updates, save and close/reopen (in the same process or a new one), small and bulk; the contents after each reopening must equal the model. About 14 s quick.",
"C04": "random update histories, then all eight triple-pattern shapes around stored, removed and never-stored triples, each compared with the filtered model. About 17 s quick.. About one case in 57 has a dictionary of tens of thousands of strings, so that the trees of the string index split and merge their inner nodes",
"C05": "random graphs and BGPs (chains, stars, cycles, constants, shared predicate variables, disconnected parts, projections, DISTINCT), compared as multisets with the reference evaluator. About 11 s quick.",
"C06": "random graphs and groups cut from a seeded pattern into OPTIONAL/UNION/MINUS/nested parts (some made unmatchable) with FILTERs and BINDs, compared as multisets with the reference evaluator of the algebra. About 12 s quick.",
"C07": "random databases of typed values and random expressions (comparisons, logic, arithmetic, IN, all functions, unbound variables) in FILTER and BIND, compared with a reference evaluator of SPARQL expressions with errors; open outcomes are excluded and counted. About 10 s quick.. Expressions over the same operators are also computed as SELECT (expr AS ?z) columns (operators and CONCAT; other functions are refused there with -101)",
"C08": "Random databases with columns of one comparable kind each (numbers of three types, strings, dates, IRIs, IRIs mixed with strings) and queries with 0-3 sort keys, DISTINCT, LIMIT and OFFSET, over joins, OPTIONAL, UNION and FILTER. Oracle: the reference evaluator's solutions, sorted into tie classes; every segment of the answer must come from the tie class at that position, whole classes exactly. Rows of DISTINCT with hidden sort keys are checked for being distinct and arrangeable. Bound: a dozen entities, answers to a few hundred rows.",
"C09": "Random graphs with typed columns (numbers of several types, dates, strings, IRIs) and random patterns (BGP, OPTIONAL, UNION, FILTER) x 0-3 group variables x 1-3 aggregates (with DISTINCT, separators, star); the reference evaluator computes groups and aggregates by SPARQL 1.1 section 11 and numbers are compared by value. Non-trivial: a group with two or more solutions, or an empty or unbound group.",
"C10": "Random small graphs; ASK over random patterns of C06, and SELECT whose pattern embeds one or two generated subqueries (projection, DISTINCT, COUNT/GROUP BY, ORDER BY+LIMIT+OFFSET, nested), in any position; oracle: the reference evaluator evaluates the subquery on its own and joins its projected rows. Compared as multisets. Non-trivial: a subquery with answers or an ASK over an operator.",
"C13": "Random databases and sequences of 1-4 transactions (1-6 updates each at random isolation levels, reads and whole-contents dumps in between, ended by commit, rollback or closing the database), with checkpoints, restarts and ordinary updates between; oracle: a set of committed triples plus the transaction's delta. Non-trivial: an effective update that was read back in its own transaction, which then ended. About 15 s quick.",
"C14": "Random step-by-step interleavings of 2-4 transactions in one thread (the engine never blocks: conflicts abort), a third of them write-skew shapes; oracle: a READ COMMITTED / SNAPSHOT model per read, first-committer-wins on triples, and for SERIALIZABLE a search over all serial orders of the committed transactions for one that explains every read and the final contents, which must also survive a checkpoint and a restart. Aborts are allowed only with an overlapping transaction. About 15 s quick.",
"C15": "Half of the cases run 2-5 threads of random queries and updates (INSERT/DELETE DATA, DELETE WHERE, DELETE/INSERT WHERE) over a small hot set plus up to 3000 other triples, recording a global order of step begins and ends; a Wing-Gong search with memoisation looks for a linearization in the set model, refusals excepted. The other half run threads of transactions (one isolation level, random delays, barriers that line up large commits with new snapshots); oracle: search over commit orders for snapshots, over serial orders for SERIALIZABLE, no dirty reads for READ COMMITTED. The contents must survive a checkpoint and a restart. Thread schedules are the operating system's, so a failing case is replayed up to 27 times to confirm. About 25 s quick.",
"C16": "Random histories with backup and restore steps against a set model; each backup remembers the set at that moment; a restore closes or kills the server, swaps the directory and compares the full contents and seven access shapes. About 15 s quick.",
"C01": "A generator builds a set of statements (IRIs, blank nodes, literals of any text, anonymous nodes and collections nested up to three deep) and writes it down in a random style: N-Triples or Turtle, prefixes and bases declared and redeclared along the way, relative names, abbreviations, shorthand numbers, long strings, escapes chosen per character, comments, white space, CRLF, no final newline, lengths on both sides of and exactly at multiples of the reader's buffer. The database is built from the file or the file is added to one, and the stored triples, read back through a query, must equal the statements; anonymous nodes are compared by the tree of statements about them. The tests load a few fixed ASCII files.",
"C20": "Two generators. Lines: well-formed statements mixed with malformed ones of about 50 kinds (each ending on its own line, so that what must survive is certain), ill-typed literals, over-long garbage and CRLF; after build, add or remove the stored triples must be exactly the well-formed ones and the error log must hold one line per rejection. Bytes: documents from the generator of C01 with bytes changed, inserted, deleted, duplicated, truncated or Turtle tokens inserted at random; the process must survive, statements before the damage must be stored, every access shape must agree with the full dump, further data must load and reopening must preserve it. The thorough tier runs a quarter of the cases under AddressSanitizer.",
"C17": "Exports the database between and after generated updates (rich terms: escapes, control characters, non-ASCII, languages, datatypes), reads every exported file with an independent N-Triples parser written from the grammar, compares its statements with the set model as a multiset, rebuilds a database from the file and compares that, and exports the rebuilt one once more. Terms whose text a query cannot carry (C07) enter through files.",
"C19": "Texts come from the generators of C02 and C05-C10, so that every supported construct occurs; a relayout keeps the token sequence, hence the answer (metamorphic) or, for an update, the model's effect; a breakage is constructed so that no reading of the grammar accepts it, hence must be refused; noise has no oracle but the invariants: the process survives and answers in time, and the contents stay unless the text was accepted as an update. Left out: repeated variables in noise (C05-self), and any layout of INSERT DATA, DELETE DATA and DELETE WHERE other than one space (open finding C19-twowords: the generated lexer has these as single tokens, and ANTLR is not available to regenerate it). Nesting goes to depth 100.",
"C22": "A real ghttp server in a scratch directory, driven over loopback by histories of 2-30 requests from root, up to three generated users and unknown ones, right and wrong passwords (plain and MD5, POST, GET and encoded GET), with user, password, privilege and database management, drops, renames, backups, restores, restarts and SIGKILLs; a model says for each request the exact status class and afterwards showuser, show, contents and privileges must be the model's, again after restarts. About 13 s quick.",
"C23": "The same server and model, plus malformed requests (missing, mistyped and odd parameters, cut and nested JSON, raw bytes, other methods), result formats and compression, upload/download round trips, forbidden downloads, IP lists against an own address comparison, storms (2-4 whole sessions concurrently, each against its own model) and claims (2-6 clients at once after one thing; exactly one may win, the end state must be the winner's). A crash, a hang, a non-JSON answer or a difference from the model is a violation. About 15 s quick.",
"C12": "tools/gs drives the library: graphs of 3-40 nodes over 1-4 predicates (self-loops, parallel edges, edges in both directions, literals, several components), then insertions and removals through SPARQL, adjacency lists preloaded at load time or built per query; queries call one of 19 path functions with constant or variable nodes, directed or not, with allowed, excluded, unknown or no predicates, hop bounds and with GROUP BY, one or two functions at a time. Oracle: an independent breadth-first search, enumeration of simple paths, union-find, triangle and coefficient count over the model's triples; returned paths must be walks of the graph from source to target with the length and labels claimed, results that are unique (length, count, reachability, set of neighbours) must be equal. Directed triangles and coefficients are compared on graphs without parallel edges, directed global coefficients are not asserted; kHopEnumerate on graphs of more than 12 nodes is asked for at most 4 hops; PR, PPR, louvain, kplex, coreTruss, IC14 and PFN are not exercised (no documented answer an oracle could decide, or exponential time). Non-trivial: a query with a function on nodes which exist and at least one edge of an allowed predicate",
"C24": "Generated histories (builds whose document repeats statements, SPARQL updates, file insertions and removals, saves, reopenings, transactions committed or rolled back and checkpointed; predicates with type, TYPE or rdf:type) run against the real Database; after every step all figures are compared with the counts taken from the reference set of triples. After a rolled-back transaction only triples, subjects and class counts are compared, because the dictionary keeps its new strings.",
"C21": "Oracle: a model of the databases and backups in a directory; each case is a sequence of runs of the real tools (built from the current tree) in a scratch directory. Names include prefixes of one another, names differing in case, non-ASCII and long ones; files are N-Triples, damaged ones, zip archives with several files, with directories, with namesakes in different directories and with names that point out of the directory (kept harmless by the scratch directory's depth). After each run its message, the tables printed, the figures of gmonitor, the exported files and the directory's other contents are compared with the model. Reaches what the tests cannot: runs that are refused, and effects on databases a run does not name.",
"C25": "Oracle: a model of users, passwords, privileges and databases. The real gconsole runs on a pseudo terminal in a scratch directory; the harness types generated commands, answers the prompts (also wrongly, with nothing or with the end of the input) and compares every reply, redirected output and file with the model; after the last session a root session, gquery and gshow show the final state. Reaches what the tests cannot: there is no test of the console at all.",
"C26": "Oracle: a model that keeps the three logs itself: what each answered request must add. Cases drive the real server with requests of every kind (texts with quotes, line ends, control characters and very long ones), from several addresses and in bursts of concurrent requests, with transactions ended in every way, stops, kills and restarts, and read pages of all sizes; entries of concurrent requests are compared as a set, everything else in order. Reaches what the tests cannot: there is no test of the logs.",
}
CAUGHT = {'s03_removed_entry_not_written': 'C03', 's04_cache_longer': 'C05', 's05_quote_before_escape': 'C01', 's06_batch_remove_last_of_subject': 'C04', 's07_expand_loses_removal': 'C13', 's08_lost_update': 'C14', 's09_product_order': 'C06, C10', 's10_error_or_true': 'C07', 's11_export_cr': 'C17', 's12_second_backup': 'C16', 's13_template_object_type': 'C02', 's14_int_out_of_range': 'C20', 's15_user_back_with_privilege': 'C22 (missed until the check let users and databases go and come back before a restart)', 's16_renamed_export_privilege': 'C22', 's17_neighbour_twice': 'C12', 's18_one_repetition': 'C24', 's19_last_page': 'C26', 's20_part_of_the_privileges': 'C25', 's21_namesakes': 'C21 (missed until archives held namesakes in different directories)'}
NOTES = ["- The planner uses std::random_device for large candidate lists: a failing case is confirmed when at least 2 of 9 replays fail.",
"- Transactions: ordinary queries see what transactions committed only after a checkpoint or a restart (the documented operation); C13 checks them then. Ordinary updates while un-checkpointed versions exist are outside the domain. Strings of rolled-back transactions stay in the dictionary.",
"- Isolation levels: docs/API.md, ghttp.cpp and grpc.cpp number them 1 READ COMMITTED, 2 SNAPSHOT, 3 SERIALIZABLE, the enum had 1 and 3 exchanged (fixed). SERIALIZABLE locks by subject, predicate and object key, so a term absent from the database cannot be locked: C14-phantom records this.",
"- Defect found and not repaired: ORDER BY with an expression sorts by its first variable only, and with LIMIT it selects the Top-K plan (Query/topk), which crashes, throws or returns wrong rows for most patterns. It is too broken for a small repair, so Top-k by expression is outside C08 and no property claims it.",
"- SELECT (CONTAINS(...) AS ?z) and other builtins in SELECT expressions are refused with -101 (not supported, no wrong answer)."]
