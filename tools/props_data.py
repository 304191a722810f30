SETUP = ["gsdrv", "ghttp", "ginit", "gbuild", "gquery", "gadd", "gsub", "gmonitor", "gshow", "gdrop", "gbackup", "grestore", "gexport", "gconsole"]
p("C01", "Loading N-Triples or Turtle stores exactly the triples of the document",
  "Building a database from a valid N-Triples or Turtle document, or adding the document to a database, stores exactly the triples it states: every name, text, language tag and datatype keeps its exact characters whatever escapes, prefixes, bases, abbreviations, white space or comments it is written with and whatever the document's length, anonymous nodes stay distinct, and nothing is lost, invented or stored twice. A query returns those terms unchanged.",
  ["inputs"], "every well-formed document in N-Triples or in the Turtle the loader documents (prefixes with ASCII local names, base, a, lists of objects and predicates, anonymous nodes, collections, number and boolean shorthand, double-quoted and long strings), with typed literals whose text fits their datatype",
  "The bundled data sets are plain ASCII N-Triples; nothing compares what was stored with what a document in any other notation said, and errors at escapes, number ends or buffer boundaries need particular bytes at particular places.",
  ["Parser/TurtleParser.cpp", "Parser/RDFParser.cpp", "Database/Database.cpp", "Query/ResultSet.cpp"],
  [("lexer and Turtle grammar", "Parser/TurtleParser.cpp"), ("typed literals", "Parser/RDFParser.cpp parseFile"), ("terms in results", "Query/ResultSet.cpp to_JSON")],
  ["Database::build", "Database::batch_insert"])
p("C02", "SPARQL updates change the stored triple set exactly as written",
  "After any sequence of INSERT DATA, DELETE DATA, DELETE WHERE and DELETE/INSERT WHERE updates, the stored triples are exactly the set obtained by applying the same updates to a mathematical set: nothing is lost, duplicated, resurrected or renamed, however names appear, disappear and reappear. An update that only inserts or only deletes reports the number of triples it really added or removed.",
  ["histories", "inputs"], "every initial database and every sequence of SPARQL updates over IRIs and literals of any kind, including absent and duplicate triples, self-loops, nodes used as predicates, and removal of everything",
  "The insert/delete tests apply a few fixed updates to fixed files; ID recycling, string index changes and value-list edits only go wrong for particular orders of additions and removals.",
  ["Database/Database.cpp", "KVstore/KVstore.cpp", "StringIndex/StringIndex.cpp", "Parser/QueryParser.cpp", "Query/GeneralEvaluation.cpp"],
  [("insertTriple/removeTriple and ID allocation", "Database/Database.cpp"), ("update templates", "Query/GeneralEvaluation.cpp prepareUpdateTriple"), ("six value indexes", "KVstore/KVstore.cpp")],
  ["Database::query"], [("free ID lists", "recycled entity, literal and predicate IDs", "Database/Database.h")])
p("C03", "Stored data survives save, close and reopening",
  "Whatever a database contained when it was saved or closed is exactly what it contains after being opened again, in the same process or another one, after any history of updates, saves and reopenings, and for databases of any size; a process that is killed after a save and before any further update loses nothing of what was saved.",
  ["histories", "inputs"], "every history of updates (SPARQL and file based), saves, closes and reopenings",
  "The tests build once and query; they do not alternate updates with reopening, so what is flushed late, cached, or freed and rewritten is never exercised.",
  ["Database/Database.cpp", "KVstore/KVstore.cpp", "KVstore/SITree", "KVstore/IVArray", "KVstore/ISArray", "StringIndex/StringIndex.cpp"],
  [("flush of the KV trees and arrays", "KVstore/KVstore.cpp flush"), ("database info and free-ID files", "Database/Database.cpp saveDBInfoFile/saveIDinfo"), ("string index file", "StringIndex/StringIndex.cpp")],
  ["Database::save, Database::~Database, Database::load"])
p("C04", "Every access path sees the same triples, after any update history",
  "After any history of updates and reopenings, each of the eight triple-pattern shapes (every subset of subject, predicate and object given) returns exactly the stored triples that match it, so no index disagrees with another or keeps removed triples.",
  ["histories", "inputs"], "every update history, and every pattern around stored, removed and never-stored triples",
  "The tests ask fixed queries on freshly built databases; the six indexes are updated separately and can diverge only after particular updates.",
  ["KVstore/KVstore.cpp", "KVstore/IVArray", "Database/Database.cpp", "Query/GeneralEvaluation.cpp", "Database/Executor.cpp"],
  [("subject, predicate and object value lists", "KVstore/KVstore.cpp updateTupleslist_*"), ("binary searches and offsets in the lists", "KVstore/KVstore.cpp get*idlistBy*")],
  ["Database::query"])
p("C05", "Basic graph patterns return exactly the solutions the triples entail",
  "For any database and any conjunction of triple patterns (variables and constants in any position, any join shape, disconnected patterns included), SELECT returns exactly the multiset of solutions that SPARQL's definition gives, projected on the selected variables; with DISTINCT it returns each row once.",
  ["inputs", "programs"], "every triple set and every basic graph pattern with any projection; a variable repeated inside one pattern is excluded (recorded as a known finding)",
  "The query tests run a fixed set of queries on fixed data; join order, satellite handling and candidate filtering depend on the data and on the query shape.",
  ["Query/GeneralEvaluation.cpp", "Database/PlanGenerator.cpp", "Database/PlanTree.cpp", "Database/Optimizer.cpp", "Database/Executor.cpp", "Query/BGPQuery.cpp"],
  [("join plan generation", "Database/PlanGenerator.cpp"), ("plan execution", "Database/Executor.cpp"), ("candidate lists", "Database/Optimizer.cpp")],
  ["Database::query"])
p("C06", "OPTIONAL, UNION, MINUS, FILTER, BIND and nesting follow the SPARQL algebra",
  "For any database and any group pattern combining triple patterns with OPTIONAL, UNION, MINUS, FILTER, BIND and nested groups, SELECT returns exactly the multiset of solutions of the SPARQL algebra: OPTIONAL never drops or invents solutions, UNION keeps the solutions of each side, MINUS removes exactly the compatible ones sharing a variable, a FILTER applies to the whole group it is written in, wherever it stands.",
  ["inputs", "programs"], "every triple set and every nesting of these operators; a FILTER inside an OPTIONAL over variables its own triples do not bind, and a variable repeated inside one pattern, are excluded (known findings)",
  "The tests run a few fixed queries; unbound variables, empty sides and operator orders change which evaluation strategy is chosen and which candidates are pushed down.",
  ["Query/GeneralEvaluation.cpp", "Query/TempResult.cpp", "Query/QueryTree.cpp", "Parser/QueryParser.cpp"],
  [("evaluation of the group operators", "Query/GeneralEvaluation.cpp queryEvaluation"), ("joins, optional, minus over partial results", "Query/TempResult.cpp"), ("rewriting of well-designed patterns", "Query/QueryTree.cpp")],
  ["Database::query"])
p("C07", "FILTER and BIND expressions evaluate as SPARQL defines, errors included",
  "For any solution, an expression in a FILTER or BIND has the value that SPARQL 1.1 defines: comparisons by value within a type, three-valued logic with errors and effective boolean values, arithmetic with type promotion and left associativity, IN and NOT IN over the whole list, and each documented function on IRIs, plain, tagged and typed literals and unbound variables. A FILTER keeps exactly the solutions for which it is true, a BIND leaves its variable unbound on an error, and no expression ends the process.",
  ["inputs", "programs"], "every expression over the supported operators and functions and every term; outcomes that SPARQL 1.1 leaves open or where gStore documents an extension (ordering of IRIs and tagged literals, equality across datatypes, dates minus dates, case of non-ASCII letters) are left out",
  "The tests evaluate a handful of filters on fixed data; operators and functions go wrong on particular types, on errors and at particular nesting.",
  ["Query/TempResult.cpp", "Util/EvalMultitypeValue.cpp", "Parser/QueryParser.cpp", "Query/RegexExpression.h"],
  [("expression evaluation", "Query/TempResult.cpp doComp"), ("typed values and operators", "Util/EvalMultitypeValue.cpp"), ("expression trees", "Parser/QueryParser.cpp buildCompTree")],
  ["Database::query"])
p("C08", "ORDER BY, DISTINCT, OFFSET and LIMIT return the right slice of the solutions",
  "For any database and query, ORDER BY arranges all solutions by its keys, ascending or descending, first key first (unbound before IRIs before literals, numbers and dates by value, strings by code point), DISTINCT keeps each projected row once, and OFFSET and LIMIT return exactly that slice of the arrangement, none missing and none too many, whatever the evaluation strategy.",
  ["inputs", "programs"], "every graph, pattern, list of sort variables, OFFSET and LIMIT; expressions in ORDER BY (documented as unsupported) and columns mixing literals of incomparable kinds are left out",
  "The tests sort a fixed result once; ties, mixed numeric types, several keys, LIMIT pushed into the join and DISTINCT over hidden sort columns only go wrong for particular data.",
  ["Query/GeneralEvaluation.cpp", "Util/Stream.cpp", "Query/ResultSet.cpp", "Database/Optimizer.cpp", "Query/TempResult.cpp"],
  [("sort order", "Util/Stream.cpp ResultCmp"), ("LIMIT in the join", "Database/Optimizer.cpp ExecutionDepthFirst"), ("duplicate elimination", "Query/TempResult.cpp doDistinct1"), ("slice written out", "Query/ResultSet.cpp")],
  ["Database::query"])
p("C09", "Aggregates and GROUP BY compute over exactly the solutions of each group",
  "For any database and query, GROUP BY makes one row per distinct combination of its variables (an unbound value is a combination of its own), and COUNT, COUNT(DISTINCT), SUM, AVG, MIN, MAX and GROUP_CONCAT, alone or several together, have the value SPARQL defines over the solutions of that group, duplicates included; without GROUP BY there is exactly one row, also when there are no solutions.",
  ["inputs", "programs"], "every graph, pattern, list of group variables and list of aggregates; gStore's documented handling of non-numbers in SUM, AVG, MIN and MAX (they are ignored) is left out",
  "The tests count and sum one fixed column; empty groups, unbound values, mixed numeric types, DISTINCT inside aggregates and several aggregates together only go wrong for particular data.",
  ["Query/GeneralEvaluation.cpp", "Query/TempResult.cpp", "Parser/QueryParser.cpp", "Util/EvalMultitypeValue.cpp"],
  [("grouping and aggregates", "Query/GeneralEvaluation.cpp getFinalResult"), ("aggregate parsing", "Parser/QueryParser.cpp parseSelectAggregateFunction")],
  ["Database::query"])
p("C10", "ASK and subqueries agree with the solutions of the pattern they hold",
  "For any database, ASK answers true exactly when its pattern has a solution, constant triples included; and a subquery contributes exactly its own solutions (its projection, DISTINCT, aggregates, ORDER BY with LIMIT and OFFSET applied), joined with the surrounding pattern on the variables it selects and on no others.",
  ["inputs", "programs"], "every triple set and pattern of C06 with subqueries before, after and inside its parts; slices of a subquery that depend on an unspecified order are left out",
  "No test uses a subquery together with variables of the same name outside, and ASK is only asked on fixed data.",
  ["Query/GeneralEvaluation.cpp", "Parser/QueryParser.cpp", "Query/QueryTree.cpp", "Query/ResultSet.cpp"],
  [("evaluation of subqueries", "Query/GeneralEvaluation.cpp queryEvaluation"), ("hiding of inner variables", "Query/QueryTree.h relabel"), ("ASK", "Query/GeneralEvaluation.cpp getFinalResult")],
  ["Database::query"])
p("C12", "Path functions give the answers of the graph they search",
  "For any database, the path functions (cycles, shortest paths and their number, reachability and paths within k steps, all simple paths, neighbours and counts by distance, closeness, clustering coefficient, triangles, connected components, label propagation) answer for the given nodes, direction, predicate set and step limit exactly what the graph formed by the entity-to-entity triples with these predicates determines: every reported path consists of existing triples and leads from the source to the destination, lengths, counts and truth values are right, unreachable pairs are absent or false, a variable argument stands for every node bound to it, and the value is a well-formed JSON object.",
  ["inputs"], "every graph, every path function listed (not PageRank, personalised PageRank, Louvain, k-plex, core-truss and user-defined functions), every argument; adjacency lists loaded before an update describe the graph at that time",
  "The tests run no path function that returns numbers, and sample each path function on one fixed graph; parallel edges, self-loops, unreachable pairs, several sources and graphs changed by updates go wrong independently.",
  ["Query/PathQueryHandler.cpp", "Query/GeneralEvaluation.cpp", "Database/CSR.cpp", "Parser/QueryParser.cpp"],
  [("graph algorithms", "Query/PathQueryHandler.cpp"), ("adjacency lists", "Query/GeneralEvaluation.cpp loadCSR"), ("arguments and result objects", "Query/GeneralEvaluation.cpp getFinalResult")],
  ["Database::query"])
p("C13", "A transaction takes effect as a whole or not at all, and sees its own writes",
  "For any sequence of SPARQL updates run in one transaction at any isolation level, reads in the transaction see the committed triples with the transaction's own changes so far; after a successful commit every one of its changes is seen by every later transaction, and by ordinary queries after a checkpoint or a restart; after a rollback, or when the database is closed while the transaction runs, none of them ever is.",
  ["inputs", "histories"], "every database and every sequence of transactions run one after another, with checkpoints, restarts and ordinary updates between them; ordinary updates while committed transactions await a checkpoint are left out",
  "The tests commit and roll back one fixed transaction; new terms, terms removed and inserted again, repeated changes of one triple and checkpoints after them go wrong only for particular histories.",
  ["Database/Txn_manager.cpp", "Database/Database.cpp", "KVstore/KVstore.cpp", "KVstore/IVArray/IVEntry.cpp", "Util/Version.cpp", "Util/Transaction.cpp"],
  [("begin, commit, rollback, checkpoint", "Database/Txn_manager.cpp"), ("private versions", "KVstore/IVArray/IVEntry.cpp"), ("updates in a transaction", "Database/Database.cpp insert, remove"), ("merging versions", "Database/Database.cpp VersionClean")],
  ["Txn_manager::Query", "Txn_manager::Commit", "Txn_manager::Rollback"])
p("C14", "Concurrent transactions see what their isolation level promises",
  "For any interleaving of transactions: no transaction ever sees another's uncommitted or rolled-back changes; READ COMMITTED (1) reads the triples committed at that moment, SNAPSHOT (2) those committed when it began, and overlapping SNAPSHOT transactions that change the same triple never both commit; the committed SERIALIZABLE (3) transactions are equivalent to some serial order of them. A conflict aborts a transaction only when another one overlaps it, and an aborted transaction leaves nothing behind.",
  ["schedules", "histories"], "every interleaving of the steps of 2 to 4 transactions of one database; SERIALIZABLE transactions over terms the database does not hold yet are excluded (known finding)",
  "The tests run transactions one at a time; stale versions, latches kept or lost, lost updates and write skew need particular interleavings.",
  ["KVstore/IVArray/IVEntry.cpp", "Util/GraphLock.cpp", "KVstore/KVstore.cpp", "Database/Txn_manager.cpp", "Util/Transaction.cpp", "Util/Version.cpp"],
  [("choice of the version read", "KVstore/IVArray/IVEntry.cpp ReadVersion"), ("latches", "Util/GraphLock.cpp"), ("write conflicts", "KVstore/IVArray/IVEntry.cpp GetExclusiveLatch"), ("release at the end", "KVstore/KVstore.cpp ReleaseAllLocks, TransactionInvalid")],
  ["Txn_manager::Begin", "Txn_manager::Query"])
p("C15", "Concurrent queries, updates and transactions take effect one at a time",
  "For any number of threads running SPARQL queries and updates on one database at once, the answers and the contents left are those of some sequential execution that respects the order in which operations ended and began; an operation is refused only while a conflicting one runs, and then has no effect. Transactions running in different threads keep the promises of their isolation level: a snapshot shows each commit wholly or not at all, serializable transactions are equivalent to a serial order, and nothing uncommitted is read. No interleaving ends the process.",
  ["schedules", "histories"], "every schedule of the threads; explored by running random histories of 2-5 threads on the operating system's scheduler with random delays and barriers",
  "No test runs two operations on one database at the same time; the shared buffers, ID limits, caches and version lists only go wrong in particular interleavings.",
  ["Database/Database.cpp", "Database/Txn_manager.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/SITree/SITree.cpp", "KVstore/KVstore.cpp", "Util/GraphLock.cpp"],
  [("read and write locks", "Database/Database.cpp query"), ("commit against begin", "Database/Txn_manager.cpp"), ("shared value caches", "KVstore/IVArray/IVArray.cpp search")],
  ["Database::query", "Txn_manager::Query"])
p("C16", "A restored backup is exactly the database at the time of the backup",
  "For any history, a backup of an open database contains every update that had returned before it was taken, saved or not, and none later; whenever the database's directory is replaced by that backup (what grestore, the console and the HTTP interface do), the database loads and holds exactly those triples, whatever happened to it in between, and taking the backup changes nothing in the database itself.",
  ["histories", "crash_points"], "every database, history of updates, saves, reopenings and backups, and choice of the backup to restore; the process may be killed before a restore",
  "No test backs up a database that has unsaved changes or restores one that went on changing.",
  ["Database/Database.cpp", "Main/gbackup.cpp", "Main/grestore.cpp", "Main/ghttp.cpp", "KVstore/KVstore.cpp"],
  [("taking a backup", "Database/Database.cpp backup"), ("restoring", "Main/grestore.cpp"), ("HTTP backup and restore", "Main/ghttp.cpp backup_thread_new, restore_thread_new")],
  ["Database::backup"])
p("C20", "Malformed input is skipped: it loses nothing else and ends nothing",
  "When a file with malformed statements or ill-typed literals is loaded, added or removed, every well-formed statement whose line holds no error takes effect, no malformed one does, each rejected statement is recorded as one line of parse_error.log (from which failed_num is computed), and the operation ends normally. A file damaged in any way never ends or hangs the process, loses no statement that precedes the damage, and leaves a database that answers consistently, can be reopened and takes further data.",
  ["inputs"], "every file: line-based statements malformed in any way that ends on the same line, and arbitrary byte damage to well-formed documents; files with bytes that are not part of any RDF text included",
  "The tests load well-formed files only; recovery after an error depends on exactly which token or byte the error was noticed at.",
  ["Parser/TurtleParser.cpp", "Parser/TurtleParser.h", "Parser/RDFParser.cpp", "Database/Database.cpp"],
  [("recovery after an error", "Parser/TurtleParser.h discardLine"), ("error log and typed literals", "Parser/RDFParser.cpp parseFile")],
  ["Database::build", "Database::batch_insert", "Database::batch_remove"])
p("C17", "An exported database is a document that rebuilds exactly the same triples",
  "For every database, the file gexport (export_db) writes is well-formed N-Triples (anonymous nodes written as IRIs named _:x) with one statement for every triple the database currently holds and no other, whatever characters its terms contain and whatever updates, saves and reopenings came before; a database built from that file holds exactly the same triples; exporting changes nothing.",
  ["inputs", "histories"], "every database whose terms are legal RDF terms without NUL characters, every history of updates before the export",
  "The tests export nothing; a fault needs particular characters in a term or an export after predicates were emptied or created.",
  ["Database/Database.cpp", "Util/Util.cpp", "Main/gexport.cpp", "KVstore/KVstore.cpp"],
  [("writing statements", "Database/Database.cpp export_db"), ("escaping", "Util/Util.cpp node2string"), ("reading them back", "Parser/TurtleParser.cpp")],
  ["Database::export_db", "Util::node2string"])
p("C19", "A request text is read as the grammar says or refused without any effect",
  "White space, comments, line ends and the case of keywords never change what a request means: the same tokens in any layout give the same answer or make the same change. A text outside the SPARQL grammar (cut off, unbalanced, with illegal, missing or additional tokens, undeclared prefixes or terms where none may stand) is refused with an error and changes nothing; no request text whatever ends or hangs the process, and no text other than an update changes the contents.",
  ["inputs"], "every request text: valid texts in any layout, texts with one grammatical fault, and arbitrary damage to either",
  "The tests send a few well-formed texts; every caller of the HTTP interface can send any other.",
  ["Parser/SPARQL/SPARQL.g4", "Parser/QueryParser.cpp", "Parser/SPARQL/SPARQLLexer.cpp", "Query/GeneralEvaluation.cpp", "Database/Database.cpp"],
  [("parsing and end of the text", "Parser/QueryParser.cpp SPARQLParse"), ("refusals of unsupported forms", "Parser/QueryParser.cpp"), ("checks before evaluation", "Query/GeneralEvaluation.cpp doQuery")],
  ["QueryParser::SPARQLParse", "Database::query"])
p("C22", "HTTP requests are obeyed only with the right password and privileges",
  "The HTTP server obeys a request only when user name and password (plain or MD5) are those of a user at that time and the user has, at that time, the privilege the operation needs on that database; every other request is refused with an error code and changes nothing: no database, user, privilege, backup, export or transaction. root may do everything; the system database is nobody's. Users, passwords and privileges are exactly those the accepted requests of the history lead to: a removed user, a changed password, a revoked privilege or a dropped database take effect with the answer, nothing else is affected, the lists shown are the same, and all survives restarts and kills of the server. Repeated failures lock an address out until a login succeeds.",
  ["inputs", "histories", "crash points"], "every history of requests by any users (created, removed, renamed and recreated names included), over GET and POST, with server restarts and kills anywhere in between",
  "There is no test of the server; authorisation is a function of the whole history of grants, revocations, drops, renames and restarts.",
  ["Main/ghttp.cpp", "GRPC/APIUtil.cpp", "Util/WebUrl.cpp", "Util/INIParser.cpp"],
  [("request checks", "Main/ghttp.cpp request_thread"), ("identity and privileges", "GRPC/APIUtil.cpp check_indentity, check_privilege, user_add, user_delete, update_user_privilege"), ("persistence", "GRPC/APIUtil.cpp refresh_sys_db, initialize")],
  ["HTTP POST /", "HTTP GET /", "/shutdown"])
p("C23", "The HTTP server answers every request and does what its answers say",
  "Whatever clients send, in any order and at once, the HTTP server stays up and answers every request for an operation with one JSON object with a StatusCode. What was answered with success has happened completely and lasts (also over a restart), what was answered with an error has changed nothing; a request that lacks or mistypes something it needs is refused. Databases built, loaded, updated, renamed, dropped, restored and exported through it hold exactly what the accepted requests lead to; of clients that want the same thing at the same time (add a user, build, drop, rename, unload, commit) exactly one succeeds, and clients on different databases do not affect each other. Every result format and compression returns the same rows, an uploaded file is downloaded as the same bytes, only the upload directory can be downloaded from, and the allow and deny lists of addresses hold.",
  ["inputs", "histories", "schedules"], "every sequence of requests, well-formed or not, by up to six concurrent clients, for all operations but user-defined functions",
  "There is no test of the server; faults need malformed or concurrent requests, particular names or a particular order.",
  ["Main/ghttp.cpp", "GRPC/APIUtil.cpp", "Util/WebUrl.cpp", "Server/MultipartParser.hpp", "Util/IPBlackList.cpp", "Util/IPWhiteList.cpp"],
  [("request handling", "Main/ghttp.cpp request_thread, *_thread_new"), ("state of databases", "GRPC/APIUtil.cpp add_already_build, delete_from_already_build, insert_txn_managers"), ("files", "Main/ghttp.cpp upload_handler, download_handler")],
  ["HTTP POST /", "HTTP GET /", "/file/upload", "/file/download"])
p("C24", "The figures reported for a database are those of its triples",
  "For any history of builds (with statements repeated in the document), SPARQL updates, file insertions and removals, saves, restarts and transactions followed by a checkpoint, the figures reported for a database (monitor request, gmonitor, show) are those of its current triples: the number of distinct triples, of subjects, of predicates, of IRI nodes and of literals, and for each class the number of its instances.",
  ["inputs", "histories"], "every database and history; the number of predicates, IRI nodes and literals is not promised after a transaction that was rolled back, and an instance is a triple with an IRI object whose predicate names a type (its text contains type, TYPE or the Chinese word for it)",
  "The tests look at no figure after an update; counters go wrong only for particular histories: nodes known in another position, repeated changes, last uses, reopening between changes, transactions.",
  ["Database/Database.cpp", "Database/Txn_manager.cpp", "Main/gmonitor.cpp", "Main/ghttp.cpp"],
  [("counters kept by updates", "Database/Database.cpp"), ("class counts", "Database/Database.cpp, the statistics file"), ("after commits", "Database/Database.cpp VersionClean")],
  ["Database::getTripleNum", "Database::getStatisticsInfo"])
p("C21", "The command line tools act on the database they name, and on no other",
  "For any sequence of runs of the command line tools ginit, gbuild, gadd, gsub, gquery, gshow, gmonitor, gexport, gbackup, grestore and gdrop, with any database names, files and archives (with directories, with several files, with bad statements) and any order of options: a run that reports success has done all it says to the database it names, and no other database, backup or file has changed; a run that cannot be carried out (missing or existing database, missing file or option, an illegal name, the system database) says so and changes nothing; gquery, gshow, gmonitor and gexport print and write what the databases hold, whatever runs came before.",
  ["inputs", "histories"], "every sequence of runs of these tools, valid or not, on a few databases at a time; archives cannot write outside the directory they are unpacked in",
  "The tests run a few of the tools on fixed files with one database; a run that does too much or too little shows on another database, another name or a later run.",
  ["Main/gbuild.cpp", "Main/gadd.cpp", "Main/gsub.cpp", "Main/gquery.cpp", "Main/gshow.cpp", "Main/gmonitor.cpp", "Main/gexport.cpp", "Main/gbackup.cpp", "Main/grestore.cpp", "Main/gdrop.cpp", "Main/ginit.cpp", "Util/CompressFileUtil.cpp"],
  [("the tools", "Main/g*.cpp main"), ("archives", "Util/CompressFileUtil.cpp FileHelper, UnCompressZip"), ("record of databases", "the system database, written by each tool")],
  ["bin/gbuild", "bin/gadd", "bin/gsub", "bin/gquery", "bin/gshow", "bin/gmonitor", "bin/gexport", "bin/gbackup", "bin/grestore", "bin/gdrop"])
p("C25", "A console session does what its user may do, and only that",
  "A session of gconsole starts only with the right password of a user, and each command of it is carried out exactly when the user has, at that time, the privilege it needs on the database it is about (root all; an update needs the update privilege); otherwise it is refused with a message and changes nothing. A command that is carried out does all it says: databases created, changed, backed up, restored, exported and dropped, users and passwords and privileges set, and answers (on the terminal or redirected to a file) hold what the session's history leads to, for commands on any number of lines and with ; and # inside their terms. What the sessions did lasts, and is the same for the other tools.",
  ["inputs", "histories"], "every sequence of console sessions of any users, one at a time, with any commands and answers to prompts, the end of the input included",
  "There is no test of the console; its behaviour depends on the user, the history and the text typed.",
  ["Main/gconsole.cpp"],
  [("login and privileges", "Main/gconsole.cpp login, check_priv, get_priv"), ("commands", "Main/gconsole.cpp *_handler"), ("reading of commands", "Main/gconsole.cpp gconsole_bind_*, parse_and_exec_query")],
  ["bin/gconsole"])
p("C26", "The server's logs record every request, query and transaction",
  "The access log of the HTTP server gains exactly one entry, with address, operation, status code and message, for each request answered otherwise than by a query's result; the query log gains one, with address, text, database, number of answers and format, for each query answered with a result; the transaction log gains one for each transaction begun, with user and database, whose state becomes committed, rolled back or aborted with the answer that says so. Whatever the texts hold (quotes, line ends, very long ones) and however many requests come at once, no entry is lost, doubled, torn or changed; every page of the logs read through the server is that slice of the entries, newest first, with the right total, and a page beyond the end is refused. The logs survive stops and kills of the server.",
  ["inputs", "histories", "schedules", "crash points"], "every history of requests, by several clients at once, stops and kills, within one day's log",
  "There is no test of the logs; loss and damage need concurrent requests, odd texts, long lines or page sizes at a boundary.",
  ["Main/ghttp.cpp", "GRPC/APIUtil.cpp"],
  [("writing entries", "GRPC/APIUtil.cpp write_access_log, write_query_log"), ("transaction log", "GRPC/APIUtil.cpp add_transactionlog, update_transactionlog"), ("pages", "GRPC/APIUtil.cpp get_access_log, get_query_log, get_transactionlog")],
  ["accesslog, querylog and txnlog requests", "logs/ipAccess, logs/endpoint"])
