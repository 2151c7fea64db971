import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,where=files[0])],observe_at=[observe],hook_needed=hook)))
RH="src/language_server/request_handler.rs"; DU="src/language_server/diagnostic_utils.rs"
p("C01","Diagnostics answer for the newest synced text of the requested document",
 "Every textDocument/diagnostic request on a synced URI is answered with a report for a text of that URI which the client synced no earlier than the newest open, change (the last of its content changes) or save (its text, or else the saved file's content; a file that cannot be read changes nothing) before the request, never for an older text or another document's. The items are exactly the verdict the command line gives for that text: none if accepted, otherwise the error's message on the zero-based line it names (where it names one) with severity ERROR (a duplicate requirement is only informational). Documents without an HDDL header get no items, a problem whose folder's domain is itself faulty gets the domain's error plus the problem's own syntax error if any, and a URI never synced gets an error reply.",
 ["schedules","histories","fault_sequences"],"every interleaving of concurrently running handlers, file reads and reply writes, for every history of open/change/save/diagnostic/cancel messages over several documents, with and without failing reads",
 "The repository has no language-server test at all, and a test would pin one interleaving: the handlers run four at a time and suspend at file reads, the document lock and client log messages, so stale or crossed texts only appear for particular orders.",
 [RH,DU,"src/lib.rs"],[("document store","RequestHandler.documents / sync in "+RH),("did_open/did_change/did_save/diagnostic handlers",RH),("error to diagnostic mapping","diagnose_domain, diagnose_problem, From<ParsingError> for Diagnostic in "+DU)],
 "the URI to text map behind the RwLock","the JSON-RPC byte stream the server writes")
p("C02","The language server survives every history and keeps answering",
 "No sequence of well-formed JSON-RPC messages, document text (complete, half-typed, truncated, byte-damaged or deeply nested), unusual document URI, request cancellation or failing, slow or vanishing file makes the server panic, abort or exit while its input is open. Once faults stop and pending file operations are released, every outstanding request is answered within a bounded number of scheduler steps and a fresh open + diagnostic round trip gives the correct answer.",
 ["histories","inputs","fault_sequences","schedules"],"every message history, document text, cancellation point, file-system fault and interleaving of the above",
 "Crash and wedge conditions need a particular text, URI or file-system fault at a particular await point; a single panic in any handler takes the whole server (and the editor session) down.",
 [RH,DU,"src/lexical_analyzer/tokenizer.rs","src/syntactic_analyzer","src/semantic_analyzer"],[("handlers",RH),("tokenizer end-of-input handling","src/lexical_analyzer/tokenizer.rs"),("recursive descent parser","src/syntactic_analyzer"),("diagnostic conversion",DU)],
 "server task liveness","panics of the serve task, the reply stream, step counts")
p("C03","A problem document is checked against the domain in its folder",
 "The diagnostics of a problem document are those of the problem verified against a domain definition stored in a .hddl or .pddl file directly in the document's folder (with several domains, always the same one for the same folder content), independent of directory enumeration order, of which other entries exist and of the file's percent-encoded name. An entry that vanished, cannot be read or is a directory is skipped and cannot hide a readable domain; only when no domain can be read is the problem checked on its own, and the report never mixes in content that was not read from such a file.",
 ["configurations","schedules","fault_sequences"],"every directory content and enumeration order, every interleaving of directory scan and file reads with external file changes, and every pattern of open/read/readdir failures",
 "Directory order, races between readdir and open, and read failures are outside a unit test's control; tests exercise no folder scan.",
 [RH,DU],[("folder scan","diagnostic, FileVariant::Problem branch in "+RH),("classify_file",DU),("diagnose_problem",DU)],
 "the folder on disk","the diagnostic reply compared with the domain bytes delivered by the simulated disk")
p("C04","Every request gets exactly one well-formed reply with its own id",
 "On standard output the server writes nothing but correctly framed JSON-RPC messages; every request, cancelled or not, receives exactly one response (a result or an error) carrying its id, notifications receive none, and messages of different requests are never interleaved or truncated. This holds for every chunking of the input, every amount of backpressure on the output and every concurrency of requests.",
 ["schedules","histories"],"every input chunking, output backpressure pattern, cancellation point and interleaving of concurrent requests",
 "Framing and reply pairing break only under particular chunkings, back-pressure and concurrency; stray prints to stdout appear only on rare paths.",
 [RH,"src/bin/language_server/main.rs"],[("LanguageServer implementation",RH),("transport wiring","src/bin/language_server/main.rs")],
 "in-flight requests","output byte stream (and raw writes to file descriptor 1)")
p("C05","Analysis never modifies the file system",
 "The language server, `verify` and `metadata` never create, truncate, write, rename, delete or change the permissions of any file, whatever the input, history or fault; `to_json` touches nothing except the file named by -o.",
 ["histories","fault_sequences","inputs"],"every message history, command line and input file, with and without injected I/O faults",
 "Error paths that write (lock, cache or temp files) run only under faults and unusual inputs; tests do not look at the file system at all.",
 [RH,"src/bin/hddl_analyzer/main.rs","src/lib.rs"],[("server file access",RH),("CLI commands","src/bin/hddl_analyzer/main.rs")],
 "the file system","intercepted system-call layer plus before/after snapshots of the scratch tree")
p("C06","The CLI's verdict is that of the bytes it read, under any I/O fault",
 "`verify`, `metadata` and `to_json` print the result for exactly the bytes the file system delivered: short reads, interrupted calls and concurrent modification change nothing else. If opening or reading the domain or problem file fails, at any point, the command prints an [Error] line on standard error and never [Ok], warnings, metadata or JSON; an error verdict is never accompanied by [Ok].",
 ["fault_sequences","schedules"],"every pattern of short reads, EINTR, open/read/stat failures at every operation and every point at which another process rewrites, truncates or replaces the input",
 "Tests call the library with complete byte vectors; nothing exercises the binary or a failing or changing file.",
 ["src/bin/hddl_analyzer/main.rs","src/lib.rs"],[("command dispatch and error printing","main in src/bin/hddl_analyzer/main.rs")],
 "input files","stdout, stderr and exit status of the real binary")
p("C07","to_json -o claims success only for a complete file and spares it on failure",
 "`to_json -o FILE` reports success only if, when it exits, FILE contains exactly the complete JSON of the inputs it read; a full disk, I/O error, short or interrupted write is either overcome or reported as [Error] without a success line. If reading or parsing the inputs fails, an existing FILE is left byte for byte untouched and none is created.",
 ["fault_sequences","crash_points"],"every failing, short or interrupted open/write of the output and every read or parse failure of the inputs",
 "Needs a write to fail or be cut short at a particular byte; no test runs the command.",
 ["src/bin/hddl_analyzer/main.rs","src/lib.rs"],[("Commands::Serialize","src/bin/hddl_analyzer/main.rs")],
 "the output file","stdout/stderr of the real binary and the output file's content afterwards")
p("C08","Output is the same in every run: no dependence on hash seeds",
 "For the same input bytes, `verify`, `metadata` and `to_json` produce byte-identical output (verdict, warnings and their order, nullable tasks, reported cycle, JSON key order) and the language server the same diagnostics, in every process and thread, whatever the randomly seeded hash iteration order.",
 ["schedules","inputs"],"every hash seed (every iteration order of the standard hash containers) for every input",
 "A test run samples one random hash seed per thread; order dependent results pass most of the time and fail elsewhere.",
 ["src/semantic_analyzer/tdg.rs","src/semantic_analyzer/analyzers/domain_analyzer.rs","src/lib.rs"],[("nullability fixpoint and recursion search","TDG in src/semantic_analyzer/tdg.rs"),("refinement warnings","verify_domain in src/semantic_analyzer/analyzers/domain_analyzer.rs"),("JSON root","to_json in src/lib.rs")],
 "hash container iteration order","results of the public API and binary under a seeded getrandom")
p("C09","Damaged or half-written input files get an orderly verdict",
 "When an input file is delivered torn (cut at any byte, with a zeroed tail, stale tail, flipped bytes or in the wrong role), `verify` and `to_json` terminate promptly with either a result or a single [Error] message, any line of which lies within the file, and never panic, hang, exhaust memory or quote text that was not there; `metadata` does so for torn, damaged and small intact domains alike. A domain cut anywhere before its final closing parenthesis is never accepted.",
 ["crash_points","inputs"],"every truncation point, damaged byte and stale tail of every input file, i.e. every state an interrupted or concurrent writer can leave",
 "The crash points are every byte position of every file; tests contain only complete files.",
 ["src/lexical_analyzer/tokenizer.rs","src/syntactic_analyzer","src/semantic_analyzer","src/lib.rs"],[("tokenizer","src/lexical_analyzer/tokenizer.rs"),("parser","src/syntactic_analyzer"),("role check of the two inputs","verify/get_metadata/to_json in src/lib.rs")],
 "the input bytes","stdout, stderr, exit status, time and memory of the real binary and library")
p("C10","Concurrent and earlier analyses do not influence a result",
 "Calls of verify, get_metadata and to_json made concurrently from several threads, or one after another in one process, on the same or different inputs, each return exactly what the call returns alone in a fresh process, also after earlier calls failed or panicked.",
 ["schedules","histories"],"every interleaving of concurrent calls and every history of earlier calls",
 "Shared mutable state or caching would show only for particular histories and interleavings; the test runner's threads are uncontrolled and inputs rarely collide.",
 ["src/lib.rs","src/lexical_analyzer/tokenizer.rs","src/semantic_analyzer"],[("public API","HDDLAnalyzer in src/lib.rs"),("per-call tokenizer/parser state","LexicalAnalyzer cells in src/lexical_analyzer/tokenizer.rs")],
 "any process-wide state","return values of the public API under a controlled thread scheduler")
p("C11","The server follows the session lifecycle and ends when its client goes away",
 "Before `initialize` and after `shutdown`, requests are answered with an error and never with diagnostics; `initialize` advertises full-text document sync and pull diagnostics; when the client's stream ends, at any byte, with any requests in flight and any state of the file system, the server finishes the work in flight, stops within a bounded number of steps once pending file operations complete, and its process exits, also if the client no longer reads the replies.",
 ["schedules","crash_points","histories"],"every point at which the client disappears, shuts down or exits, relative to every interleaving of in-flight requests",
 "Needs the peer to disappear at a particular byte with particular work in flight; no test starts the server.",
 [RH,"src/bin/language_server/main.rs"],[("initialize/shutdown",RH),("serve loop","src/bin/language_server/main.rs")],
 "session state","reply stream, completion of the serve future and of the real process")
p("C12","A long editor session accumulates nothing",
 "Whenever the language server is at rest (every request answered, nothing left to do), it holds no file or folder of the user open, and the threads and memory it uses depend on the texts of the documents it knows, not on how many messages, diagnostics, cancellations, failed reads or disk changes came before: repeating the same round of messages with the same documents any number of times does not make it grow round by round.",
 ["histories","fault_sequences","schedules"],"every number of repetitions of every round of messages, with failing files, cancellations and external changes at any point",
 "Leaks show only over many repetitions and usually only on failure and cancellation paths; no test starts the server, let alone for long.",
 [RH,"src/lib.rs"],[("handlers and document store",RH)],
 "open descriptors, threads and heap of the real process at rest","the process under the simulator: descriptor table, thread table, allocation balance")
p("C13","A hanging file holds up only the requests that need it",
 "While operations on some file or folder hang (a dead network mount, say) and up to three diagnostic requests wait for it, every other request that is not preceded by a further document notification is answered: diagnostics of domain documents and of problems in other folders, of documents that were never synced, unknown methods, and the waiting requests themselves once they are cancelled. When the operations complete, the waiting requests are answered correctly as well.",
 ["schedules","fault_sequences"],"every file operation at which a request can hang, every set and order of other requests arriving meanwhile, every number of worker threads",
 "Needs a file operation that does not return while other requests arrive; blocking calls on the runtime's threads look the same on a fast local disk.",
 [RH,"src/bin/language_server/main.rs"],[("asynchronous file access","diagnostic in "+RH),("document lock held while reading","RequestHandler.documents in "+RH)],
 "requests in flight","reply stream of the real server at the moment nothing but the hanging operation is left")
p("C14","The tools look only at what they were asked about",
 "The language server opens no file and lists no folder except the file of a saved document (didSave without text) and the folder, with the files directly in it, of a document whose diagnostics were requested; documents that are not file: URIs lead to no file access at all. The command line tool opens only the files named in its arguments. Parent folders, subfolders, other documents' folders and the rest of the system are never read, no program is started and no network connection is made, whatever the history, URI, input or fault.",
 ["histories","fault_sequences","inputs"],"every message history, URI, command line, folder content and I/O failure",
 "Fallbacks (search the parent folder, follow a configured path) run only when something is missing or fails, and nothing in the tests observes which files are opened.",
 [RH,"src/bin/hddl_analyzer/main.rs"],[("folder scan","diagnostic in "+RH),("reading a saved file","did_save in "+RH),("command line arguments","src/bin/hddl_analyzer/cli_args.rs")],
 "the file system","intercepted open, opendir, socket and process creation calls of the real process")
p("C15","A command that failed or was killed does not affect the next one",
 "After `verify`, `metadata` or `to_json` failed or was killed at any point, under any I/O faults, running the command again on the same inputs prints exactly what it prints where the first execution never happened, and a successful `to_json -o` then leaves exactly the complete JSON, whatever the first one left in the output file.",
 ["crash_points","fault_sequences"],"every point at which the first execution can be killed, every fault sequence before it, and every previous content of the output file",
 "The crash points are every system call of the first execution; tests never run the command twice, or at all.",
 ["src/bin/hddl_analyzer/main.rs","src/lib.rs"],[("Commands::Serialize","src/bin/hddl_analyzer/main.rs")],
 "the output file","stdout, stderr, status and output file of the second execution")
p("C16","A result that cannot be printed is not passed off as printed",
 "If standard output or standard error refuses data while `verify`, `metadata` or `to_json` prints (full disk, I/O error, closed pipe, at any write and after any short or interrupted ones), what was delivered is a beginning of the output the inputs give. Unless everything was delivered, the process ends with a failing status or says so on standard error: it never ends quietly as if it had printed everything.",
 ["fault_sequences","inputs"],"every sequence of refused, short and interrupted writes of standard output and standard error",
 "Needs an output that fails at a particular write; tests call the library and never print.",
 ["src/bin/hddl_analyzer/main.rs"],[("printing of results","src/bin/hddl_analyzer/main.rs")],
 "none","bytes accepted on stdout and stderr, exit status of the real binary")
# not applicable
def n(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"every domain and problem text","the input space is unbounded; unit tests sample a few texts",files,mech,"none (pure function of the input)","return value of HDDLAnalyzer::verify / get_metadata / to_json")
n("N01","Accepted texts are exactly the HDDL language","A text is accepted by the syntactic analysis if and only if it is derivable in the supported HDDL grammar.",["src/syntactic_analyzer","src/lexical_analyzer"],[("parser","src/syntactic_analyzer")])
n("N02","Type checking is sound and complete","verify reports a type or arity inconsistency if and only if some predicate or task use does not match its declaration under the declared type hierarchy.",["src/semantic_analyzer/type_checker"],[("type checkers","src/semantic_analyzer/type_checker")])
n("N03","Undefined entities are always reported","Every use of an undeclared predicate, type, object, parameter, task or subtask is reported, and declared ones never are.",["src/semantic_analyzer"],[("undefined checks","src/semantic_analyzer/undefined_elements.rs")])
n("N04","Duplicate definitions are always reported","Two definitions of the same requirement, predicate, action, compound task, method, parameter or object in one model are reported with both positions.",["src/semantic_analyzer/analyzers"],[("duplicate checks","src/semantic_analyzer/analyzers/domain_analyzer.rs")])
n("N05","Cyclic type and ordering declarations are detected","verify reports a cyclic type hierarchy or subtask ordering if and only if the declared relation is cyclic.",["src/semantic_analyzer/type_checker/generic_type_checker.rs","src/syntactic_analyzer/syntax_tree/nodes/htn.rs"],[("toposort","src/semantic_analyzer/type_checker/generic_type_checker.rs")])
n("N06","Errors are located at the offending line","The line named by an error is the line of the offending token.",["src/lexical_analyzer/tokenizer.rs"],[("token positions","src/lexical_analyzer/tokenizer.rs")])
n("N07","The JSON output is a faithful image of the parsed model","to_json contains every element of the parsed domain and problem exactly once, in source order, and nothing else.",["src/syntactic_analyzer/syntax_tree","src/lib.rs"],[("serde serialisation","src/syntactic_analyzer/syntax_tree")])
n("N08","Hierarchy class, nullability and refinability are correct","The reported recursion class, nullable tasks and missing-refinement warnings agree with their definitions on the task decomposition graph.",["src/semantic_analyzer/tdg.rs"],[("TDG","src/semantic_analyzer/tdg.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
