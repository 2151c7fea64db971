import json
NOTE={
"C01":"Seeded search over editor sessions against the real language_server binary; every reply is compared with the set of texts that were in force between request and reply and with the verdict a fresh process gives for each of them (and with the verdict known by construction).",
"C02":"As C01 with damaged texts, odd URIs, malformed parameters, cancellations and failing files; after faults stop, everything outstanding must be answered within the step bound and a fresh document must be diagnosed correctly.",
"C03":"Seeded folders, directory orders, external file changes and I/O failures; a reply must be the verdict for a domain that the recorded file history allows.",
"C04":"The byte stream on standard output is parsed and paired with the requests under seeded chunking, short and interrupted writes, cancellation and concurrency.",
"C05":"Every modifying libc call is recorded and the scratch tree is compared with what the outside world wrote, for editor sessions and all commands, with and without faults.",
"C06":"One real process per run; output and status are compared with the verdict for exactly the bytes the simulated file system delivered.",
"C07":"As C06 for to_json with failing, short and interrupted writes and a crash after any write; the output file's content is compared with the complete JSON.",
"C08":"The same input in several fresh processes under different hash seeds must give byte-identical output.",
"C09":"Every file state an interrupted writer can leave (cut, zeroed or stale tail, flipped or replaced bytes, exchanged roles) is sampled; the process must end orderly with one message about lines and text that exist.",
"C10":"Library calls from several threads, preempted at seeded allocations, and in sequence, compared with the result of each call alone in a fresh process.",
"C11":"Sessions in which the client sends before initialize, shuts down, or disappears at any byte with work in flight; replies, exit and step bound are checked.",
"C12":"Sessions that repeat a seeded round of messages 10-14 times (an eighth of them 120-160 times); at rest after each round the process's descriptors, threads and allocation balance are taken from outside and must not grow round by round, steadily or in doubling leaps.",
"C13":"Operations below a path hang at a seeded point; when nothing else can run any more, every request that does not need them must have its reply.",
"C14":"Every open for reading, directory listing, socket and process creation is recorded and must be justified by the messages sent before or the command line.",
"C15":"Three executions per run: one under seeded faults and a kill at a seeded call, one on the files it left, one where it never ran; the last two must agree.",
"C16":"One real process per run whose writes to standard output and standard error are refused, shortened or interrupted at seeded points; delivered bytes and status are compared with the complete output.",
}
checks=[dict(property=p,quick_cmd=f"./check.sh {p}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",technique="deterministic simulation with fault injection (seeded search over schedules and faults)",level="exploration",
 level_note=n+" Sampled, not exhaustive: a pass means no violation in the reported runs. Trusts the preloaded simulation layer (/verif/shim), the sequential verdict of the library for a text, and that code between two intercepted calls runs atomically.") for p,n in NOTE.items()]
NA={"N01":"the set of accepted texts","N02":"type checking","N03":"undefined-entity checking","N04":"duplicate checking","N05":"cycle detection","N06":"error positions","N07":"the JSON image","N08":"recursion class, nullability and refinability"}
m=dict(version=1,setup_cmd="./build.sh",checks=checks,
 not_applicable=[dict(property=k,reason=f"{v[0].upper()+v[1:]}: a pure function of the input bytes of one call; no schedule, clock, I/O result, crash point or other party can change it, so simulation with fault injection has nothing to decide.") for k,v in NA.items()],
 notes="No hooks in /repo: the seams are the libc boundary of the unmodified binaries (LD_PRELOAD shim) and the public library API. Replay: target/debug/dst replay FILE. Determinism self-test: target/debug/dst selftest.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
