"""The property texts."""

TEXTS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, forall, why, files, mech, technique, note, **kw):
    TEXTS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                      technique=technique, note=note, **kw))


LS = "crates/sync-lsp/src"
WEAK = "The verdict covers the executions that were observed; "

P("C01", "Every protocol message survives framing and re-reading unchanged",
  "Any sequence of well-formed language-server or debug-adaptor messages written to a byte stream is a strictly well-formed framed stream, and reading it back (however the bytes are split into chunks, and also when another client chose the header order, header case, extra headers or JSON escapes) yields exactly the same messages in the same order and then a clean end. A successful response always carries its result member, even when the result is null. Once writing a message succeeds, all of it has been handed on and flushed; a destination that fails is reported.",
  ["inputs", "schedules"], "all message sequences, payloads, Unicode content, sizes and read chunkings",
  "the tests (de)serialize a handful of single messages and never frame, chunk or concatenate them",
  [f"{LS}/msg.rs", f"{LS}/lsp.rs", f"{LS}/dap.rs"],
  [("header parsing and exact-length body read", f"{LS}/msg.rs read_msg_text"), ("length-prefixed write and flush", f"{LS}/msg.rs write_msg_text"), ("untagged message enums", f"{LS}/lsp.rs Message, {LS}/dap.rs Message")],
  "runtime monitor: round-trip oracle with an independent strict frame parser",
  WEAK + "trusts serde_json and the harness's own frame parser.")

P("C02", "Hostile or truncated input bytes are contained",
  "For any byte stream, reading messages yields precisely the complete well-formed messages that precede the first malformed or truncated one and then an error or end of input: no message is altered, lost or invented. A source that fails makes reading fail, after the messages that came whole before. Reading never panics or loops forever, and never reserves memory out of proportion to the bytes that actually arrived, whatever length a header declares.",
  ["inputs", "fault_sequences"], "all byte streams: truncations, corruptions, absurd lengths, bad headers, bad UTF-8, nesting",
  "no test feeds malformed bytes; the space is unbounded and the failures are panics and aborts on specific bytes",
  [f"{LS}/msg.rs", f"{LS}/lsp.rs", f"{LS}/dap.rs"],
  [("header and length validation", f"{LS}/msg.rs read_msg_text"), ("payload validation", f"{LS}/lsp.rs Message::_read, {LS}/dap.rs Message::_read")],
  "runtime monitor: mutation workload, reference parser oracle, panic hook, address-space limit",
  WEAK + "inputs that the protocol leaves open (duplicate or padded lengths, odd ids) are only checked for panics and termination.")

P("C03", "Every language-server request gets exactly one matching response",
  "In every session, each request the client sends is answered by exactly one response bearing that request's id and that request's own outcome, whether its handler completes immediately, fails early, runs asynchronously, responds by itself, responds more than once, or races with another responder. No response is ever sent for a request the client did not make.",
  ["histories", "schedules"], "all request sequences, handler kinds and completion orders, over all interleavings of asynchronous completions",
  "no test runs the server loop; duplicates and losses depend on the order in which concurrent handlers complete",
  [f"{LS}/server.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/req_queue.rs", f"{LS}/transport.rs"],
  [("pending-request table completed at most once", f"{LS}/server.rs LspClient::respond, {LS}/req_queue.rs Incoming"), ("tail scheduling of rejected requests", f"{LS}/server.rs schedule, schedule_tail")],
  "runtime monitor: exactly-once checker over recorded client histories of real sessions",
  WEAK + "handlers are instrumented ones of the harness; a missing response counts only when a rerun with a longer limit misses it again.",
  observe=["client side of the byte stream"])

P("C04", "The language-server lifecycle gates every message",
  "Before initialization succeeds and until the client confirms it, every other request is refused with the not-initialized error and notifications have no effect; a rejected initialize leaves the server able to be initialized later, and initializing twice is refused. After shutdown every request is refused with the invalid-request error and notifications have no effect, whatever the client sends, and nothing can bring the server back to service.",
  ["histories", "inputs"], "all message sequences around initialize, initialized, shutdown and exit",
  "no test drives the lifecycle state machine",
  [f"{LS}/server/lsp_srv.rs", f"{LS}/server.rs"],
  [("state machine", f"{LS}/server.rs State"), ("dispatch by state", f"{LS}/server/lsp_srv.rs on_lsp_request, on_notification")],
  "runtime monitor: reference lifecycle automaton over recorded sessions and handler logs",
  WEAK + "error codes are those of the protocol; where the protocol leaves the choice open, either code is accepted.")

P("C05", "Every debug-adaptor request gets exactly one matching response",
  "In every debug-adaptor session each request is answered by exactly one response carrying its sequence number and its own outcome, requests before initialization and after disconnecting are refused, and events in those phases have no effect. Handlers of all kinds (immediate, asynchronous, self-responding, racing) are covered alike.",
  ["histories", "schedules"], "all debug-adaptor sessions and completion orders",
  "no test runs the debug-adaptor loop",
  [f"{LS}/server/dap_srv.rs", f"{LS}/server.rs", f"{LS}/dap.rs"],
  [("dispatch by state", f"{LS}/server/dap_srv.rs on_request, on_event"), ("pending-request table", f"{LS}/server.rs LspClient::respond")],
  "runtime monitor: exactly-once and lifecycle checker over recorded debug-adaptor sessions",
  WEAK + "only the success flag and the handler's own message are compared for failures.")

P("C06", "Server-to-client requests are correlated with their own responses",
  "Requests that the server sends carry pairwise distinct ids, even when sent from many threads at once, and the continuation of each runs exactly once, with precisely the client's response to that request, when that response arrives, also if that continuation sends further requests. Responses with unknown, already answered or differently typed ids run no continuation and disturb nothing.",
  ["histories", "schedules"], "all interleavings of sends and all orders, duplications and omissions of responses",
  "no test sends a server-to-client request",
  [f"{LS}/server.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/req_queue.rs"],
  [("id allocation under the queue lock", f"{LS}/req_queue.rs Outgoing"), ("completion removes the continuation", f"{LS}/server.rs complete_lsp_request")],
  "runtime monitor: correlation checker over recorded sessions with adversarial response orders",
  WEAK + "continuations are instrumented ones of the harness.")

P("C07", "Messages are handled one at a time in arrival order",
  "Handlers run one at a time, in exactly the order in which the client's messages arrived, each exactly once, no matter how messages are batched or how much asynchronous work is outstanding; a handler always sees the effects of every earlier message.",
  ["schedules", "histories"], "all message batches and interleavings with asynchronous completions",
  "ordering bugs need pipelined traffic with outstanding work, which no test produces",
  [f"{LS}/server.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/server/dap_srv.rs", f"{LS}/transport.rs"],
  [("single dispatch loop", f"{LS}/server/lsp_srv.rs start_"), ("rendezvous channel from the reader", f"{LS}/transport.rs io_transport")],
  "runtime monitor: order and overlap checker over the handler event log",
  WEAK + "overlap is detected by an atomic flag around every handler.")

P("C08", "Internal events are delivered exactly once and in order",
  "While the server is in service each internal event sent to it is delivered to the handler registered for its type exactly once, and events of one sender are handled in the order they were sent, before and after initialization and interleaved with client traffic. Events without a handler, or arriving after shutdown, are ignored without disturbing the session, and a failing event handler ends the loop with that error.",
  ["schedules", "histories"], "all interleavings of event senders with client traffic",
  "no test sends events; loss and reordering depend on the schedule",
  [f"{LS}/server.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/server/dap_srv.rs"],
  [("event channel and typed dispatch", f"{LS}/server.rs send_event, with_event; {LS}/server/lsp_srv.rs start_")],
  "runtime monitor: exactly-once and per-sender FIFO checker over event logs under concurrent senders",
  WEAK + "events still queued when the session ends are not claimed.")

P("C14", "What the server tells of its own accord arrives once, whole and in order",
  "Every notification or debug event that the server side sends through its client handle while the client is connected reaches the client exactly once and with exactly the contents given, those sent by one thread in the order of sending, and those sent by a handler before that handler's response. Concurrent senders never share a typed event's sequence number. Nothing is delivered that was not sent, and sending after the session has ended is harmless.",
  ["schedules", "histories", "inputs"], "all interleavings of sending threads and handlers with client traffic, before, during and after the session",
  "no test sends a notification; loss, duplication and reordering depend on the schedule",
  [f"{LS}/lib.rs", f"{LS}/server.rs", f"{LS}/transport.rs"],
  [("sending by the client handle", f"{LS}/server.rs send_notification_, send_dap_event_, send_dap_event"), ("writer thread", f"{LS}/transport.rs io_transport")],
  "runtime monitor: per-sender exactly-once, order and content checker over the output of the server under concurrent senders",
  WEAK + "untyped events carry the number that the caller chose.")

P("C15", "Requests are booked, answered and cancelled once, under their own ids",
  "The tables of pending requests behave as maps over ids in which 7 and \"7\" are different: what is registered is pending until it is completed or cancelled, which yields its own data, or the error code for a cancelled request, exactly once, and yields nothing for anything else; ids allotted to outgoing requests never repeat. However many threads race to answer a registered request through the client handle, one of their answers, unaltered, is sent, and none for an id that is not registered; a result that cannot be expressed becomes an internal error. Continuations may use the client themselves. Using a handle whose session is over, in any way, neither fails nor blocks. Typed extraction of a request or notification yields its id and parameters, gives the message back untouched if its method is another, and reports unfit parameters; errors carry the numbers that JSON-RPC and the protocol assign to them. A driver becomes ready once, and serves its resources only then.",
  ["histories", "schedules", "inputs"], "all histories of the request tables, all ids and parameters, all interleavings of answering threads",
  "the tests cover neither the tables nor the handle",
  [f"{LS}/req_queue.rs", f"{LS}/msg.rs", f"{LS}/lsp.rs", f"{LS}/error.rs", f"{LS}/server.rs"],
  [("tables of pending requests", f"{LS}/req_queue.rs"), ("typed extraction", f"{LS}/lsp.rs Request::extract, Notification::extract"), ("error codes and constructors", f"{LS}/msg.rs ErrorCode; {LS}/server.rs resp_err"), ("the client handle", f"{LS}/server.rs LspClient"), ("a driver made ready by hand", f"{LS}/server.rs LsDriver::ready, get_resources")],
  "runtime monitor: model of the request tables and exactly-once accounting of a client handle under racing threads and closed connections",
  WEAK + "in-memory channels stand for the transport.")

P("C09", "A mirrored session file reproduces the session",
  "Recording a session leaves the communication unchanged and writes to the mirror file exactly the bytes the server consumed from its input, and replaying that file produces, for deterministic handlers, the same set of responses and runs every request to completion before the process ends. A request that never completes keeps the process no longer than the time limit.",
  ["histories", "inputs"], "all sessions, chunkings of the input and ways the session ends",
  "no test uses mirroring or replay",
  [f"{LS}/transport.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/server/dap_srv.rs"],
  [("tee reader", f"{LS}/transport.rs MirrorWriter"), ("replay waits for pending requests", f"{LS}/server/lsp_srv.rs start")],
  "runtime monitor: byte-level comparison of recorded inputs, mirror files and replays of a real server process",
  WEAK + "a real process with pipes for standard input and output.")

P("C10", "The server ends in good order, flushing what it has answered",
  "When the client sends exit or closes its end at any point, even in the middle of a message, the server loop and its input and output threads end promptly, every response produced before the end has been written completely, and the output contains only whole messages. A malformed message ends the session in the same orderly way, and so does a failure of the server's own loop, which is reported. If the input or the output itself fails, the threads end, everything that came whole before has been passed on, and the failure is reported to whoever waits for them.",
  ["histories", "crash_points"], "all points at which the client leaves or corrupts the stream",
  "no test ends a session; torn or lost output depends on where the end falls",
  [f"{LS}/transport.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/server/dap_srv.rs", f"{LS}/server.rs"],
  [("exit and end-of-input handling", f"{LS}/server/lsp_srv.rs start_; {LS}/transport.rs io_transport"), ("joining the writer", f"{LS}/transport.rs with_stdio_transport")],
  "runtime monitor: real server processes cut off at every byte position, output and exit status checked",
  WEAK + "promptly means within a generous watchdog, confirmed by a rerun.")

P("C11", "A hostile but well-framed client cannot disturb the session",
  "Requests with malformed parameters, unknown methods, commands or resources, or missing arguments are answered by an error of the fitting kind; malformed or unknown notifications and stray responses are ignored. In every case the server keeps running and all other requests are answered as if the bad message had not been sent.",
  ["inputs", "histories"], "all well-framed but semantically invalid messages at any point of a session",
  "no test sends an invalid message to the server loop",
  [f"{LS}/server.rs", f"{LS}/server/lsp_srv.rs", f"{LS}/server/dap_srv.rs"],
  [("parameter decoding", f"{LS}/server.rs from_json, get_resources; {LS}/server/lsp_srv.rs on_execute_command"), ("unknown handler fallbacks", f"{LS}/server/lsp_srv.rs on_lsp_request, on_notification")],
  "runtime monitor: hostile session workload against a reference model, panic hook on every server thread",
  WEAK + "bad parameters may be refused as invalid request or invalid parameters.")

P("C12", "Request ids are echoed exactly",
  "A response carries its request's id unchanged in value and type: an integer and the same digits as a string are different ids, strings of any content are preserved, debug-adaptor sequence numbers keep all 64 bits, and any number of requests with such ids may be outstanding at once without being confused.",
  ["inputs", "histories"], "all ids, including boundary, colliding and hostile text ones, outstanding together",
  "the tests use one small integer id",
  [f"{LS}/msg.rs", f"{LS}/req_queue.rs", f"{LS}/server/dap_srv.rs", f"{LS}/server.rs"],
  [("id representation", f"{LS}/msg.rs RequestId"), ("pending-request table keyed by id", f"{LS}/req_queue.rs Incoming")],
  "runtime monitor: exactly-once checker keyed by the exact JSON id over sessions with colliding ids",
  WEAK + "language-server integer ids within 32 bits, as that protocol requires.")

P("C13", "The server core is free of data races",
  "Whatever the interleaving of the reader, the writer, the dispatch loop, asynchronous handlers, event senders and responding threads, the server core performs no data race and no undefined memory access.",
  ["schedules"], "all interleavings of the threads of a session",
  "the tests are single-threaded",
  [f"{LS}/server.rs", f"{LS}/transport.rs", f"{LS}/req_queue.rs"],
  [("queue lock and weak sender", f"{LS}/server.rs LspClient"), ("rendezvous channels", f"{LS}/transport.rs")],
  "ThreadSanitizer on the real code, standard library included, under stress sessions",
  WEAK + "ThreadSanitizer sees the interleavings that occurred (and their happens-before variants).")

ST = "crates/tinymist-std/src"
PATHS = f"{ST}/fs/paths.rs"

P("C20", "An atomic file replacement is whole at every instant and after a crash",
  "While write_atomic replaces a file, every concurrent reader sees either the complete old or the complete new content, never a mixture, a prefix or an absent file; concurrent replacements behave as if they happened one after the other, and none leaves anything else behind. If the process is killed at any point of the operation, the file holds either the complete old or the complete new content.",
  ["schedules", "crash_points"], "all interleavings of writers and readers, all content sizes, all points at which the process may be killed",
  "the two tests write one file once and look at it afterwards; they neither read during the write nor crash",
  [PATHS], [("temporary sibling file, then rename", f"{PATHS} write_atomic")],
  "runtime monitor: register checker over timed reads and writes; process killed by strace at every system call",
  WEAK + "a crash of the process, not of the machine.")

P("C21", "A replacement keeps permissions and fails without a trace",
  "write_atomic keeps the permission bits of the file it replaces, whatever the process's umask. If any step fails, it reports an error that names the path, and the old file (content and permissions) and the rest of the directory are untouched, no temporary file remaining; it never reports success for a replacement that did not happen.",
  ["inputs", "fault_sequences"], "all permission bits, umasks, path shapes, and a failure of any system call of the operation",
  "one test checks one mode under one umask; no test injects a failure",
  [PATHS], [("permissions copied to the temporary file", f"{PATHS} write_atomic"), ("temporary file removed unless persisted", f"{PATHS} write_atomic")],
  "runtime monitor: directory snapshots around the real operation under strace fault injection at every system call",
  WEAK + "permission refusals are injected because the checks run as root.")

P("C22", "File locks exclude each other and are always released",
  "Among processes and threads that lock a file through Filesystem, an exclusive holder is alone and shared holders coexist only with shared ones. Blocking calls obtain the lock once it is free; non-blocking ones never block and return nothing exactly when an incompatible lock is held. A lock ends when its holder drops it, panics or is killed. Creating calls make the file and its directories, the others fail if it is missing, and no call alters the contents of an existing file. A failure to lock is reported as an error, except that a file system without lock support, or a network file system, grants unlocked access.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of lock attempts, all ways a holder ends, all failures of the locking call",
  "no test takes a lock; exclusion and release can only be seen with several contending processes",
  [f"{ST}/fs/flock.rs"], [("open, try, then block", f"{ST}/fs/flock.rs acquire"), ("unlock on drop", f"{ST}/fs/flock.rs FileLock::drop"), ("unsupported-lock fallback", f"{ST}/fs/flock.rs acquire, sys")],
  "runtime monitor: exclusion checker over timed section logs of contending processes, plus lock tables and injected lock failures",
  WEAK + "local file systems only.")

P("C23", "File helpers read and write exactly the given bytes",
  "write, write_if_changed, append, create, open, read, read_bytes, copy, metadata and remove_file behave as on an ideal file: what is read is exactly what the history of operations left there, for any bytes and length; write_if_changed writes if and only if the bytes differ (identical contents leave the file and its modification time alone); appends from several threads are all kept, each whole; read refuses text that is not UTF-8. A failing operation changes nothing and its error names the path.",
  ["histories", "inputs", "schedules"], "all histories of file operations and all contents",
  "no test runs a history of operations or concurrent appends",
  [PATHS], [("comparison before writing", f"{PATHS} write_if_changed"), ("append mode", f"{PATHS} append"), ("error contexts", PATHS)],
  "runtime monitor: random operation histories against a reference file model, with modification times observed",
  WEAK + "files of up to a few hundred kilobytes.")

P("C24", "Removal never reaches outside what it was asked to remove",
  "Removing a directory tree, a link, a file or the siblings of a lock file never changes anything outside the named tree (neither contents nor permissions), in particular nothing that a symbolic link points to, and however deep the tree is. What was named is gone when success is reported, also when files are read-only; removing siblings leaves the locked file in place and still locked.",
  ["inputs", "fault_sequences"], "all trees, depths, links out of and into the tree, permissions and link targets",
  "no test removes a tree that contains links or read-only entries",
  [PATHS, f"{ST}/fs/flock.rs"], [("links are removed, not followed", f"{PATHS} remove_dir_all, remove_file, set_not_readonly"), ("siblings", f"{ST}/fs/flock.rs remove_siblings")],
  "runtime monitor: whole-scratch snapshots around removals run by an unprivileged process",
  WEAK + "no concurrent changes to the tree during its removal.")

P("C25", "A temporary directory belongs to one call and vanishes with it",
  "Each temp_dir_in call gives its callback a fresh, empty, private directory inside the given base, distinct from those of all concurrent calls, and removes it with everything in it when the callback returns, fails or panics, following no link out of it. The callback's own outcome is what the caller gets. If no directory can be made, the callback does not run.",
  ["schedules", "fault_sequences"], "all concurrent calls, callback outcomes and directory contents",
  "no test uses it",
  [PATHS], [("scoped temporary directory", f"{PATHS} temp_dir_in")],
  "runtime monitor: directory snapshots around concurrent calls with succeeding, failing and panicking callbacks",
  WEAK + "a killed process may leak its directory, as documented.")

P("C26", "A cache directory appears only together with its tag",
  "create_dir_all_excluded_from_backups_atomic makes the directory appear together with a valid CACHEDIR.TAG: at no instant, and not after a kill at any point, does the directory exist without a complete tag. An existing directory is left exactly as it is. Concurrent callers all succeed and leave no other entries behind, calling again changes nothing, and success means that the directory exists. An existing tag file is not overwritten.",
  ["schedules", "crash_points"], "all numbers of concurrent callers, prior states and points at which the process may be killed",
  "no test calls it; the atomicity is only visible to concurrent observers and after crashes",
  [PATHS], [("temporary directory renamed into place", f"{PATHS} create_dir_all_excluded_from_backups_atomic"), ("tag", f"{PATHS} exclude_from_backups")],
  "runtime monitor: concurrent observer of the directory and its tag; process killed by strace at every system call",
  WEAK + "missing parent directories are not created atomically, as documented.")

P("C27", "Linking or copying makes the destination equal to the source",
  "After link_or_copy the destination has the source's content (a directory is reachable through a link that works wherever the caller stands), whatever file, link or nothing was there before, also across file systems, where it copies. The source, and the file that a previous link at the destination pointed to, are unchanged; a file already linked to the source is left alone; a directory in the way is not replaced.",
  ["inputs", "histories"], "all prior states of the destination, kinds and places of the source",
  "one unix-only path at most is touched by tests",
  [PATHS], [("same-file check, removal, link, copy fallback", f"{PATHS} link_or_copy, _link_or_copy")],
  "runtime monitor: snapshots of source, destination and bystanders around the real call",
  WEAK + "sources that are missing or are themselves links are not claimed.")

P("C28", "Cleaning and slash-joining a path never change what it denotes",
  "clean gives the shortest lexically equivalent path (no empty or dot components, and .. only at the start of a relative path, never after the root; an empty result is a dot), and is idempotent. unix_slash gives the same components joined by single slashes. On a tree without links the cleaned, the normalized and the slash-joined path denote the same file as the original.",
  ["inputs"], "all paths: absolute and relative, any dots, repeated and trailing slashes, Unicode, non-UTF-8 bytes",
  "the tests fix about twenty strings",
  [f"{ST}/path.rs", PATHS], [("cleaning", f"{ST}/path.rs clean"), ("slash joining", f"{ST}/path.rs unix_slash"), ("normalizing", f"{PATHS} normalize_path")],
  "runtime monitor: independent lexical path model and canonicalization on a real tree as oracles",
  WEAK + "Unix path syntax.")

P("C29", "A relative path between two paths leads from one to the other",
  "diff(path, base) is the path that leads from base to path: appended to base and cleaned it gives the cleaned path, using as many .. as base has components below the common prefix and no more; unnormalized inputs (dots, .., empty) give the same answer as cleaned ones. A relative path has no difference from an absolute base, and an absolute path is returned as it is for a relative base.",
  ["inputs"], "all pairs of paths except relative bases that climb above their start",
  "no test covers it",
  [f"{ST}/path.rs"], [("cleaning before the difference", f"{ST}/path.rs diff")],
  "runtime monitor: independent lexical path model and canonicalization on a real tree as oracles",
  WEAK + "Unix path syntax; relative bases that begin with .. are not claimed.")

P("C31", "Path helpers agree with the file system they describe",
  "normalize_path resolves dots lexically and never climbs above its start; ancestors yields the path and each of its parents once, in order, stopping with the given stop (also inclusive) or the last parent; byte conversions round-trip any Unix path; join_paths inverts splitting, or fails with an error that names the variable and lists all paths; resolve_executable finds the first regular file of that name on the search path and leaves paths with several components alone; strip_prefix_canonical strips exactly when the resolved path lies under the resolved base.",
  ["inputs"], "all paths, stops, search paths and link layouts",
  "a few lookups are tested with fixed strings",
  [PATHS], [("ancestors", f"{PATHS} PathAncestors"), ("lookup", f"{PATHS} resolve_executable, join_paths"), ("canonical stripping", f"{PATHS} strip_prefix_canonical")],
  "runtime monitor: independent models of each helper over generated paths and link layouts",
  WEAK + "Unix path syntax.")

P("C32", "Fingerprints have one text form, which reads back exactly",
  "Every 128-bit fingerprint survives its integer, string and JSON forms unchanged; different fingerprints have different identifiers, which use only the base-64 alphabet, and a prefix is simply prepended. Reading a malformed text (too short, too long, other characters, bad padding) fails with an error, never a panic.",
  ["inputs"], "all 128-bit values, including those with zero bytes anywhere, and all strings",
  "the test tries four values and no malformed text",
  [f"{ST}/hash.rs"], [("truncated base-64 text", f"{ST}/hash.rs as_svg_id, try_from_str")],
  "runtime monitor: round-trip and uniqueness oracle over structured values and damaged texts, panic hook",
  WEAK + "uniqueness is judged among the values of a run.")

P("C33", "A fingerprint builder identifies equal items and separates different ones",
  "From one builder, equal items always get the same fingerprint and items that differ in value or type get different ones, whatever the order and number of threads that resolve them, including items whose quick 32-bit hashes collide, under either hashing strategy; the answer for an item never changes during the builder's life, and resolving never panics.",
  ["schedules", "inputs"], "all items, orders and interleavings of resolving threads",
  "no test uses the builder concurrently or with colliding hashes",
  [f"{ST}/hash.rs"], [("conflict tables", f"{ST}/hash.rs FingerprintBuilder (both feature variants)")],
  "runtime monitor: injectivity and stability checker over concurrent resolutions with searched-out hash collisions; ThreadSanitizer",
  WEAK + "conflicts of the full 128-bit hash cannot be produced.")

P("C34", "A sharded map keeps every item under its key",
  "A fingerprint map behaves as one map, whatever its number of shards (any number may be asked for: it is rounded up to a power of two and bounded by 512) and whatever threads fill it: an item is found under its key and only there, inserting twice keeps the last, contains_key agrees, iterating over shards or consuming the map yields each item exactly once, and no shard access leaves the map's bounds.",
  ["inputs", "schedules"], "all shard counts and keys, all interleavings of inserting threads",
  "no test inserts anything",
  [f"{ST}/adt/fmap.rs"], [("shard by masked key, unchecked index", f"{ST}/adt/fmap.rs FingerprintMap::shard, get_shard"), ("shard count", f"{ST}/adt/fmap.rs FingerprintMap::new")],
  "runtime monitor: reference map over concurrent histories; debug assertions on unchecked indexing; ThreadSanitizer",
  WEAK + "thread counts up to eight.")

P("C35", "A query computes once and gives everyone the same result",
  "However many threads ask a QueryRef at once, its computation runs at most once at a time and exactly once when it succeeds or fails, with its own context, and all callers get that same value or error; a query made with a value never computes. The context is dropped exactly once, and a plain computation is remembered in the same way.",
  ["schedules"], "all interleavings of callers, computation outcomes and durations",
  "no test uses it",
  [f"{ST}/concepts/query.rs"], [("once cell and context slot", f"{ST}/concepts/query.rs QueryRef")],
  "runtime monitor: at-most-once and agreement checker over concurrent callers; ThreadSanitizer",
  WEAK + "computations that panic or ask for themselves are not claimed.")

P("C36", "Content hashes depend on exactly the item and its type",
  "hash128 and item_hash128 give equal hashes for equal items, independent of references, threads, runs and processes, and different ones for different items; item_hash128 also separates values of different types, hash128 depends on nothing but the value. A prehashed wrapper carries and feeds exactly the hash it was given.",
  ["inputs", "histories"], "all items and types, across processes",
  "no test compares hashes of different items, types or processes",
  [f"{ST}/hash.rs"], [("hash functions", f"{ST}/hash.rs hash128, item_hash128"), ("prehashed trait objects", f"{ST}/hash.rs HashedTrait, StaticHash128")],
  "runtime monitor: independent SipHash implementation and cross-process comparison",
  WEAK + "distinctness is judged among the items of a run.")

P("C37", "Errors keep their location, arguments and message everywhere",
  "An error keeps its location, message, kind and every argument in order, however it is made (context, with_context, bail, error_once, map helpers), rendered, converted (to and from other error types) or logged; success values pass through context untouched; diagnostics severities survive serialization and unknown ones are refused.",
  ["inputs"], "all locations, messages, argument lists and ways of making and converting an error",
  "one test checks that the type is Send",
  [f"{ST}/error.rs"], [("error construction", f"{ST}/error.rs Error, WithContext, prelude"), ("logging", f"{ST}/error.rs IgnoreLogging")],
  "runtime monitor: model of every constructor, rendered text, conversions and captured logs checked",
  WEAK + "errors with an empty location are not claimed.")

P("C38", "Value wrappers and time conversions lose nothing",
  "Byte payloads are written as standard padded base-64 and read back equal, damaged text never yields other bytes or a panic; take moves out the only reference and clones a shared one; CowMut writes through a borrow and owns otherwise. A Unix timestamp or system time within the years -9999 to 9999 converts to the same instant in UTC and any other to none, never a panic.",
  ["inputs"], "all payloads, texts and times",
  "no test covers the wrappers or time conversions",
  [f"{ST}/concepts/marker.rs", f"{ST}/concepts/takable.rs", f"{ST}/concepts/cow_mut.rs", f"{ST}/time.rs"],
  [("base-64 marker", f"{ST}/concepts/marker.rs AsCowBytes"), ("take", f"{ST}/concepts/takable.rs"), ("time conversion", f"{ST}/time.rs ToUtcDateTime")],
  "runtime monitor: independent base-64 and civil-calendar oracles, clone counting, panic hook",
  WEAK + "times are generated, with the range's ends always among them.")

P("C45", "Derived type contexts and declarations forward to their parts",
  "A struct that derives BindTyCtx, whatever its shape and generics, answers every question about the bounds or the binding of a type variable as the context does that its bind attribute names (a field or a position; without the attribute, the field tyctx): that context, and no other part, is asked, once, with the same variable and polarity, and its answer is returned as it is. An enum that derives DeclEnum has the name and span of the content of its variant, and prints as the variant's name with the printed content in parentheses.",
  ["inputs"], "all shapes in use, all variables, polarities, answers and contents",
  "no test touches the derive macros",
  ["crates/tinymist-derive/src/lib.rs"],
  [("derive macros", "crates/tinymist-derive/src/lib.rs bind_ty_ctx, gen_decl_enum")],
  "runtime monitor: recording contexts behind derived types in every shape in use, compared with asking directly",
  WEAK + "shapes are those the repository uses; the traits named by the generated code are stand-ins.")

LN = "crates/tinymist-l10n/src"

P("C40", "Translated messages interpolate every argument and keep all other text",
  "Rendering a message replaces each placeholder {name} by the argument of that name (text verbatim, even if it contains braces; integers and floats in their usual notation) and keeps every other character, in particular the one after a placeholder; unknown or unterminated placeholders stay as written. The shipped language-server catalogue loads, and each of its messages uses the same well-formed placeholders in every language, so that none is left over.",
  ["inputs"], "all messages, placeholder positions, argument names, orders and values, and all shipped messages in all languages",
  "no test renders a message",
  [f"{LN}/lib.rs", "locales/tinymist-rt.toml"], [("interpolation", f"{LN}/lib.rs t_with_args, t!, bail!"), ("shipped messages", "locales/tinymist-rt.toml, crates/tinymist-project/src/entry.rs")],
  "runtime monitor: constructive oracle for generated messages and an independent renderer for the shipped catalogue",
  WEAK + "call sites in crates that cannot be built here are represented by the catalogue.")

P("C41", "Locale selection falls back predictably and keeps the last valid locale",
  "Selecting a locale picks, whatever its letter case, the catalogue language of that name, else the one that the name begins with before a hyphen; otherwise (or before a catalogue is set) it reports failure and the current language stays. Each message is then the current language's translation, or the given message where there is none. The first catalogue that is set stays for the life of the process.",
  ["histories", "inputs"], "all histories of catalogue setting, locale selection and translation",
  "no test selects a locale; the state is global, so it needs one process per history",
  [f"{LN}/lib.rs"], [("selection", f"{LN}/lib.rs set_locale, set_translations"), ("lookup", f"{LN}/lib.rs find_message, t_without_args")],
  "runtime monitor: reference state machine over random histories, each in its own process",
  WEAK + "names that several catalogue languages prefix are left open.")

P("C42", "Translation catalogues survive reading, writing and updating",
  "Writing a catalogue and reading it back, by key or by language, gives the same catalogue, also when comments, blank lines, spacing or line ends were changed; the written form depends only on the content and is sorted, English first. Updating keeps exactly the used keys with their other translations and sets English; updating a file does the same, creates a missing one, and is idempotent. Malformed text is refused with an error, never a panic, and a file that cannot be read is left alone.",
  ["inputs", "histories"], "all catalogues, keys, values, spacings and updates",
  "no test reads or writes a catalogue",
  [f"{LN}/lib.rs"], [("reader and writer", f"{LN}/lib.rs deserialize, serialize_translations, load_translations"), ("update", f"{LN}/lib.rs update_translations, update_disk_translations")],
  "runtime monitor: round-trip and update model with an independent catalogue reader",
  WEAK + "values are JSON strings on one line, as the writer produces them.")

P("C43", "The extraction tool collects every message, exactly and repeatably",
  "Run over any tree of Rust or TypeScript sources, the tool collects precisely the messages of the translation calls in files of that kind, in whatever spelling and spacing, verbatim, and nothing from decoys, incomplete calls or other files; files that are not text are skipped. The catalogue afterwards contains exactly these keys with their English text and the translations they already had. The result depends neither on the number of threads nor on repetition.",
  ["inputs", "schedules"], "all source trees, call spellings and thread counts",
  "the tool has no test",
  [f"{LN}/main.rs", f"{LN}/lib.rs"], [("parallel scan", f"{LN}/main.rs check_calls"), ("argument parsing", f"{LN}/main.rs parse_str, parse_char"), ("catalogue update", f"{LN}/lib.rs update_disk_translations")],
  "runtime monitor: the real tool run on generated source trees against the generator's own record, under several thread counts",
  WEAK + "each key has one English text; string escapes are those that Rust and JSON share.")

P("C44", "Switching the locale while translating yields one locale per message",
  "While threads translate and others switch the locale, each translation comes entirely from a locale that was current at some moment of the call, switching never fails or blocks for good, and there is no data race. Catalogues set at the same time by several threads: one wins, wholly.",
  ["schedules"], "all interleavings of translating and switching threads",
  "no test uses two threads",
  [f"{LN}/lib.rs"], [("current locale behind a lock", f"{LN}/lib.rs LOCALE_TRANSLATIONS"), ("catalogue set once", f"{LN}/lib.rs ALL_TRANSLATIONS")],
  "runtime monitor: linearizability check of translations against a known switching order; ThreadSanitizer",
  WEAK + "one process-wide locale, as designed.")

VF = "crates/tinymist-vfs/src"
STAND = "typst's file ids, sources and byte strings and the rpds maps are stand-ins written for this harness (the crates cannot be fetched), which behave as documented; "

P("C50", "A file read through the virtual file system is the newest version of it",
  "After any history of shadowing files by path or by id, file-system notifications (changed, removed, unreadable), resets and cache evictions, a read returns the content of the nearest layer that has the file: the shadow by id, else the shadow by path, else the last notified content, else the file on disk; and fails with that layer's error if it holds one. Reading as a source gives the same bytes decoded as UTF-8 without a byte-order mark, in whatever order files, sources and older versions have been read before. Removing a layer uncovers the one below; the lists of shadowed paths and ids are those in effect. Paths spelled differently name the same file.",
  ["histories", "inputs"], "all histories of changes and reads, and all file contents",
  "the crate has one test, that the type is Send and Sync; stale reads depend on what had been read and cached before",
  [f"{VF}/lib.rs", f"{VF}/overlay.rs", f"{VF}/notify.rs", f"{VF}/resolve.rs", f"{VF}/system.rs"],
  [("invalidation of read slots", f"{VF}/lib.rs RevisingVfs"), ("shadow layers", f"{VF}/overlay.rs OverlayAccessModel"), ("notified layer", f"{VF}/notify.rs NotifyAccessModel"), ("incremental sources", f"{VF}/lib.rs Vfs::source")],
  "runtime monitor: model-based checker of read/change histories over memory and a real directory",
  WEAK + STAND + "a change of the disk without a notification may be seen at once, late, or never.")

P("C51", "Snapshots and forks of the file system keep their own version of every file",
  "A snapshot or fork shows, for every file, what its origin showed when it was taken, whichever of them reads a file first and whatever is changed, read, evicted or reset in the others afterwards; and changes made in a snapshot or fork show nowhere else. A snapshot has the revision of its origin.",
  ["histories"], "all trees of snapshots and forks and all interleavings of their changes and reads",
  "no test takes a snapshot; leaks appear only when files are read late, in one view, between changes in another",
  [f"{VF}/lib.rs", f"{VF}/overlay.rs", f"{VF}/notify.rs"],
  [("slots shared by snapshots", f"{VF}/lib.rs Vfs::snapshot, RevisingVfs::drop"), ("forks", f"{VF}/lib.rs Vfs::fork")],
  "runtime monitor: model-based checker of a family of views, each against its own model",
  WEAK + STAND + "the disk does not change meanwhile.")

P("C52", "Compilations on snapshots see exactly their version while the origin is edited",
  "While any number of threads read files and sources from snapshots and forks, and the origin goes on being edited, revised and evicted, each view reads exactly the versions of its moment, the origin the newest, all reads end, nothing panics, and there is no data race.",
  ["schedules"], "all interleavings of readers with edits of the origin",
  "no test uses two threads; the reads race for shared slots and the shared source cache",
  [f"{VF}/lib.rs"],
  [("once-filled slots", f"{VF}/lib.rs VfsEntry, read_content"), ("shared source cache", f"{VF}/lib.rs SourceCache"), ("exchange of the slot map", f"{VF}/lib.rs RevisingVfs::drop")],
  "runtime monitor: concurrent readers against the model of their view; ThreadSanitizer",
  WEAK + STAND + "races within ecow's vectors are suppressed (fences).")

P("C53", "A revision judged clean is unchanged, and an untouched one is clean",
  "Asked whether files read at an earlier revision are still the same, the virtual file system says yes only if none of them has other content now, and does say yes if no change touched any of them. A change to a file that has been read makes a new revision; revisions never go back.",
  ["histories"], "all histories of changes, reads and compilations on snapshots",
  "no test asks; a wrong yes skips a needed compilation, a wrong no compiles on every keystroke",
  [f"{VF}/lib.rs"],
  [("change stamps", f"{VF}/lib.rs is_clean_compile, invalidate_file_id"), ("revision numbers", f"{VF}/lib.rs RevisingVfs::drop")],
  "runtime monitor: comparison of verdicts with the contents in a model",
  WEAK + STAND + "after an eviction, only compilations at the current revision are judged.")

P("C54", "File ids and paths map onto each other, and no id leads out of its root",
  "A workspace root, however its path is spelled, has one identity, shared by all threads, which leads back to that root; different roots have different ones. A file id resolves to exactly the lexical place below its workspace or package root, or is refused if it would leave the root. Untitled and root-less files have no path; package specifications that merely look like workspaces are errors.",
  ["inputs", "schedules"], "all roots, virtual paths and package specifications, from any number of threads",
  "the tests intern a handful of roots in one thread",
  [f"{VF}/path_mapper.rs"],
  [("interned roots", f"{VF}/path_mapper.rs WorkspaceResolver::workspace_id, INTERNER"), ("resolution below the root", f"{VF}/path_mapper.rs RootResolver")],
  "runtime monitor: differential check against an independent lexical resolver; racing interning",
  WEAK + STAND + "links on disk are not followed, as designed.")

PK = "crates/tinymist-package/src"
STAND2 = "typst's package types and the HTTP client (reqwest) are stand-ins written for this harness (the crates cannot be fetched), with the server as a function."

P("C55", "Packages resolve to the right place, are fetched only when needed, and once",
  "A package is taken from the data directory if it is there, else from the cache, else, if it is of the preview namespace and there is a cache, downloaded into the cache from its one address; a package found locally is never fetched, an absent one never from elsewhere. Errors tell what is wrong: not found, an unreachable or failing server, a broken archive; a failure leaves no package behind, so that the next attempt may succeed. Each download is announced once. The newest version of a package is the greatest by number, whatever else lies beside it, in local directories as in the index; the index is downloaded once, however many ask at once, and a broken one does not panic.",
  ["histories", "inputs", "schedules"], "all contents of the data and cache directories, all package names and versions, all server answers",
  "the tests of the crate touch version ordering only; resolution needs directories and a server",
  [f"{PK}/registry/http.rs", f"{PK}/registry.rs"],
  [("order of resolution", f"{PK}/registry/http.rs PackageStorage::prepare_package"), ("download", f"{PK}/registry/http.rs PackageStorage::download_package"), ("newest version", f"{PK}/registry/http.rs determine_latest_version"), ("index, once", f"{PK}/registry/http.rs download_index")],
  "runtime monitor: model-based checker of resolutions over real directories and a scripted server",
  WEAK + STAND2)

P("C56", "A package is there wholly or not at all",
  "Whenever the directory of a downloaded package exists, it holds every file of the package with its full content: while other threads or processes download the same package, when a download breaks off, is reset or is garbage, when a system call fails, and after the process is killed at any point. A later attempt then still gets the package. If the server has the package, none of any number of simultaneous resolvers fails. When all are done, nothing but the package is left beside it, and after failures nothing at all.",
  ["schedules", "crash points", "inputs"], "all interleavings of downloads and readers, all crash points, all failing system calls, all ways for a download to break off",
  "no test downloads; a part of a package taken for the whole breaks every later compilation until the user deletes it by hand",
  [f"{PK}/registry/http.rs"],
  [("unpacking and publication", f"{PK}/registry/http.rs PackageStorage::download_package")],
  "runtime monitor: onlookers and racing resolvers compare what exists with what was archived; kill and fault injection at each system call",
  WEAK + STAND2 + " Renames are taken to be in order on disk (no power failures); archives that differ only in their checksum are not judged.")

P("C57", "All packs deliver the same files, and clones stay within the target",
  "A package given as a directory, a map of files, a tarball, or a download delivers each of its files once, under its whole path, with its exact bytes, however long, deep, hidden or oddly named the place or file is; hidden entries below a directory are not part of it. A filter passes exactly the files it accepts; a refusal by the reader ends the reading with that error; a tarball or download that breaks off within a file is an error. Cloning into a directory or map yields the same files, replaces older ones entirely and leaves others alone, and never writes outside the target, whatever the names in the source are: such a clone fails.",
  ["inputs", "fault points"], "all trees of files, all names, all archives including broken and hostile ones",
  "the tests of the crate read one directory; hostile and long names are absent",
  [f"{PK}/pack.rs", f"{PK}/pack/fs.rs", f"{PK}/pack/tarball.rs", f"{PK}/pack/memory.rs", f"{PK}/pack/http.rs", f"{PK}/pack/universe.rs", f"{PK}/pack/ops.rs"],
  [("directories", f"{PK}/pack/fs.rs DirPack"), ("tarballs", f"{PK}/pack/tarball.rs TarballPack"), ("maps", f"{PK}/pack/memory.rs MapPack"), ("downloads", f"{PK}/pack/http.rs HttpPack"), ("filters", f"{PK}/pack/ops.rs FilterPack")],
  "runtime monitor: round trips of generated packages against what was generated; snapshots of the surroundings of the target",
  WEAK + STAND2 + " Unreadable directories are skipped, and gzip checksums not judged.")

PJ = "crates/tinymist-project/src"
STAND3 = " typst, its compilation and the watcher of the operating system are stand-ins (harness-t/stubs), so what the compiler itself does with the files is not judged; the language server around the projects is replayed by the harness."
P("C58", "Once settled, every project shows the buffers over the disk",
  "Whatever buffers are opened, edited and closed, files written, emptied, replaced, removed for a moment or for good, tasks changed, and dedicated projects started, restarted and removed, in whatever order and however slow compilations and the watcher are: once everything has settled, the last compilation of every project shows each file as its buffer has it, or else as the disk has it, with the main file and inputs it was given, and its diagnostics; the snapshot taken then carries that document, the buffers are the same in every project, and the watcher has been told of every dependency. A compilation shows one state of the buffers throughout. Each compilation is announced once and reported once. Late results of removed projects do no harm.",
  ["inputs", "schedules", "histories"], "all histories of buffers, disk changes, tasks and projects, all timings of compilations and of the watcher",
  "there are no tests of projects; the losses need a particular order of several late messages",
  [f"{PJ}/compiler.rs", f"{PJ}/watch.rs", "crates/tinymist-world/src/world.rs", "crates/tinymist-vfs/src/lib.rs", "crates/tinymist-task/src/compute.rs"],
  [("interrupts", f"{PJ}/compiler.rs ProjectCompiler::process"), ("delayed buffers", f"{PJ}/compiler.rs apply_delayed_memory_changes"), ("results", f"{PJ}/compiler.rs process_compile"), ("revisions", "crates/tinymist-world/src/world.rs increment_revision"), ("skipped compilations", "crates/tinymist-vfs/src/lib.rs is_clean_compile")],
  "runtime monitor: a model of buffers, disk and tasks against the documents of all projects whenever all has settled, and against each compilation whose view was certain",
  WEAK + STAND3 + " A file that does not exist when the dependencies are told is not watched; the harness asks for a compilation after it creates one.")
P("C59", "What the watcher tells adds up to the disk",
  "Applying all that the watcher tells yields, once it is at rest, the contents on the disk of every file depended on or asked about, whether it was written in place, truncated, replaced, removed or created while the dependencies were told; it watches exactly those of them that exist. Every question is answered exactly once, in order, with its own value and with current contents, also when it is followed by the end. A content that the consumer knows is not told again, nor one that never was. A file that is empty or gone only for a moment is not told to be. This holds without a working watcher too, whenever the dependencies are told.",
  ["inputs", "schedules", "fault points"], "all histories of disk changes and messages, late events, watchers and watches that cannot be created",
  "there are no tests of the watcher",
  [f"{PJ}/watch.rs", "crates/tinymist-vfs/src/notify.rs", "crates/tinymist-vfs/src/system.rs"],
  [("events", f"{PJ}/watch.rs notify_event"), ("state of a file", f"{PJ}/watch.rs notify_entry_update, recheck_notify_event"), ("dependencies", f"{PJ}/watch.rs update_watches"), ("questions", f"{PJ}/watch.rs invalidate_upstream")],
  "runtime monitor: a consumer that applies what it is told, compared with the disk and with the history of every file",
  WEAK + " The watcher of the operating system is a stand-in that the harness feeds (harness-t/stubs/notify); how inotify reports changes is modelled after its documentation.")

P("C69", "A lock file keeps what is put into it, for everybody",
  "Whatever documents, tasks and routes are put into a project's lock file, under whatever names and paths, whoever reads it afterwards, in any thread or process, finds exactly those, the last under each id, in an order that does not depend on how they were put in; an update starts from what the one before left. Concurrent updates lose nothing, and nobody reads half of one. An update that fails, or changes nothing, leaves the file untouched, as it does a file of another version or no lock file at all, which is refused. What a compilation puts in resolves to the same main file, root and fonts, wherever the server runs, and the materials of every document of every project are kept apart.",
  ["inputs", "schedules", "histories"], "all documents, tasks, routes, ids and paths, all histories of updates by several threads and processes",
  "there are no tests of lock files",
  [f"{PJ}/lock.rs", f"{PJ}/model.rs", "crates/tinymist-task/src/model.rs", "crates/tinymist-task/src/primitives.rs", f"{PJ}/lsp.rs"],
  [("updates", f"{PJ}/lock.rs LockFile::update"), ("reading", f"{PJ}/lock.rs LockFile::read"), ("form", f"{PJ}/lock.rs serialize_resolve"), ("paths", "crates/tinymist-task/src/primitives.rs ResourcePath"), ("compilations", f"{PJ}/lock.rs LockFileUpdate")],
  "runtime monitor: a model of the file against what is read after every update; concurrent writers and readers in threads and processes; projects committed from elsewhere and resolved again",
  WEAK + STAND3 + " toml 0.9 stands in for toml 0.8. A writer that is killed half way is not judged, which the code declares.")
P("C70", "Command lines become the documents and tasks that they name",
  "Every command line that declares a document, compiles it or adds a task becomes the document, entry and task that it says: the id, main file, root, fonts and packages that it names relative to the current directory, the format it names or that the extension of the output has in any case, the pages, timing, standards and resolution; inputs split at the first equals sign. A main file within its root, however either is spelled, is found, and one outside is refused, both for command lines and for documents of a lock file. Command lines that make no sense are refused; none panics.",
  ["inputs"], "all command lines",
  "there are no tests of command lines",
  [f"{PJ}/args.rs", "crates/tinymist-world/src/args.rs", f"{PJ}/lsp.rs", "crates/tinymist-task/src/primitives.rs"],
  [("documents", f"{PJ}/args.rs DocNewArgs::to_input"), ("tasks", f"{PJ}/args.rs TaskCompileArgs::to_task"), ("pages", "crates/tinymist-task/src/primitives.rs Pages"), ("entries", f"{PJ}/lsp.rs WorldProvider"), ("inputs", "crates/tinymist-world/src/args.rs parse_input_pair")],
  "runtime monitor: generated command lines, parsed and resolved, against what they were generated from",
  WEAK + STAND3 + " Environment variables are not set. That the output path is dropped is a known finding.")

TQ = "crates/tinymist-query/src"
TM = "crates/tinymist/src"
TP = "crates/typst-preview/src"
FACADE = " Of crates that do not compile here, the files concerned are taken as they are into a small crate (harness-t/facades)."
P("C60", "Positions name the same place for clients and server, edits keep both in step",
  "For every text, encoding that is negotiated and offset at a character boundary: the position that is sent to a client is the line and the number of UTF-16 units or bytes before it, and comes back as that offset; so do ranges. A position beyond the end of its line is the end of that line, one beyond the last line the end of the text, one within a character a boundary of it; none panics. A text that clients edit by ranges, including ranges that end beyond their line or the text, is the same on both sides after every edit.",
  ["inputs", "histories"], "all texts (line ends of all kinds, astral and combining characters, empty lines), encodings, positions and sequences of edits",
  "tests convert a few positions in one text",
  ["crates/tinymist-analysis/src/location.rs", f"{TQ}/lib.rs"],
  [("positions", "crates/tinymist-analysis/src/location.rs to_lsp_position, to_typst_position"), ("ranges", "crates/tinymist-analysis/src/location.rs to_lsp_range, to_typst_range"), ("edits", "crates/tinymist/src/input.rs edit_source")],
  "runtime monitor: positions counted from the LSP specification, and a client whose edits the server follows",
  WEAK + STAND + FACADE + " Typst ends lines at five more characters than LSP does; each is a known finding.")
P("C61", "Formatting edits yield exactly the formatted text",
  "The edits that answer a formatting request, applied by a client under the negotiated encoding, yield exactly what the formatter returned, whatever it changed, also where the old and the new character share bytes or the common start and end overlap; they do not overlap, lie within the text, and end at characters. A text that is formatted already gets no edit that changes it. A formatter that declines or fails yields no edits. While the configuration changes, each answer is that of one configuration.",
  ["inputs", "schedules"], "all texts, formatted texts, encodings and changes of the configuration",
  "there are no tests of it",
  [f"{TM}/task/format.rs"],
  [("difference", f"{TM}/task/format.rs calc_diff"), ("formatters", f"{TM}/task/format.rs FormatTask::run"), ("configuration", f"{TM}/task/format.rs change_config")],
  "runtime monitor: edits applied by a model client, compared with what the formatter returned",
  WEAK + STAND + FACADE + " The formatters are stand-ins that return any text.")
P("C62", "Paths survive their way through urls",
  "Every absolute path, with any bytes but zero, as a url, as that is printed and parsed again, and as a path again, is that path; different paths have different urls. Every name of an untitled document and the path that it is given lead back to the url that the client used. No url that a client may send makes the server fall over. Files of packages keep their place in the package.",
  ["inputs"], "all paths, untitled names and urls",
  "tests convert four urls",
  [f"{TQ}/lib.rs", "crates/tinymist-query/src/lsp_typst_boundary.rs"],
  [("urls", f"{TQ}/lsp_typst_boundary.rs path_to_url, url_to_path"), ("untitled", f"{TQ}/lsp_typst_boundary.rs untitled_url")],
  "runtime monitor: round trips, with urls as they travel",
  WEAK + STAND + FACADE + " Urls with hosts or of unknown opaque schemes panic; known findings.")
P("C63", "Every browser that shows a preview ends up with the newest document",
  "Whenever all is at rest, every connected browser shows the newest document that was compiled for the preview, however compilations, full renders that browsers ask for, connections, disconnections and messages interleave: deltas arrive gapless, in order, after a start that they apply to, and nothing older comes after something newer. The editor is told each status of the compiler in order, and outlines of the newest document. Malformed messages of one browser, or with ids that lead nowhere, cost no other browser or the editor anything. When the preview is ended, it ends.",
  ["inputs", "schedules", "histories"], "all interleavings of compilations, browsers, requests and bad messages",
  "there are no tests of the preview",
  [f"{TP}/lib.rs", f"{TP}/actor/render.rs", f"{TP}/actor/webview.rs", f"{TP}/actor/editor.rs", f"{TP}/outline.rs"],
  [("renders", f"{TP}/actor/render.rs RenderActor::run"), ("browsers", f"{TP}/actor/webview.rs WebviewActor::run"), ("editor", f"{TP}/actor/editor.rs EditorActor::run"), ("data plane", f"{TP}/lib.rs start_data_plane")],
  "runtime monitor: model browsers that apply what they are sent, compared with the newest document whenever all is at rest",
  WEAK + STAND + " The whole crate typst-preview is compiled as it is; the renderer is a stand-in whose packets tell which document they make.")
P("C64", "Jumps and scrolling reach everyone, ids of the outline stay what they are",
  "Each jump that the editor asks for reaches every connected browser with the positions of its source location, each scrolling and cursor likewise, in order, however many are sent at once (at most the newest, once a browser lags behind). Each jump from a document leads the editor to the file and range of the elements that were pointed at, in order and within the element. The id of a heading in an outline leads to that heading's source until thirty outlines later, and never to another's. The outline has the tree of the document's bookmarked headings.",
  ["inputs", "schedules", "histories"], "all histories of jumps, bursts, outlines and compilations",
  "there are no tests of the preview",
  [f"{TP}/actor/render.rs", f"{TP}/actor/editor.rs", f"{TP}/debug_loc.rs", f"{TP}/outline.rs", f"{TP}/actor/webview.rs"],
  [("ids", f"{TP}/debug_loc.rs SpanInternerImpl"), ("jumps", f"{TP}/actor/render.rs resolve_span_range"), ("outline", f"{TP}/outline.rs get_outline"), ("bursts", f"{TP}/actor/webview.rs run")],
  "runtime monitor: every jump and id is followed and compared with what it was made for",
  WEAK + STAND + " Ids of older outlines are followed while there is one browser (each has its own series otherwise).")
P("C65", "A preview that nobody looks at goes, one that is looked at stays",
  "A preview that was started to go when idle does so within a few seconds of nobody being connected, wherever the last browser went, including browsers whose handshake fails, and asks for it exactly once; while a browser is connected, or if it was not started so, it stays. Told to end, it ends.",
  ["histories", "fault points"], "all histories of connections, failing handshakes and disconnections",
  "there are no tests of the preview",
  [f"{TP}/lib.rs"],
  [("idle", f"{TP}/lib.rs start_data_plane"), ("end", f"{TP}/lib.rs Previewer::stop")],
  "runtime monitor: connections against the time at which the preview asks to end, under a simulated clock",
  WEAK + STAND)
P("C66", "Of the exports that wait, the newest is done, one at a time, none forgotten",
  "However exports of one document are asked for, from wherever and while others run: at most one runs at any time; whenever one is asked for, either it, or one of an at least equal revision that was waiting or is asked for before it begins, runs to its end afterwards; each that is begun was asked for, once; and when nothing is asked for any more, what ran last is no older than what was asked for last. Asking never waits for an export.",
  ["schedules", "histories"], "all interleavings of asking, running and finishing, from several threads",
  "there are no tests of it",
  [f"{TM}/task/mod.rs"],
  [("folder", f"{TM}/task/mod.rs FutureFolder::spawn"), ("configuration", f"{TM}/task/mod.rs SyncTaskFactory")],
  "runtime monitor: recorded begins and ends of exports against what was asked for",
  WEAK + STAND + FACADE)
P("C67", "What is exported on the disk is what was compiled last",
  "Of each project, after each history of compilations for whatever causes and of changes of the configuration, once all is at rest, the file that the configuration of the last compilation that was due for an export names holds exactly the export of that compilation, whatever other projects do meanwhile; nothing else is written, and no reader ever sees a part of a file. A compilation that is not due for one (never, on save, on type, with a title, failed) writes nothing. If words are counted, the last count that was told of each project is that of its last document.",
  ["histories", "schedules"], "all histories of compilations, causes, configurations and projects",
  "there are no tests of it",
  [f"{TM}/task/export.rs", f"{TM}/task/mod.rs", "crates/tinymist-task/src/compute.rs", "crates/tinymist-task/src/primitives.rs", "crates/tinymist-std/src/fs/paths.rs"],
  [("when", f"{TM}/task/export.rs signal_export"), ("what", f"{TM}/task/export.rs do_export"), ("where", "crates/tinymist-task/src/primitives.rs PathPattern::substitute"), ("pages", "crates/tinymist-task/src/compute.rs get_page_selection"), ("words", f"{TM}/task/export.rs signal_count_word")],
  "runtime monitor: the disk, at rest and while it is written, against a model of when, where and what is to be exported",
  WEAK + STAND + FACADE + " What typst makes of pages is a stand-in that tells what it was given.")
P("C68", "The editor shows the diagnostics and the state that projects said last",
  "After every history of diagnostics, states, versions and counts of several projects, including projects that end and notifications that are switched on and off, the diagnostics that the editor was last told of each file are exactly those that the projects last said of it together; no file keeps diagnostics that nobody says any more; and each state that the editor is told is the latest of the compiler, its pages, words and path, and is told whenever it changed while notifications were on.",
  ["histories"], "all histories of what projects say and how they end",
  "there are no tests of it",
  [f"{TM}/actor/editor.rs"],
  [("diagnostics", f"{TM}/actor/editor.rs EditorActor::publish"), ("states", f"{TM}/actor/editor.rs EditorActor::run")],
  "runtime monitor: a model editor that applies what it is sent, compared with what each project said last",
  WEAK + STAND + FACADE)
