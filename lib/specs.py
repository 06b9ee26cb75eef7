"""What each property runs, and within which bounds."""

ASSUMPTIONS = [
    "the LLVM IR rustc emits for the tree (opt-level 1, overflow checks on, panic=abort) has the behaviour of the shipped build",
    "the engine's model of the C library, the listed library summaries and Z3 are right (sampled paths are re-run natively)",
    "an allocation beyond the stated limit fails; other allocations succeed",
    "hash maps iterate in an order that does not depend on the process's random keys",
]

CRATES = {}


def L(entry, covers=(), **kw):
    return dict(crate="h_lsp", entry=entry, covers=list(covers), **kw)


def N(entry, covers=(), **kw):
    return dict(crate="h_l10n", entry=entry, covers=list(covers), **kw)


def T(entry, covers=(), **kw):
    return dict(crate="h_std", entry=entry, covers=list(covers), **kw)


def F(entry, covers=(), **kw):
    return dict(crate="h_fs", entry=entry, covers=list(covers), **kw)


def V(entry, covers=(), **kw):
    return dict(crate="h_vfs", entry=entry, covers=list(covers), **kw)


def Q(entry, covers=(), **kw):
    return dict(crate="h_query", entry=entry, covers=list(covers), **kw)


def J(entry, covers=(), **kw):
    return dict(crate="h_project", entry=entry, covers=list(covers), **kw)


def X(entry, covers=(), **kw):
    return dict(crate="h_task", entry=entry, covers=list(covers), **kw)


def K(entry, covers=("end",), **kw):
    return dict(crate="h_lock", entry=entry, covers=list(covers), **kw)


PROJECT = ("stand-ins for what is not in the sandbox behave like the real thing where the code uses it: a compiler that reads a main file and what it imports, worlds, "
           "file ids and virtual paths of typst, rpds, codespan (shapes of diagnostics), comemo, the thread pool of rayon (tasks end one by one, when the harness says), tokio's channels and clock; "
           "the harness plays the editor, the disk, the watcher (in what it promises to tell), the exports and the previews")
TASK = ("stand-ins for what is not in the sandbox behave like the real thing where the code uses it: the formatters (they give any text), the compiler and the exporters of typst (a document is its text, "
        "what is made of it says how), worlds, file ids and virtual paths, the runtime of tokio (its futures and blocking tasks run one by one, when the harness says), comemo, rpds")
TYPST = ("stand-ins for what is not in the sandbox behave like the real thing where the code uses it: file ids, virtual paths and sources of typst, "
         "rpds (persistent maps), and for the watcher notify and tokio (one task, a clock the harness moves)")
SYNTAX = ("stand-ins for what is not in the sandbox behave like the real thing where the code uses it: the syntax trees, sources (lines, columns, ranges) and kinds of typst, "
          "rayon (tasks run one by one, when the harness says), strum's derives, and for the analyses of expressions, types and lints what they would compute")
DISK = ("the C library's file functions behave as the in-memory file system of the harness says: a change is whole or not at all, one byte at a time for "
        "writes, and permissions, links and locks have their POSIX meaning")
ONE_HASH = "maps behave the same whatever their keys hash to (a stand-in for rustc-hash gives one hash)"
SIP = "no two items within the bounds have the same 128-bit hash (a stand-in for siphasher keeps short items apart)"
FX = "a stand-in for fxhash makes the fast hash of two different items equal in some cases, as the real one may"
MEMO = "memoization gives what the function gives (a stand-in for comemo calls the function)"
LOCK = ("stand-ins for what is not in the sandbox behave like the real thing where the code uses it: worlds, file ids and virtual paths of typst, comemo, rpds, walkdir (a directory, then what is in it), "
        "dirs (one place for caches); toml 0.9 writes and reads what toml 0.8 does")
RACE = dict(threads=True, args={"preempt": 1}, thorough=dict(args={"preempt": 2}))


PROPS = {
    "C01": {
        "bounds": {
            "quick": "one message of any kind (request, notification, response with result, response with error; DAP request, event, "
                     "response), one field arbitrary at a time: ids all of i32 and text ids of 2 arbitrary ASCII bytes, error codes all of i32, "
                     "any UTF-8 text of up to 2 bytes, JSON values of 9 shapes with 1 arbitrary byte; followed by a second message; "
                     "text split over reads of 1, 2, 3, 7 or 64 bytes",
            "thorough": "as quick, with any UTF-8 text of 3 or 4 bytes",
        },
        "outside": "longer fields, deeper JSON, floating point numbers, sequences of more than two messages",
        "runs": [
            L("vs_fr_rt_request", ["read"]), L("vs_fr_rt_notification", ["read"]), L("vs_fr_rt_result", ["read"]),
            L("vs_fr_rt_error", ["read"]), L("vs_fr_ids", ["read"]), L("vs_fr_dap_roundtrip", ["request", "event", "response"]),
            L("vs_fr_text", ["read"]), L("vs_fr_text4", ["read"], tier="thorough", shards=8), L("vs_fr_pieces", ["read"]),
        ],
    },
    "C02": {
        "bounds": {
            "quick": "streams of 12 arbitrary bytes (LSP and DAP readers); a body length of up to 20 arbitrary digits; any header name and value "
                     "of 3 bytes before or after the length, in any case; bodies of 3 arbitrary bytes, or of 2 arbitrary bytes inside an object, any escape "
                     "of a text and any pair of unicode escapes; "
                     "one message cut at any byte; allocation limit 8 MiB",
            "thorough": "as quick, with more digits and separators around the length, bodies of 4 arbitrary bytes, or of 3 inside an object",
        },
        "outside": "streams whose arbitrary part is longer; readers that fail in the middle; a stream that ends between two header lines",
        "runs": [
            L("vs_fr_any", ["eof", "error"], shards=2), L("vs_fr_any_dap", ["done"]), L("vs_fr_length", shards=4),
            L("vs_fr_length_more", tier="thorough", shards=4), L("vs_fr_header", ["read"]), L("vs_fr_cut"), L("vs_fr_body"), L("vs_fr_body_in"),
            L("vs_fr_escape"), L("vs_fr_body4", tier="thorough", shards=4), L("vs_fr_body_in3", tier="thorough", shards=4),
        ],
    },
    "C03": {
        "bounds": "every object with any subset of the fields id, method, params, result, error and two unknown ones, in several orders, with "
                  "arbitrary 1-byte numbers as values, ids all of i32 or any 2 ASCII bytes; every 3-byte body and every object around 2 arbitrary bytes; "
                  "every escape and every pair of unicode escapes in a text (thorough: 4-byte bodies, 3 bytes inside an object)",
        "outside": "bodies with more arbitrary bytes",
        "runs": [L("vs_fr_classify", ["request", "response", "notification", "refused"]), L("vs_fr_body"), L("vs_fr_body_in"), L("vs_fr_escape"),
                 L("vs_fr_body4", tier="thorough", shards=4), L("vs_fr_body_in3", tier="thorough", shards=4)],
    },
    "C04": {
        "bounds": "histories of 3 messages from the start of the server, or 2 after its handshake: requests whose method is any ASCII string of a "
                  "length the server knows a method of, any i32 id, good or bad parameters, notifications likewise, handlers that answer at once, "
                  "later, twice, never, fail or return what is no JSON; deferred answers completed in any order; any two responses racing for one request; "
                  "any executeCommand request with 1-byte arguments",
        "outside": "longer histories (thorough: 3 messages after the handshake); more than two requests pending at once; handlers that panic",
        "only": ["a request is answered", "at most one response", "carries the id", "has a result or an error", "has the result of its request",
                 "no response before", "never stops", "never answered", "only responses are sent", "right error code"],
        "runs": [
            L("vs_drv_start", ["initialized", "bad-initialize", "not-initialized", "end"], shards=4),
            L("vs_drv_ready", ["sync", "odd", "rejected", "deferred", "bad-params", "raw-none", "raw-twice", "unknown-method", "bad-command", "completed"], shards=2),
            L("vs_q_respond", ["sent", "dropped"]), L("vs_drv_more", ["sync"], tier="thorough", shards=8),
        ],
    },
    "C05": {
        "bounds": "histories of 3 messages from the start of the server, or 2 after its handshake, with any ASCII method of a length the server "
                  "knows a method of, any i32 id, good and bad parameters",
        "outside": "longer histories; the run loop's own reaction to a closed connection",
        "only": ["right error code", "serves exactly", "after the handshake", "told once", "a repeated handshake", "change the state",
                 "initialize is answered", "never stops", "registered notification handler", "registered handler ran", "carries its parameters"],
        "runs": [
            L("vs_drv_start", ["initialized", "bad-initialize", "not-initialized", "handshake"], shards=4),
            L("vs_drv_ready", ["twice-initialized", "after-shutdown", "shutdown", "notification"], shards=2),
            L("vs_drv_more", ["sync"], tier="thorough", shards=8),
        ],
    },
    "C06": {
        "bounds": {
            "quick": "two requests to the client followed by two responses whose ids are any of i32, with results or errors, handlers that ask again",
            "thorough": "as quick, and three requests with three responses",
        },
        "outside": "more outstanding requests; text ids",
        "runs": [L("vs_q_ask", ["asked", "answered", "unknown", "end"]), L("vs_q_ask_again", ["asked-again"]),
                 L("vs_q_ask_more", ["end"]), L("vs_q_pending", ["answered"])],
    },
    "C07": {
        "bounds": {
            "quick": "histories of 3 messages from the start of the adaptor, or 2 after initialize: any command of a known length, any i64 sequence "
                     "number, good and bad arguments, handlers that answer at once, later, twice or fail, deferred answers in any order, "
                     "client events and responses; events sent between",
            "thorough": "as quick, with 3 messages after initialize",
        },
        "outside": "longer histories",
        "runs": [
            L("vs_dap_start", ["initialized", "bad-initialize", "not-initialized", "event"]),
            L("vs_dap_ready", ["twice-initialized", "after-disconnect", "sync", "odd", "deferred", "bad-arguments", "raw-twice", "disconnect", "unknown-command", "completed", "own-event", "end"]),
            L("vs_dap_wide", ["end"]), L("vs_dap_events", ["end"]), L("vs_dap_more", ["end"], tier="thorough", shards=8),
        ],
    },
    "C08": {
        "bounds": "one executeCommand request: any command name of up to 24 ASCII bytes, 0 to 2 arguments of 1-byte values, malformed parameters; "
                  "one resource request: any path of one letter plus any suffix known, 0 to 3 arguments, malformed ones",
        "outside": "longer names and paths, more arguments",
        "runs": [L("vs_q_command", ["ran", "deferred", "malformed", "unknown"]), L("vs_q_resource", ["malformed", "ran", "unknown"])],
    },
    "C09": {
        "bounds": {
            "quick": "3 operations on the pending requests (register, complete, cancel in either direction) with any i32 ids; 4 with ids of a byte; "
                     "every operation of a client after its connection is gone",
            "thorough": "as quick",
        },
        "outside": "longer histories",
        "runs": [L("vs_q_pending", ["completed", "cancelled", "answered", "end"]), L("vs_q_pending4", ["end"]), L("vs_q_closed", ["end"])],
    },
    "C10": {
        "bounds": {
            "quick": "streams of 1 to 3 messages of any kind with the exit notification anywhere, malformed or clean ends, read in pieces of 3 or 64 "
                     "bytes; 3 messages from one sender, 2 from two concurrent ones; output that fails at any of 4 points; every interleaving "
                     "at the blocking operations and, for streams of up to 2 messages, with one preemption anywhere at an atomic operation",
            "thorough": "as quick, with two preemptions where that finishes",
        },
        "outside": "more messages, more preemptions, weak memory orders",
        "runs": [
            L("vs_io_read", ["end"], shards=4, args={"preempt": 1}, threads=True, thorough=dict(args={"preempt": 2}, shards=8)),
            L("vs_io_read3", ["end"], threads=True),
            L("vs_io_write", ["end"], args={"preempt": 1}, threads=True, thorough=dict(args={"preempt": 2}, shards=8)),
            L("vs_io_write2", ["end"], threads=True, thorough=dict(args={"preempt": 1}, shards=8)),
            L("vs_io_write_fail", ["end"], args={"preempt": 1}, threads=True, thorough=dict(args={"preempt": 2}, shards=4)),
        ],
    },
    "C11": {
        "bounds": "three internal events of any types mixed with messages at every lifecycle stage, one handler failing",
        "outside": "more events; events posted from other threads",
        "runs": [L("vs_q_events", ["uninitialized", "initializing", "ready", "shut down", "events"])],
    },
    "C12": {
        "bounds": "files of 5 arbitrary bytes, of 4 or 5 in a section, around a line or around the equal sign; 4 arbitrary bytes in a message; "
                  "files of two sections with a key of up to 3 bytes and a value of any 3 printable bytes, five kinds of comments and blank lines, "
                  "three of spacing, both line ends; quoted messages of any 1 to 3 bytes of UTF-8; updates of two messages in every state; a file of 5 shapes, or none, updated in place with one call that fails",
        "outside": "longer texts; files whose English message spans lines; a kill while the file is written (it is a tool of the developers and writes in place); parallel parsing on more than one thread",
        "assumptions": [ONE_HASH, DISK, "rayon runs the jobs on one thread"],
        "runs": [
            N("vs_l_any", ["file", "error"], shards=2), N("vs_l_any_load", ["file", "error"]), N("vs_l_file", ["read"]),
            N("vs_l_value", ["loaded"]), N("vs_l_update", ["updated"]), N("vs_l_disk", ["updated", "failed"]),
        ],
    },
    "C13": {
        "bounds": "messages of 8 arbitrary bytes of UTF-8, of 5 or 4 around placeholders, two arguments; integer arguments of a byte and the extremes of i64, "
                  "text arguments of 2 bytes; three locales, keys of 2 bytes, locale names of up to 6 ASCII bytes",
        "outside": "longer messages; floating point arguments; several languages that match one locale",
        "assumptions": [ONE_HASH],
        "runs": [
            N("vs_l_text", ["replaced", "kept"]), N("vs_l_text_more", ["replaced", "kept"]), N("vs_l_args", ["shown"]),
            N("vs_l_lookup", ["looked up"]), N("vs_l_locale", ["known", "unknown"]), N("vs_l_bail", ["failed"]),
        ],
    },
    "C14": {
        "bounds": {
            "quick": "every ASCII path text of up to 6 bytes (9 for the slashed form), names of any bytes, every pair of path texts of up to 4 bytes, "
                     "lists of up to 2 paths of up to 2 bytes",
            "thorough": "as quick, and every pair of path texts of up to 5 bytes",
        },
        "outside": "longer paths; Windows path syntax (drive letters, UNC, backslashes)",
        "assumptions": [ONE_HASH, MEMO],
        "runs": [
            T("vs_p_slash", ["written"]), T("vs_p_slash_more", ["written"]), T("vs_p_slash_text", ["text", "no text"]),
            T("vs_p_clean", ["normalized", "above"]), T("vs_p_diff", ["some", "none"]),
            T("vs_p_diff_more", ["some", "none"], tier="thorough", shards=4),
            T("vs_p_ancestors", ["stopped", "walked"]), T("vs_p_bytes", ["same"]), T("vs_p_join", ["joined", "refused"]),
        ],
    },
    "C15": {
        "bounds": {
            "quick": "every fingerprint with one 64-bit half arbitrary and the other one of a few; every text of up to 11 bytes, or longer with one "
                     "arbitrary byte; up to 3 items of two types with 1-byte contents, made one after another or by two threads with one preemption at "
                     "an atomic operation; maps with any number of shards a 64-bit machine can ask for, two fingerprints with arbitrary bytes",
            "thorough": "as quick, with both halves arbitrary and two preemptions",
        },
        "outside": "more items, longer ones",
        "assumptions": [ONE_HASH, SIP, FX, MEMO],
        "runs": [
            T("vs_f_text", ["read"]), T("vs_f_text_more", ["read"], tier="thorough"), T("vs_f_serde", ["stored"]),
            T("vs_f_any_text", ["read", "refused"]), T("vs_f_long_text", ["read", "refused"]),
            T("vs_f_resolve", ["made"]), T("vs_f_resolve_bi", ["made"]), T("vs_f_unchecked", ["made"]),
            T("vs_f_unchecked_bi", ["made", "collision"]), T("vs_f_hash", ["hashed"]),
            T("vs_f_race", ["made"], **RACE), T("vs_f_race_bi", ["made"], **RACE), T("vs_f_race_unchecked_bi", ["made"], **RACE),
            T("vs_f_map", ["put"]), T("vs_f_map_new", ["made"]), T("vs_f_map_default", ["made"]), T("vs_f_map_race", ["put"], **RACE),
        ],
    },
    "C16": {
        "bounds": "two threads asking for one query that succeeds or fails, with any 1-byte context, and one preemption (thorough: two) at an atomic "
                  "operation; one holder, or two on two threads, taking a value; a borrowed or an owned value written through",
        "outside": "more threads, weak memory orders",
        "assumptions": [ONE_HASH, MEMO],
        "runs": [
            T("vs_m_query", ["computed"], **RACE), T("vs_m_query_more", ["computed"]),
            T("vs_m_take", ["alone", "shared"], **RACE), T("vs_m_cow", ["owned", "borrowed"]),
        ],
    },
    "C17": {
        "bounds": "errors with any message of a byte, up to 2 arguments, with or without a location; bytes of up to 4, texts of up to 5 as stored bytes; "
                  "diagnostics with any severity and any 32-bit positions; seconds near the borders of the calendar, of the epoch and of i64, or any far away",
        "outside": "longer messages and byte strings",
        "assumptions": [ONE_HASH, MEMO],
        "runs": [
            T("vs_m_error", ["told", "nothing to tell"]), T("vs_m_context", ["ok", "failure"]), T("vs_m_bail", ["failed"]),
            T("vs_m_bytes", ["stored"]), T("vs_m_bytes_any", ["read", "refused"]), T("vs_m_diag", ["stored"]), T("vs_m_severity", ["severity"]),
            T("vs_m_unix", ["time", "refused"]), T("vs_m_system_time", ["time", "refused"]),
        ],
    },
    "C18": {
        "bounds": {
            "quick": "any content of up to 2 bytes over any content of up to 2 bytes (or a missing file) with any permissions; up to 2 faults in any "
                     "of the calls (an error, an interruption, a short transfer, the process killed before the call or after any byte of a write); the target a file, a link, a "
                     "dangling link, a directory, in a missing or closed directory; two processes writing at once, one perhaps killed, with up to 1 preemption beside blocking",
            "thorough": "as quick, with up to 3 bytes, 3 faults and 2 preemptions",
        },
        "outside": "power loss (no call asks for the disk to be flushed); Windows and macOS; longer contents and paths",
        "assumptions": [DISK],
        "runs": [
            F("vs_a_write", ["written", "failed", "killed"]), F("vs_a_write_more", ["written", "failed", "killed"], tier="thorough"),
            F("vs_a_write_odd", ["written", "failed"]), F("vs_a_write_two", ["both", "one"], **RACE),
            F("vs_a_inplace", ["written", "failed", "same"]), F("vs_a_read", ["read", "failed"]), F("vs_a_copy", ["copied"]),
            F("vs_a_temp_dir", ["gone"]), F("vs_a_excluded", ["made"]), F("vs_a_excluded_two", ["made"], **RACE),
        ],
    },
    "C19": {
        "bounds": "a directory with up to 2 entries of 9 kinds (files, closed files, directories with files or links in them, closed directories, links "
                  "to files, to directories and to nothing outside), itself perhaps closed; files, links and directories with open or closed permissions outside; "
                  "one call that fails anywhere; a locked file at any place among its siblings; destinations of any of these kinds",
        "outside": "another process that changes the tree meanwhile; relative sources of links to directories; deeper trees; Windows",
        "assumptions": [DISK],
        "runs": [F("vs_r_tree", ["removed", "failed"], shards=4), F("vs_r_odd", ["removed"]), F("vs_r_siblings", ["gone"], shards=4),
                 F("vs_r_link", ["file", "dir", "failed"]), F("vs_r_canon")],
    },
    "C20": {
        "bounds": {
            "quick": "two processes, each locking in any of the 5 ways, with up to 1 preemption beside blocking; every pair of a holder and one who tries, the holder ending or killed; "
                     "every error of the calls for locks, up to 2 of them; a file, its directory or neither there",
            "thorough": "as quick, with 2 preemptions, and three processes with 1",
        },
        "outside": "more processes; waiting that is interrupted by a signal; Windows and Solaris",
        "assumptions": [DISK],
        "runs": [F("vs_l_race", ["done"], **RACE), F("vs_l_race3", ["done"], tier="thorough", threads=True, args={"preempt": 1}, shards=4), F("vs_l_try", ["done"]),
                 F("vs_l_errors", ["locked", "without", "unsupported", "error"]), F("vs_l_open", ["made", "failed"]), F("vs_l_io")],
    },
    "C21": {
        "bounds": {
            "quick": "2 changes of 11 kinds (shadow a path or an id, take a shadow away, news from the watcher, several at once, eviction, resets), each with any byte as the content or "
                     "none, of 2 files with 4 ids, with reads anywhere between; a snapshot at any point; a snapshot that reads while one change is made, with up to 1 preemption; "
                     "a resetting after any change; sources of a snapshot and of what follows it, with their cache evicted, taken or kept; contents of up to 4 arbitrary bytes read as text",
            "thorough": "as quick, with 3 changes, and 2 preemptions",
        },
        "outside": "more changes, more than one snapshot, more threads, weak memory orders; the parser of typst",
        "assumptions": [ONE_HASH, MEMO, TYPST],
        "runs": [
            V("vs_v_read", ["read"]), V("vs_v_read_more", ["read"], tier="thorough", shards=8), V("vs_v_source", ["read"]), V("vs_v_reset", ["reset"]), V("vs_v_sources", ["read"], shards=2),
            V("vs_v_snap", ["read"], shards=4), V("vs_v_snap_more", ["read"], tier="thorough", shards=8), V("vs_v_race", ["read"], **RACE),
        ],
    },
    "C22": {
        "bounds": "one compilation that reads one of 4 ids at once or after a change, and 2 changes of 11 kinds with any byte or none as content; the same while it reads, with up "
                  "to 1 preemption (thorough: 2); 3 changes around a compilation that read every id",
        "outside": "more changes, more threads, weak memory orders",
        "assumptions": [ONE_HASH, MEMO, TYPST],
        "runs": [V("vs_v_clean", ["clean", "dirty"], shards=4), V("vs_v_clean_race", ["dirty"], **RACE), V("vs_v_harmless", ["clean"], shards=2)],
    },
    "C23": {
        "bounds": "roots of up to 4 characters out of `/`, `.`, `a`, `b`, two at a time and each twice; virtual paths of up to 5 such characters, below three roots, packages that "
                  "exist or not, and none; package names of up to 6 arbitrary ASCII characters, namespaces of 2 or that begin like a workspace's; two threads that ask for roots, with up to 1 preemption (thorough: 2)",
        "outside": "longer paths, other characters, Windows; links in the file system (paths are compared as text)",
        "assumptions": [ONE_HASH, TYPST],
        "runs": [V("vs_p_intern", ["one", "two"]), V("vs_p_inside", ["inside", "rootless", "refused"], shards=2), V("vs_p_package", ["workspace", "found", "unknown"]),
                 V("vs_p_alone", ["file", "none"]), V("vs_p_race", ["done"], **RACE)],
    },
    "C24": {
        "bounds": {
            "quick": "2 steps out of: one of 5 changes of a file (written, emptied, removed or renamed, replaced, permissions), 2 changes at once, files asked for again, news from "
                     "upstream, 20 or 60 ms pass; 4 steps of one file that flickers; 2 sets of files asked for in turn; 40 updates without one of the files",
            "thorough": "as quick, with 3 steps, and every order in which the messages of one moment arrive; 3 sets of files",
        },
        "outside": "watchers other than inotify, whose behaviour the stand-in follows (a watch is lost with its file); a watcher that loses events; longer histories",
        "assumptions": [DISK, ONE_HASH, TYPST],
        "runs": [V("vs_w_watch", ["seen", "unseen", "later"], shards=2), V("vs_w_watch_more", ["seen", "unseen", "later"], tier="thorough", shards=8),
                 V("vs_w_flicker", ["seen"]), V("vs_w_deps", ["seen"]), V("vs_w_deps_more", ["seen"], tier="thorough", shards=8), V("vs_w_old", ["seen"])],
    },
    "C25": {
        "bounds": {
            "quick": "texts of up to 3 characters (any ASCII letter, line feeds, carriage returns, characters of 2, 3 and 4 bytes); every offset at a character; every position (line and "
                     "column any number of 32 bits); both encodings; files of any such text with either line end, and offsets past their end",
            "thorough": "as quick, with 4 characters",
        },
        "outside": "longer texts; the other line ends of typst (form feed, NEL, ...), which the protocol does not know; offsets within a character",
        "assumptions": [SYNTAX],
        "runs": [Q("vs_q_offsets", ["narrow", "wide"]), Q("vs_q_offsets_more", ["narrow", "wide"], tier="thorough"), Q("vs_q_positions", ["exact", "within"]),
                 Q("vs_q_positions_more", ["exact", "within"], tier="thorough"), Q("vs_q_ranges", ["range"]), Q("vs_q_places", ["narrow", "wide"])],
    },
    "C26": {
        "bounds": {
            "quick": "documents of 2 things, one of them with something within, of 3 flat things, and one thing within two others: words, numbers, comments and raw texts of several "
                     "lines, wide characters, strong and emphasized texts, headings; both encodings; clients that know tokens of several lines and those that do not; a leaf of any kind "
                     "in a node of any kind; names of every kind of thing",
            "thorough": "as quick, with two nested things",
        },
        "outside": "the parser of typst and the analysis of expressions, which say what a leaf or a name is; larger documents",
        "assumptions": [SYNTAX, ONE_HASH],
        "runs": [Q("vs_q_tokens", ["few", "several"], shards=2), Q("vs_q_tokens_flat", ["several"]), Q("vs_q_tokens_deep", ["several"]),
                 Q("vs_q_tokens_more", tier="thorough", shards=8), Q("vs_q_token_types", ["several"]), Q("vs_q_token_hash"), Q("vs_q_token_names", ["names"]),
                 Q("vs_q_legend", ["legend"])],
    },
    "C27": {
        "bounds": {
            "quick": "any two documents of up to 3 tokens of 3 kinds; histories of 6 steps with one file or 5 with two: questions for all or for a change since one of the last two results, up to "
                     "2 under way at once, answers in any order, taken or lost, cancellations, cleared caches; previous ids of up to 2 arbitrary ASCII characters; tasks left to run at once or late",
            "thorough": "as quick, with 4 tokens and 8 steps",
        },
        "outside": "longer histories; requests answered at the same moment by two threads",
        "assumptions": [SYNTAX, ONE_HASH, MEMO],
        "runs": [Q("vs_q_edits", ["edit"]), Q("vs_q_edits_more", ["edit"], tier="thorough", shards=2), Q("vs_q_histories", ["asked", "cancelled", "cleared", "edited", "whole"]),
                 Q("vs_q_histories_files", ["asked", "cancelled", "cleared", "edited", "whole"]),
                 Q("vs_q_histories_more", ["asked", "cancelled", "cleared", "edited", "whole"], tier="thorough", shards=8), Q("vs_q_foreign", ["foreign"])],
    },
    "C28": {
        "bounds": {
            "quick": "histories of 6 steps with two files and 7 with one: snapshots taken of the same or of changed files, queries that begin, ask and end in any order, up to 3 at once; a cleared cache; "
                     "tasks left to run at once or late",
            "thorough": "as quick, with 9 steps",
        },
        "outside": "longer histories; two threads that ask at the same moment; what the analyses compute",
        "assumptions": [SYNTAX, ONE_HASH, MEMO],
        "runs": [Q("vs_q_revisions", ["asked", "ended", "first", "reused", "shared"], shards=2), Q("vs_q_revisions_one", ["asked", "ended", "first", "reused", "shared"], shards=4),
                 Q("vs_q_revisions_more", ["asked", "ended", "first", "reused", "shared"], tier="thorough", shards=8)],
    },
    "C29": {
        "bounds": {
            "quick": "one project, a main file that imports another or does not yet; after it came to rest, 4 steps of: an edit of the main file that adds or drops the import, an edit, a faulty edit or the closing of the imported one, "
                     "a write, a faulty write or a removal on the disk, an end of a compilation, an event handled, a message handled by the watcher; or 4 of edits and writes with all coming to rest between some of them; or 5 steps with openings, closings, saves and memory events sent anew; or 5 steps about why a "
                     "document is given out",
            "thorough": "as quick, with 5 and 6 steps",
        },
        "outside": "longer histories; the compiler of typst; what an export does with a document; the watcher, beyond what C24 shows it promises",
        "assumptions": [PROJECT, ONE_HASH],
        "runs": [J("vs_pr_edit", ["end"], shards=6), J("vs_pr_fault", ["end"], shards=3), J("vs_pr_fault_more", ["end"], tier="thorough", shards=8), J("vs_pr_close", ["end"], shards=2), J("vs_pr_reason", ["end"]),
                 J("vs_pr_edit_more", ["end"], tier="thorough", shards=8), J("vs_pr_close_more", ["end"], tier="thorough", shards=4)],
    },
    "C30": {
        "bounds": {
            "quick": "after a project came to rest, 4 steps of: edits, faulty edits, faulty writes of an imported file, changes of the main file (to another, or to none), ends of compilations and of lints in any order of two, events handled, "
                     "diagnostics sent to the editor; lints as the text changes or when it is saved; 3 steps with two projects that share a faulty import",
            "thorough": "as quick, with 5 steps",
        },
        "outside": "longer histories; the text of a diagnostic beyond its file and message; what lints find",
        "assumptions": [PROJECT, ONE_HASH],
        "runs": [J("vs_pr_main", ["end"], shards=4), J("vs_pr_share", ["end"], shards=2), J("vs_pr_share_more", ["end"], tier="thorough", shards=4), J("vs_pr_lint", ["end"], shards=2),
                 J("vs_pr_main_more", ["end"], tier="thorough", shards=8), J("vs_pr_lint_more", ["end"], tier="thorough", shards=4)],
    },
    "C31": {
        "bounds": {
            "quick": "after a project came to rest, 4 steps of: a second project started or started again with either of two main files, settled, asked to compile; all projects started anew; edits, faulty edits; ends of compilations "
                     "in any order of two, events handled, messages handled by the watcher; 3 steps with two projects that share a faulty import",
            "thorough": "as quick, with 5 steps (3 for the shared import)",
        },
        "outside": "longer histories; more than two projects",
        "assumptions": [PROJECT, ONE_HASH],
        "runs": [J("vs_pr_side", ["end"], shards=4), J("vs_pr_share", ["end"], shards=2), J("vs_pr_reload", ["end"], shards=2),
                 J("vs_pr_side_more", ["end"], tier="thorough", shards=8), J("vs_pr_reload_more", ["end"], tier="thorough", shards=4)],
    },
    "C32": {
        "bounds": {
            "quick": "texts of 2 characters, each any ASCII letter, LF, CR, of 3 bytes or of 4 bytes, one change of any range (also beyond the ends of lines and of the text, by up to 1000 columns) or of the whole by one character of these; "
                     "texts of 1 character with 2 changes, in one message or in two; both encodings; 3 openings, closings, changes of 2 documents and events in any order; URLs of file names of 1 printable ASCII character or an accented one, "
                     "with or without a file; 6 URLs of other kinds",
            "thorough": "as quick, with texts of 3 characters (2 with 2 changes), 4 steps, and names of 3 characters",
        },
        "outside": "longer texts; the incremental parser behind the text of a source; paths of other systems",
        "assumptions": [PROJECT, ONE_HASH],
        "runs": [J("vs_doc_change", ["changed", "wrong"], shards=2), J("vs_doc_changes", ["changed", "wrong"]), J("vs_doc_open", ["end"]), J("vs_doc_url", ["end"]), J("vs_doc_foreign", ["end"]),
                 J("vs_doc_change_more", ["changed", "wrong"], tier="thorough", shards=8), J("vs_doc_changes_more", ["changed", "wrong"], tier="thorough", shards=4),
                 J("vs_doc_open_more", ["end"], tier="thorough", shards=2), J("vs_doc_url_more", ["end"], tier="thorough")],
    },
    "C33": {
        "bounds": {
            "quick": "histories of 4 steps (3 with what comes of them compiled) of: two files pinned, focused by command, opened, looked at, or none; previews of the primary project that browse or not begin and end; with or without a default file in "
                     "the settings. 6 files in and beside 4 lists of roots, with none or one of 2 root paths, and any of their directories a package that may cease to be one; default files, absolute or relative",
            "thorough": "as quick, with 5 (4) steps",
        },
        "outside": "longer histories; lock files; a directory that becomes a package after the server looked",
        "assumptions": [PROJECT, ONE_HASH],
        "runs": [J("vs_main_which", ["end"], shards=4), J("vs_main_result", ["end"], shards=3), J("vs_main_root", ["again"]), J("vs_main_default", ["end"]),
                 J("vs_main_which_more", ["end"], tier="thorough", shards=8), J("vs_main_result_more", ["end"], tier="thorough", shards=8)],
    },
    "C34": {
        "bounds": {
            "quick": "sources of up to 3 characters formatted to texts of up to 2, each any ASCII character, LF, CR or an accented one; sources and formatted texts of up to 4 characters that begin and end alike, of 7 characters of 1 to 4 bytes that "
                     "have bytes in common; both encodings and both formatters; one change of the settings",
            "thorough": "as quick, with formatted texts of 3 characters",
        },
        "outside": "longer texts; what the formatters do; line ends other than LF, CR and CRLF",
        "assumptions": [TASK, ONE_HASH],
        "runs": [X("vs_fmt_edit", ["formatted"]), X("vs_fmt_wide", ["formatted"]), X("vs_fmt_mutual", ["formatted"]), X("vs_fmt_off", ["on", "off"]),
                 X("vs_fmt_edit_more", ["formatted"], tier="thorough", shards=4)],
    },
    "C35": {
        "bounds": {
            "quick": "one document of any of 4 settings, signals and kinds; two projects, 6 steps of: a compilation of either (also faulty), a turn of the runtime, an end of a blocking task; the same with the runtime going on at once and any of 3 blocking tasks ending; one project, 5 steps with changes of the settings; "
                     "4 steps of counts of words; two exports with one failure (or part) of any write, creation, renaming or making of a directory",
            "thorough": "as quick, with 8 steps",
        },
        "outside": "longer histories; more than two projects; what the exporters do; several files per document",
        "assumptions": [TASK, DISK, ONE_HASH],
        "runs": [X("vs_ex_when", ["exported", "left"]), X("vs_ex_fold", ["end"], shards=2), X("vs_ex_race", ["end"]), X("vs_ex_race_more", ["end"], tier="thorough", shards=6), X("vs_ex_config", ["asked"]), X("vs_ex_count", ["end"]), X("vs_ex_fault", ["failed", "written"]),
                 X("vs_ex_fold_more", ["end"], tier="thorough", shards=8)],
    },
    "C36": {
        "bounds": {
            "quick": "patterns of up to 3 pieces out of: each of the 3 variables, a separator, any lower-case letter, two dots, a dollar, a part of a variable; 4 roots and main files, also with variables in their names (2 for 3 pieces); entries "
                     "without a root or a main file; exports of 8 kinds with 8 patterns, and the first page or all",
            "thorough": "as quick, with 4 pieces and all roots and main files",
        },
        "outside": "longer patterns; other systems' paths; links",
        "assumptions": [TASK, DISK, ONE_HASH],
        "runs": [X("vs_path_pattern", ["filled"]), X("vs_path_export", ["none"]), X("vs_ex_where", ["exported", "refused"]), X("vs_path_pattern_more", ["filled"], tier="thorough", shards=2)],
    },
    "C37": {
        "bounds": {
            "quick": "texts of up to 3 of the characters 0, 1, 2, 9, -, space, +, x for ranges of pages; all ranges of pages up to 255 with or without a start and an end; paths of up to 3 characters, each any ASCII character or an accented one, "
                     "as user paths, files of a project and files of a package; stored ones of up to 1 character; two resources of up to 2 characters each, or 1 behind a start that looks like that of another kind; 3 directories to be stored in",
            "thorough": "as quick, with texts of 5 characters, paths of 4, stored ones of 2",
        },
        "outside": "longer texts; paths of other systems; paths that are no Unicode",
        "assumptions": [TASK, DISK, ONE_HASH],
        "runs": [X("vs_pages", ["range", "refused"]), X("vs_pages_all", ["range"]), X("vs_res_text", ["resource"]), X("vs_res_stored", ["stored"]), X("vs_res_place", ["place"]), X("vs_res_ids", ["same", "other"]),
                 X("vs_pages_more", ["range", "refused"], tier="thorough"), X("vs_res_text_more", ["resource"], tier="thorough"), X("vs_res_stored_more", ["stored"], tier="thorough"),
                 X("vs_res_place_more", ["place"], tier="thorough")],
    },
    "C38": {
        "bounds": {
            "quick": "3 updates, each of one of 2 documents, tasks or routes, or one that fails; every kind of task with every kind of transform, with and without what is optional, before a second task; any ASCII character in an input of a document, an id and a selector; "
                     "10 files of this and other versions and of none, 2 ways to ask for a file that is being updated; 2 main files with 3 current directories, beside another document or none",
            "thorough": "as quick, with 4 updates and texts of 2 characters",
        },
        "outside": "longer histories and texts; a machine that fails while the file is written (the code says that what is there may be lost); other file systems",
        "assumptions": [LOCK, DISK, ONE_HASH],
        "runs": [K("vs_lock_keep", shards=4), K("vs_lock_task", shards=2), K("vs_lock_text"), K("vs_lock_version", ["read", "refused"]), K("vs_lock_held"), K("vs_lock_commit"),
                 K("vs_lock_keep_more", shards=8, tier="thorough"), K("vs_lock_text_more", tier="thorough")],
    },
    "C39": {
        "bounds": {
            "quick": "2 updates of 2 documents below 3 directories (one inside another), each of what a document was compiled from (5 sets of 4 files), of its route, or both, with each file asked for, twice; in memory, 2 changes (of what is written down, of what was compiled, or none) between the first question and the last; "
                     "up to 2 compilations of 2 documents with 3 sets of files, 3 current directories, 6 configurations, 6 files",
            "thorough": "as quick, with 3 updates and 3 changes",
        },
        "outside": "longer histories; routes of different priorities; files of packages; lock files that change without the server being told",
        "assumptions": [LOCK, DISK, ONE_HASH],
        "runs": [K("vs_route_of", ["found", "none"], shards=2), K("vs_route_kept", ["asked", "changed", "end"]), K("vs_route_main", ["document", "alone"], shards=4),
                 K("vs_route_of_more", ["found", "none"], shards=8, tier="thorough"), K("vs_route_kept_more", ["asked", "changed", "end"], shards=8, tier="thorough")],
    },
}
