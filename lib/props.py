#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the texts here."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
S = "crates/sync-lsp/src/"
N = "crates/tinymist-l10n/src/lib.rs "
D = "crates/tinymist-std/src/"
V = "crates/tinymist-vfs/src/"
Q = "crates/tinymist-query/src/"
W = "crates/tinymist-project/src/watch.rs"
M = "crates/tinymist/src/"
J = "crates/tinymist-project/src/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe="", claim=True, note=""):
    return dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=[observe], hook_needed=None),
        _claim=claim, _note=note)


PROPS = [
    P("C01", "A message survives the wire unchanged",
      "Every protocol message that is written to a byte stream is read back from it as the same message, with every field that it carried, "
      "whatever its text, ids, numbers or values are. The header that is written announces exactly the length of the body, so that reading one message "
      "consumes exactly its bytes and the next message in the stream is read intact. This holds for the language server protocol and the debug adapter protocol, "
      "and however the stream splits the bytes into pieces.",
      ["inputs"], "every message of every kind with arbitrary field contents, followed by any other message, delivered in pieces of any size",
      "No test writes a message and reads it back; the space of ids, strings (escapes, control characters) and JSON values is unbounded.",
      [S + "msg.rs", S + "lsp.rs", S + "dap.rs"],
      [("message framing: header with the body length", S + "msg.rs write_msg_text / read_msg_text"),
       ("message (de)serialization", S + "lsp.rs Message::write / Message::read"),
       ("DAP (de)serialization", S + "dap.rs Message")],
      observe="the bytes written and the message read back"),
    P("C02", "No byte stream crashes or confuses the message reader",
      "Reading from any byte stream ends with a message, a clean end of stream or an error: it never crashes and never asks for memory that a header merely announces beyond what can be had. "
      "A message that is cut short, has no length or is no message is never delivered, and a stream that ends inside a header line or inside a body is an error rather than a clean end. "
      "Unknown headers, in any letter case and on either side of the length, do not change what is read.",
      ["inputs", "fault_sequences"], "every stream of bytes, every header, every announced length, every point at which a stream may be cut",
      "There is no test of malformed input; the input space is every byte string, and the harmful ones (huge or non-numeric lengths, early ends) are rare in it.",
      [S + "msg.rs", S + "lsp.rs", S + "dap.rs"],
      [("header parsing and length handling", S + "msg.rs read_msg_text"), ("malformed bodies", S + "lsp.rs Message::read"), ("malformed DAP bodies", S + "dap.rs")],
      observe="the result of reading"),
    P("C03", "A message is what its fields say it is",
      "An incoming object with a method and an id is a request, with a method and no id a notification, with an id and no method a response, and with neither it is refused. "
      "The classification does not depend on the order of the fields or on unknown ones, and the message keeps the id (a 32-bit integer or a text), method, parameters, result and error it came with.",
      ["inputs"], "every set and order of fields, every value of the ids, parameters, results and error codes",
      "No test feeds an object with unusual field sets or orders; the order-dependent decoding of untagged variants only shows on particular combinations.",
      [S + "lsp.rs"],
      [("untagged decoding of requests, responses and notifications", S + "lsp.rs Message / Request / Response / Notification")],
      observe="the message that is read"),
    P("C04", "Every client request is answered exactly once",
      "Every request the client sends gets exactly one response, and that response carries the id of the request and either a result or an error. "
      "This holds whether the request is handled at once or later, is unknown, has malformed parameters, fails, or comes before the handshake or after the shutdown, and in whatever order deferred answers complete. "
      "Notifications are never answered, and no request stops the server.",
      ["histories", "inputs"], "every sequence of requests, notifications and completions of deferred answers, with any methods, ids and parameters",
      "The tests start no server; the guarantee is over all histories of messages and all orders of completion.",
      [S + "server.rs", S + "server/lsp_srv.rs", S + "req_queue.rs"],
      [("request dispatch and error answers", S + "server/lsp_srv.rs on_request / on_lsp_request"),
       ("scheduling of deferred answers", S + "server.rs schedule_tail / respond"),
       ("pending requests", S + "req_queue.rs Incoming")],
      [("pending requests", "requests received and not yet answered", S + "req_queue.rs Incoming.pending")],
      observe="the messages sent to the client"),
    P("C05", "The server follows the protocol's lifecycle",
      "Before initialization every request but the initialization is refused as not initialized, the initialization is accepted once, the server serves requests only between the handshake and the shutdown, and after the shutdown every request is refused as invalid. "
      "Only the handshake and the shutdown change that state, a malformed initialization does not, and the service is told of the handshake exactly once. "
      "Within the serving state exactly the handler registered for a method runs, with the parameters of the message.",
      ["histories", "inputs"], "every sequence of requests and notifications with any methods, ids and parameters, from the start of the server or after its handshake",
      "The tests start no server; a wrong transition only shows on particular histories (a second initialization, a notification before the handshake, a request after the shutdown).",
      [S + "server/lsp_srv.rs", S + "server.rs"],
      [("lifecycle transitions", S + "server/lsp_srv.rs LspDriver::on_request / on_notification"), ("state", S + "server.rs State")],
      [("lifecycle state", "uninitialized, initializing, ready or shutting down", S + "server.rs State")],
      observe="responses, which handlers ran, and whether the server serves"),
    P("C06", "A response from the client reaches the asker exactly once",
      "Every request the server sends to the client has an id no other request of the server ever has, and is sent as it was asked. "
      "The handler of a request runs exactly once, with the first response that carries its id, and never before it. "
      "A response whose id belongs to no outstanding request is ignored and leaves the others alone.",
      ["histories", "inputs"], "every sequence of requests to the client and responses with any ids, including repeated and unknown ones and handlers that ask again",
      "No test sends a request to the client; the hazards are repeated, unknown and out-of-order ids.",
      [S + "server.rs", S + "req_queue.rs", S + "server/lsp_srv.rs"],
      [("sending and completing requests to the client", S + "server.rs send_lsp_request_ / complete_lsp_request"), ("outgoing registry and id source", S + "req_queue.rs Outgoing")],
      [("outgoing requests", "requests to the client not yet answered", S + "req_queue.rs Outgoing.pending")],
      observe="messages sent and handler invocations"),
    P("C07", "The debug adapter answers every request under its number",
      "Every request the debug adapter receives gets exactly one response that carries the sequence number of the request, whatever that number is, and says whether it succeeded. "
      "The adapter refuses requests before initialization and after disconnecting, initializes once, and serves exactly in between. "
      "Events it sends go out as given, under sequence numbers that are never reused, and events or responses from the client are never answered.",
      ["histories", "inputs"], "every sequence of requests, events, responses and completions of deferred answers, with any commands, sequence numbers and arguments",
      "The tests start no debug adapter; the guarantee is over all histories and all 64-bit sequence numbers.",
      [S + "server/dap_srv.rs", S + "server.rs", S + "dap.rs"],
      [("request dispatch and lifecycle", S + "server/dap_srv.rs on_request / on_dap_request"), ("responses", S + "server.rs complete_dap_request / respond_dap"), ("events", S + "server.rs send_dap_event")],
      [("lifecycle state", "uninitialized, ready or shutting down", S + "server.rs State")],
      observe="the messages sent to the client"),
    P("C08", "Commands and resources run exactly when they are registered",
      "A command request runs exactly the command registered under its name, with the arguments it came with, and is answered with what that command returns or fails with. "
      "The same holds for resource requests and the path they name. "
      "An unknown name is answered as method not found and malformed arguments, or missing ones, as invalid parameters; neither stops the server.",
      ["inputs"], "every command name, resource path and argument list, including missing and malformed ones",
      "The tests call no command; missing arguments and unusual paths only show for particular inputs.",
      [S + "server/lsp_srv.rs", S + "server.rs"],
      [("command dispatch", S + "server/lsp_srv.rs on_execute_command"), ("resource dispatch", S + "server.rs get_resources")],
      observe="the response and which command ran"),
    P("C09", "The bookkeeping of pending requests is exact",
      "A request is pending exactly from its registration to its completion or cancellation, each of which happens at most once and yields what was registered. "
      "A cancelled request is answered as cancelled under its own id, and completing or cancelling what is not pending changes nothing. "
      "Once the connection is gone, everything a client handle is asked for is harmless.",
      ["histories", "inputs"], "every sequence of registrations, completions and cancellations in both directions with any ids",
      "The only tests of the queue are none; repeated ids, double completion and cancellation of unknown ids are histories, not samples.",
      [S + "req_queue.rs", S + "server.rs"],
      [("pending requests of both directions", S + "req_queue.rs Incoming / Outgoing"), ("weak client handles", S + "server.rs LspClient / LspClientRoot")],
      [("pending", "requests registered and not completed", S + "req_queue.rs")],
      observe="what completing returns, what is sent, whether something is pending"),
    P("C10", "Messages cross the transport once, whole and in order",
      "Every message in the input reaches the server once and in order, up to the exit notification, the end of the input or a malformed message, and exactly a malformed stream is reported as an error. "
      "Every message the server sends is written once, whole and flushed before the writer finishes, with the messages of one sender in order. "
      "A failing output is reported and never leaves a sender waiting forever.",
      ["schedules", "inputs", "fault_sequences"], "every interleaving of the server, reader and writer threads within the bounds, every message kind, and every point at which the output may fail",
      "No test starts the threads; losing or reordering a message needs a particular interleaving.",
      [S + "transport.rs", S + "msg.rs"],
      [("reader and writer threads over rendezvous channels", S + "transport.rs io_transport"), ("joining", S + "transport.rs IoThreads")],
      observe="what arrives at the server, the bytes written, and the result of joining the threads"),
    P("C11", "Internal events run their handlers once and in order",
      "Each event posted inside the server runs exactly the handler registered for its type, once, in the order the events were posted, and after the client messages that were already waiting. "
      "An event nobody handles is dropped, and the handler sees whether the server is serving. "
      "Exactly a failing handler stops the server, and none runs after the shutdown.",
      ["histories", "inputs"], "every sequence of posted events of any types and values at every stage of the lifecycle",
      "No test posts an event; dispatch by type and the order between the two queues need particular histories.",
      [S + "server.rs", S + "server/lsp_srv.rs"],
      [("event dispatch by type", S + "server.rs with_event / send_event"), ("the loop over both queues", S + "server/lsp_srv.rs start_")],
      observe="the order of handler runs and the result of the loop"),
    P("C12", "Translation files keep what translators wrote",
      "A translation file says exactly what its sections and lines say, whatever the spacing, line ends, comments and blank lines in it, and messages are loaded as they were quoted. "
      "Updating it with the messages of the program keeps every translation of a message that is still used, replaces its English text, and drops the others; what is written is read back as the same table, "
      "and does not depend on the order the messages came in. A text that is no translation file is an error, never a crash, and a file that cannot be read is not written over.",
      ["inputs"], "every file text, key, language, message and set of used messages",
      "The library has no tests; quoting, spacing and unusual keys only matter for particular texts.",
      ["crates/tinymist-l10n/src/lib.rs"],
      [("reading translation files", N + "deserialize / load_translations"), ("updating", N + "update_translations"), ("writing", N + "serialize_translations")],
      observe="the tables read and the text written"),
    P("C13", "A translated message is the one of the locale, filled in",
      "A message is looked up under its key in the locale that was set, and falls back to the text in the program. "
      "A locale is matched without regard to case, exactly or by its language before a hyphen; an unknown locale changes nothing. "
      "Every placeholder that names an argument becomes the value of the argument, and every other character of the message is kept. An error that is raised with a message has it translated.",
      ["inputs"], "every message text, key, locale name and argument",
      "The library has no tests; adjacent, unknown and unterminated placeholders and partial locale matches only show for particular texts.",
      ["crates/tinymist-l10n/src/lib.rs"],
      [("lookup", N + "find_message"), ("locale matching", N + "set_locale"), ("placeholders", N + "t_with_args")],
      [("current locale", "the table messages are looked up in", N + "LOCALE_TRANSLATIONS")],
      observe="the translated text"),
    P("C14", "Path arithmetic keeps what a path names",
      "Cleaning, normalizing and writing a path with slashes never change which file it names, and leave nothing in it that it can do without. "
      "The difference of two paths, followed from the base, leads to the path, and exists whenever there is such a way. "
      "Walking the ancestors of a path visits it and each of its parents once, up to the one to stop at, and a list of paths survives being joined and split; "
      "what cannot be joined is refused.",
      ["inputs"], "every path, relative or absolute, with any mix of slashes, dots, parents and bytes",
      "The tests normalize a handful of paths; an empty base, parents above the start or a name that is no text only show for particular ones.",
      [D + "path.rs", D + "fs/paths.rs"],
      [("slashed paths, cleaning, differences", D + "path.rs"), ("normalization, ancestors, path lists", D + "fs/paths.rs")],
      observe="the resulting path"),
    P("C15", "A fingerprint stands for exactly one item",
      "Two items have the same fingerprint exactly when they are the same item of the same type, even when their fast hashes collide or two threads make them at once, "
      "and an item keeps its fingerprint. A fingerprint survives being written as text and read back; any other text is refused. "
      "A map keyed by fingerprints finds exactly what was put in it, by any thread and with any number of shards.",
      ["inputs", "schedules"], "every fingerprint and text, every pair of items whether or not their fast hashes collide, every interleaving of two threads, every number of shards",
      "The tests resolve a few texts one after another; colliding hashes, racing threads and malformed texts are rare.",
      [D + "hash.rs", D + "adt/fmap.rs"],
      [("fingerprints and their text", D + "hash.rs Fingerprint"), ("collision checks", D + "hash.rs FingerprintBuilder"), ("sharded map", D + "adt/fmap.rs FingerprintMap")],
      [("conflict tables", "what each hash stands for", D + "hash.rs fast_conflict_checker / conflict_checker")],
      observe="the fingerprints made, their texts, and what the map finds"),
    P("C16", "A shared computation runs once and everyone gets its value",
      "A query is computed at most once, by whichever thread asks first, with the context it was made with; everyone who asks gets that result, a failure too, and it stays. "
      "Taking a shared value gives every taker an equal value, and the only holder the original without a copy. "
      "What is written through a borrowed value reaches its owner, and writing to an owned one changes nothing else.",
      ["schedules", "inputs"], "every interleaving of two threads, every result and context",
      "No test asks from two threads; computing twice needs a particular interleaving.",
      [D + "concepts/query.rs", D + "concepts/takable.rs", D + "concepts/cow_mut.rs"],
      [("computed once", D + "concepts/query.rs QueryRef"), ("taking a shared value", D + "concepts/takable.rs"), ("borrowed or owned", D + "concepts/cow_mut.rs")],
      observe="the number of computations and clones, and the values seen"),
    P("C17", "Errors, diagnostics and stored values tell what they were made from",
      "An error shows its place, message and every argument, and wrapping one keeps its text. "
      "A diagnostic and stored bytes read back as they were written, severities are exactly those of the protocol, and malformed texts are refused. "
      "A time is the date of exactly its seconds, and a time out of range has none; nothing here crashes.",
      ["inputs"], "every message, argument, severity, range, byte string and time",
      "The tests cover none of these; the borders of the calendar and malformed stored bytes only show for particular values.",
      [D + "error.rs", D + "time.rs", D + "concepts/marker.rs"],
      [("errors and diagnostics", D + "error.rs"), ("bytes stored as base64", D + "concepts/marker.rs AsCowBytes"), ("dates", D + "time.rs ToUtcDateTime")],
      observe="the text shown, the value read back, and the date"),
    P("C18", "Written files are whole, whatever goes wrong",
      "A file written atomically holds its old or its whole new content at every moment, whether a call fails, the process is killed or another process writes it too. "
      "It keeps its permissions, a failure changes nothing, and nothing but a killed process leaves anything behind. Other ways to write and to read report success only when the bytes are exactly those asked for, "
      "and what has not changed is not written. A temporary directory is gone after its use, and a directory kept out of backups never appears without its mark.",
      ["fault_sequences", "crash_points", "schedules", "inputs"], "every sequence of faults within the bounds, every point at which a process may be killed, every interleaving of two writers, every content and permission",
      "No test writes a file with a failing disk, a kill in the middle or a second writer.",
      [D + "fs/paths.rs"],
      [("atomic writes", D + "fs/paths.rs write_atomic"), ("writing in place", D + "fs/paths.rs write / write_if_changed / append / copy"),
       ("directories", D + "fs/paths.rs temp_dir_in / create_dir_all_excluded_from_backups_atomic")],
      [("target file", "old or new content", "write_atomic")],
      observe="the file system after every change, and the result"),
    P("C19", "Removing and linking touch nothing else",
      "Removing a directory, a file or the siblings of a lock removes what was asked for and nothing else: links are removed, never followed, and neither content nor permissions of anything outside change, "
      "even when a call fails half way. Success means that it is gone, and a locked file outlives its siblings. After linking or copying, the destination holds what the source holds, "
      "and what was linked from the destination before is left alone. Paths are compared by what they lead to.",
      ["fault_sequences", "inputs"], "every small tree of files, directories and links with every permission, every failing call",
      "No test removes a tree with links or with a call that fails.",
      [D + "fs/paths.rs", D + "fs/flock.rs"],
      [("removing", D + "fs/paths.rs remove_dir_all / remove_file"), ("linking", D + "fs/paths.rs link_or_copy"), ("siblings of a lock", D + "fs/flock.rs remove_siblings"),
       ("real paths", D + "fs/paths.rs strip_prefix_canonical")],
      observe="the whole file system before and after"),
    P("C20", "A file lock keeps other processes out",
      "While a process holds a file exclusively, no other holds it, and while one holds it shared, none holds it exclusively; whoever waits gets the lock once it is free. "
      "One who does not want to wait never does, and is refused exactly when another's lock excludes it. A lock is free once it is dropped or its process is gone, and not before. "
      "Locking never changes the content, and makes the file only where that was asked for. Where the file system has no locks they are done without; any other error is reported.",
      ["schedules", "fault_sequences", "crash_points"], "every interleaving of two processes, every pair of ways to lock, every error of the calls",
      "No test locks a file; a conflict needs two processes at a particular moment.",
      [D + "fs/flock.rs"],
      [("locks", D + "fs/flock.rs Filesystem / FileLock"), ("errors and missing support", D + "fs/flock.rs try_acquire / acquire")],
      [("the lock of a file", "who holds it and how", "fs/flock.rs FileLock")],
      observe="who holds the lock at the same time, and the results"),
    P("C21", "A file reads as its uppermost layer says, and a snapshot as it was",
      "A file reads as the editor's unsaved text of its id, else of its path, else as the watcher last told, else as the disk has it, at every moment and whatever was read or cached before. "
      "What is taken away or reset uncovers the layer below. Its source is exactly that text, without a byte order mark, under its own id, and what is no UTF-8 has none. "
      "A snapshot reads as the files were when it was taken, whatever changes later, and what it reads never shows up in later reads.",
      ["histories", "schedules", "inputs"], "every sequence of changes, reads and snapshots within the bounds, every content, every interleaving of a reading snapshot with a change",
      "The tests of the crate need a network to build and cover no caching across changes; a stale cache needs a particular order of reads, changes and snapshots.",
      [V + "lib.rs", V + "overlay.rs", V + "notify.rs", V + "resolve.rs", V + "snapshot.rs"],
      [("layers", V + "overlay.rs OverlayAccessModel, " + V + "notify.rs NotifyAccessModel"), ("entries and their cache", V + "lib.rs Vfs::slot / read_content_without_cache / read / source"),
       ("changes", V + "lib.rs RevisingVfs"), ("snapshots", V + "lib.rs Vfs::snapshot / fork")],
      [("entries", "what each id was read as", V + "lib.rs VfsEntry"), ("paths to ids", "which entries a path's change touches", V + "lib.rs PathMap")],
      observe="the bytes and sources read"),
    P("C22", "Nothing that changed is taken for unchanged",
      "A compilation is called clean, and so not repeated, only if every file it read is still what it read, however the changes came: by path, by id, from the watcher, or by a reset, "
      "and even while it was reading. A compilation whose files nobody touched is clean.",
      ["histories", "schedules"], "every sequence of changes around a compilation within the bounds, every interleaving of its reading with a change",
      "No test asks for it; a missed invalidation shows as an outdated preview only after a particular sequence of changes.",
      [V + "lib.rs", V + "overlay.rs", V + "notify.rs"],
      [("invalidation", V + "lib.rs RevisingVfs::invalidate_path / invalidate_file_id"), ("clean check", V + "lib.rs Vfs::is_clean_compile"),
       ("which ids a path has", V + "lib.rs PathMap")],
      [("revision of each entry", "when it changed last", V + "lib.rs VfsEntry")],
      observe="is_clean_compile and what the files read as"),
    P("C23", "A file id names one file, inside its root",
      "Two workspace roots have one id exactly if they are one directory, however they are spelled and whichever thread asks, and a root keeps its id. A file id leads to the file its path says below its root or its package; "
      "a path that leaves its root is denied, a file without a root is never read from the disk, and a package that is not there is an error. "
      "No package name that a document may write crashes anything or leads to another place than the workspace of that number.",
      ["inputs", "schedules"], "every root and virtual path within the bounds, every package name, every interleaving of two threads",
      "The tests of the crate do not run here and use a few paths; escapes and odd spellings are many.",
      [V + "path_mapper.rs"],
      [("roots and their ids", V + "path_mapper.rs WorkspaceResolver / Interner"), ("paths of ids", V + "path_mapper.rs RootResolver::path_for_id")],
      [("interned roots", "one id for each root", V + "path_mapper.rs INTERNER")],
      observe="the ids, paths and errors"),
    P("C24", "What the watcher tells ends up true",
      "Once files rest, what was last told of each file that is asked for is what the disk has, whatever happened to it: written, emptied, removed, renamed, replaced, or flickering. "
      "New content is told at once. A file that is asked for and is there is watched, files nobody asks for any more are given up in the end and no others are. "
      "Every update from upstream comes back once, with the file it names read anew, and disturbs no other file. Files that rest are not told for ever.",
      ["histories", "schedules"], "every sequence of changes, requests and passing time within the bounds, every order in which events arrive",
      "No test watches a file; the mistakes need a file that changes at a particular moment between an event, a recheck and a request.",
      [W],
      [("events of files", W + " NotifyActor::notify_event"), ("files asked for", W + " NotifyActor::update_watches"), ("rechecks of files that are empty or gone", W + " NotifyActor::notify_entry_update / recheck"),
       ("updates from upstream", W + " NotifyActor::invalidate_upstream")],
      [("watched entries", "what was told of each file and whether it is watched", W + " WatchedEntry")],
      observe="the events told to the consumer, and the watches that are set"),
    P("C25", "A position names the place the client means",
      "An offset in a text is given to the client as the line and the number of units of the agreed encoding (UTF-8 or UTF-16) from the line's beginning, and such a position leads back to the same offset. "
      "Any position a client may send means the offset so many units into its line: the end of the line when it is beyond it, the end of the text when there is no such line, and one of the two ends of a character "
      "when it is within one. No position crashes anything. A range is its two ends. The same holds for offsets in other files, such as bibliographies.",
      ["inputs"], "every text within the bounds, every offset at a character, every line and column of 32 bits, both encodings",
      "The tests of the crate do not run here and use one text; wide characters, line ends and positions beyond a line are rare.",
      ["crates/tinymist-analysis/src/location.rs", Q + "analysis/global.rs"],
      [("positions to offsets", "crates/tinymist-analysis/src/location.rs to_typst_position"), ("offsets to positions", "crates/tinymist-analysis/src/location.rs to_lsp_position"),
       ("places in other files", Q + "analysis/global.rs find_loc")],
      observe="the positions and offsets"),
    P("C26", "Semantic tokens tell what is in the document",
      "The semantic tokens of a document, read as the protocol says (each relative to the one before, in units of the agreed encoding), are in order and do not overlap; each coloured leaf of the document has its token with its place, length, type and "
      "modifiers (cut at line ends for a client that knows no tokens of several lines), and there are no others. A name is of the type of what it was found to stand for, a hash of the type of what follows it. "
      "The legend names the types and modifiers in the order of their numbers.",
      ["inputs"], "every document within the bounds, both encodings, both kinds of clients, every kind of leaf and name",
      "The snapshot tests do not run here; they look at a few documents, in one encoding, and at no client that lacks tokens of several lines.",
      [Q + "analysis/semantic_tokens.rs"],
      [("tokens of a tree", Q + "analysis/semantic_tokens.rs Tokenizer::tokenize_tree / push"), ("types and modifiers", Q + "analysis/semantic_tokens.rs token_from_node / modifiers_from_node / token_from_ident"),
       ("legend", Q + "analysis/semantic_tokens.rs TokenType / Modifier")],
      observe="the tokens and the legend"),
    P("C27", "An edit of semantic tokens leads to the new tokens",
      "A client that asks for the change of the semantic tokens since an earlier result and applies the answer has the tokens of the document as it was when it asked, whatever was asked, answered, lost or cancelled before, in any order, and whether "
      "or not the caches were cleared meanwhile. Every result has an id, which no other result ever gets. An unknown previous id gets all tokens. Nothing of this crashes.",
      ["inputs", "histories"], "every pair of documents and every history within the bounds, every foreign id",
      "No test asks twice; the cache is shared by requests that overlap.",
      [Q + "analysis/semantic_tokens.rs", Q + "adt/revision.rs", Q + "semantic_tokens_delta.rs", Q + "semantic_tokens_full.rs"],
      [("results by id and revision", Q + "analysis/semantic_tokens.rs SemanticTokenCache / SemanticTokenContext"), ("edits", Q + "analysis/semantic_tokens.rs SemanticTokenContext::semantic_tokens_delta"),
       ("revisions that are in use", Q + "adt/revision.rs RevisionManager / RevisionLock")],
      [("results", "what the client may name as what it has", Q + "analysis/semantic_tokens.rs SemanticTokenCache")],
      observe="the results, applied as a client does"),
    P("C28", "A query sees the analyses of its own revision",
      "A query is given what the analyses say of the files as they are in its own revision, never what was worked out for another, whichever queries of whichever revisions run, begin and end around it. Within a revision a file is worked out once; "
      "what an earlier revision worked out of the same file is offered for reuse, and never that of another file. Clearing the caches disturbs no query under way.",
      ["histories"], "every sequence of snapshots, queries, ends and one clearing within the bounds",
      "No test holds queries of two revisions at once; what is shared by mistake shows only then.",
      [Q + "analysis/global.rs", Q + "adt/revision.rs"],
      [("revisions and their caches", Q + "analysis/global.rs AnalysisRevCache / AnalysisRevSlot / IncrCacheMap"), ("queries", Q + "analysis/global.rs Analysis::lock_revision / enter_locked / query_snapshot"),
       ("revisions that are in use", Q + "adt/revision.rs RevisionManager")],
      [("slots of revisions", "what each revision worked out", Q + "analysis/global.rs AnalysisRevSlot")],
      observe="what a query is given, and what is computed"),
    P("C29", "Results are of the files as they are",
      "Once nothing is under way anymore, the last compilation of a project, the document given to exports and previews and the status that a preview shows are of the files as they are now: as the editor has them where they are open, else as they are on the "
      "disk, including the imported files. A query sees what is open as the editor has it at any time. This holds for every order in which edits, saves, openings, closings, ends of compilations, events and the watcher's news come, and a document is given "
      "out as brought about by an edit, or by a save, whenever there was one of a file that it is made of.",
      ["histories", "schedules"], "every history of edits, saves, events, compilations and news within the bounds",
      "The orders that go wrong need a compilation, an edit and late news from the watcher to cross each other; the tests run no server.",
      [J + "compiler.rs", M + "project.rs", M + "input.rs"],
      [("when to compile, and of what", J + "compiler.rs ProjectCompiler / ProjectInsState"), ("edits and the news of the watcher", J + "compiler.rs process / process_memory"),
       ("results handed on", M + "project.rs CompileHandlerImpl / ProjectState")],
      [("reasons to compile", "whether a project has yet to be compiled, and why", J + "compiler.rs CompileReasons"), ("logical ticks", "which of two changes of a file is the newer", J + "compiler.rs ProjectCompiler")],
      observe="what the last compilation, exports, previews and queries read"),
    P("C30", "The editor shows the diagnostics of the files as they are",
      "Once nothing is under way anymore, the diagnostics that the editor was last told of each file are those of the last compilation of the projects: none of an outdated compilation, of a former main file or of a file that is right again stays, and none is "
      "missing, in whatever order compilations, lints and messages end. What is told last is what is newest. The last document of a project is of its main file. When a project has no main file anymore, its diagnostics go.",
      ["histories", "schedules"], "every history of edits, changes of the main file, compilations, lints and messages within the bounds",
      "Outdated diagnostics stay only if tasks of two compilations end in an unusual order; no test runs two.",
      [M + "project.rs", M + "actor/editor.rs", J + "compiler.rs"],
      [("diagnostics of a compilation and of lints", M + "project.rs CompileHandlerImpl"), ("what the editor was told, by project", M + "actor/editor.rs EditorActor"),
       ("what happened to compilations", J + "compiler.rs process_compile")],
      [("diagnostics by file and project", "what the editor shows", M + "actor/editor.rs EditorActor")],
      observe="the diagnostics published, by file"),
    P("C31", "Projects come and go without harm",
      "Projects may be started, started again, settled and all started anew at any time: nothing crashes or stays stuck, what was under way for a project that is gone is neither taken for its successor nor handed on, and what comes late for it is ignored. Every "
      "project that is there comes to have its results of the files as they are: its last compilation, exports, previews, diagnostics. What was open stays open. The diagnostics of a settled project go.",
      ["histories", "schedules"], "every history of projects started, settled and started anew, with compilations and events crossing, within the bounds",
      "Late events of projects that are gone need a preview or a change of the settings to cross a compilation.",
      [J + "compiler.rs", M + "project.rs"],
      [("dedicated projects", J + "compiler.rs restart_dedicate / remove_dedicates"), ("all projects anew", M + "project.rs ServerState::reload_projects"), ("late events", J + "compiler.rs process")],
      [("dedicated projects", "the projects besides the primary one", J + "compiler.rs ProjectCompiler")],
      observe="the projects and what was handed on of them"),
    P("C32", "An open document is what the editor shows",
      "The server has each open document as the editor has it: after every opening, change (of ranges in the agreed encoding, or of the whole; several of one message are applied in order) and closing, for lines that end with LF, CR LF or CR and for positions beyond the "
      "end of a line or of the text, which mean that end. A change that no editor can mean (an inverted range), or of a document that is not open, is refused, crashes nothing and changes nothing. A document that is not open is read from the disk. A path has one "
      "URL, of a file or an untitled document, which leads back to it, whatever characters the name has; a URL of another kind is no file, and crashes nothing.",
      ["inputs", "histories"], "every text, change, history and name within the bounds",
      "The space of texts and ranges is unbounded; the cases that go wrong are characters of several units, line ends cut in two and positions beyond an end.",
      [M + "input.rs", M + "lsp.rs", Q + "lsp_typst_boundary.rs", "crates/tinymist-analysis/src/location.rs"],
      [("changes of documents", M + "input.rs edit_source / create_source / remove_source"), ("positions", "crates/tinymist-analysis/src/location.rs to_typst_position / to_typst_range"), ("URLs", Q + "lsp_typst_boundary.rs path_to_url / url_to_path")],
      [("open documents", "the text of each", M + "input.rs ServerState::memory_changes")],
      observe="the text of a document as the server has it, and as a query sees it"),
    P("C33", "The main file is the one pinned, by default, or in focus",
      "The main file is the one that is pinned, else the default one of the settings, else the one in focus; while a preview of the primary project that does not browse is open, the focus does not change it. The focus is what the editor says by command; until it "
      "ever does so, the file last looked at, and until one was looked at, the file last opened. The root of a file is the configured one, else the first root of the workspace that has the file, else the nearest directory above it that is a package, else its directory; a root that does not have the file is not used. A relative "
      "default file is in the root. A path that leads nowhere is refused and changes nothing. What is compiled and shown is of the main file.",
      ["histories", "inputs"], "every history of pins, focuses, openings and previews, and every configuration, within the bounds",
      "The order of the events decides, and there are five that change the main file.",
      [M + "input.rs", M + "cmd.rs", J + "entry.rs"],
      [("pinned, default and focused files", M + "input.rs pin_main_file / focus_main_file / implicit_focus_entry / change_main_file"), ("previews", M + "input.rs set_pin_by_preview"), ("roots", J + "entry.rs EntryResolver")],
      [("pins and focus", "which file is the main one", M + "server.rs ServerState")],
      observe="the main file and the root of the primary project"),
    P("C34", "Formatting a document gives exactly the formatted text",
      "Applying the edits that a request to format a document is answered with, as an editor does (by lines and columns in the agreed encoding), makes the text exactly what the formatter gave. The edits do not overlap, are within the document, "
      "and do not begin or end within a character or within a line end of two characters. A text that is already formatted, or that the formatter cannot format, is left as it is, and so is every text when formatting is off. "
      "The formatter is that of the last settings, also for requests that were made ready before.",
      ["inputs"], "every source and every formatted text within the bounds, in either encoding, with every formatter",
      "What differs may begin or end within the bytes of a character or within a line end; a test has one text in ASCII.",
      ["crates/tinymist/src/task/format.rs", "crates/tinymist-analysis/src/location.rs"],
      [("differences to edits", "crates/tinymist/src/task/format.rs calc_diff"), ("settings", "crates/tinymist/src/task/format.rs FormatTask::change_config"), ("positions", "crates/tinymist-analysis/src/location.rs to_lsp_range")],
      [("settings of the formatter", "which formatter is used", "crates/tinymist/src/task/mod.rs SyncTaskFactory")],
      observe="the edits that are answered"),
    P("C35", "The newest document of each project is exported, and no older one after it",
      "When a document is to be exported on save, it is when the project was compiled because of a change on the disk or of the main file; on typing, because of a change by the editor or of the main file; when it has a title, as on save and only if it has one; "
      "never, never. A faulty document is not exported. Of each project, an older document is never written after a newer one, and once all is at rest what is there is of the newest document that was to be exported, "
      "whatever the other projects export meanwhile and in whatever order exports end. A change of the settings holds for what is compiled after it. An export that fails leaves what was there whole and does not keep the next from being exported. "
      "Words are counted of every newest document, when they are to be, and told in order.",
      ["schedules", "histories", "crash_points"], "every order of compilations, settings and ends of exports, and every failure of the file system, within the bounds",
      "Which export ends first decides; no test has two exports under way at once.",
      ["crates/tinymist/src/task/export.rs", "crates/tinymist/src/task/mod.rs", "crates/tinymist-project/src/compiler.rs"],
      [("exports", "crates/tinymist/src/task/export.rs ExportTask::signal / do_export"), ("tasks in order", "crates/tinymist/src/task/mod.rs FutureFolder"),
       ("when to export", "crates/tinymist/src/task/export.rs ExportTask::signal_export / crates/tinymist-world/src/snapshot.rs ExportSignal::should_run_task"), ("atomic writes", "crates/tinymist-std/src/fs/paths.rs write_atomic")],
      [("tasks under way", "the newest revision of each export, and what is being done", "crates/tinymist/src/task/mod.rs FutureFolder")],
      observe="the files that are written, and the counts that are told"),
    P("C36", "An export goes where its pattern says",
      "The file an export is written to is its pattern with $root, $dir and $name filled in by the root of the project, the directory of the main file in it and the name of the main file, and with the extension of what is exported (or of the query, if it has one); "
      "an empty pattern is $root/$dir/$name. What is filled in is not filled in again, everything else in the pattern stays as it is, and the path is cleaned of . and .. . "
      "A path that is not absolute, or is a directory, is refused and nothing is written; missing directories are made. What is in no project has no place. What is written is what the task says: the format, and the first page or all pages.",
      ["inputs"], "every pattern, root and main file within the bounds, and every kind of export",
      "Patterns are texts by users, and so are names of files; one whose name contains a variable, or dots, is filled in wrongly by what works for all others.",
      ["crates/tinymist-task/src/primitives.rs", "crates/tinymist/src/task/export.rs"],
      [("patterns", "crates/tinymist-task/src/primitives.rs PathPattern::substitute"), ("writing exports", "crates/tinymist/src/task/export.rs ExportTask::do_export"), ("pages", "crates/tinymist-task/src/compute.rs get_page_selection")],
      observe="the path and the content of the file that is written"),
    P("C37", "Tasks written down are read back as they were",
      "A range of pages is read as what it says (one page, from, to, or both; pages are counted from 1, and a range that is empty or of no page is refused), and is read back from what is written of it. A resource (a file by path, a file of a project, a file of a package) "
      "is read back from what is written of it as the same resource, whatever its path is; an id is read back as it was stored, and different resources have different ids. A file by path is, wherever it is stored, the file it was made of: its absolute and its relative path lead to it.",
      ["inputs"], "every text of a range, every range, every path within the bounds",
      "Paths and ranges are texts by users; the characters that separate their parts may be in them.",
      ["crates/tinymist-task/src/primitives.rs"],
      [("ranges of pages", "crates/tinymist-task/src/primitives.rs Pages"), ("resources", "crates/tinymist-task/src/primitives.rs ResourcePath"), ("ids", "crates/tinymist-task/src/primitives.rs Id")],
      observe="what is read back"),
    P("C38", "The lock file keeps every document, task and route",
      "What is read from a lock file is what was put there: of each id the newest document, the newest task and the newest route, with all their fields (every kind of task, transform and text), the routes in the order in which they were put there; a lock file that was written can always be read. "
      "An update that fails leaves the file as it was, and so does one that changes nothing; a file of another version, of none, or that is no lock file is refused, by updates and by reads, and left as it is (an empty one counts as new). "
      "While one updates the file no one else reads or updates it, and afterwards it is free. What the server writes down of a compilation (its document, tasks and route) is there afterwards, and the paths of the document lead, from the directory of the lock file, to the document's own files, whatever the current directory is.",
      ["inputs", "histories"], "every history of updates, every task, every version within the bounds",
      "A lock file is shared by the editor and the command line, and grows over many runs; its text has tables in tables whose order matters.",
      ["crates/tinymist-project/src/lock.rs", "crates/tinymist-project/src/model.rs", "crates/tinymist-task/src/model.rs"],
      [("the lock file", "crates/tinymist-project/src/lock.rs LockFile"), ("what is in it", "crates/tinymist-project/src/model.rs LockFile, LockFileCompat"), ("what the server writes", "crates/tinymist-project/src/lock.rs LockFileUpdate")],
      observe="the file and what is read from it"),
    P("C39", "A file is shown with the document it belongs to",
      "A file belongs to the document named by the last route, in the nearest directory above it whose lock file has such a route, to a document that was compiled from that file (as last written down, or, once in memory, as last told); with no such route it belongs to none. "
      "What was found stays so until the server is told of a new lock file or of a new compilation, and then is what these say. With lock files in use, a file that belongs to a document is shown as part of it: the root is that of the lock file, the main file that of the document, whatever the current directory was. "
      "Any other file, and every file without lock files in use, is its own main file below the configured root or workspace that it is in, or else its own directory.",
      ["inputs", "histories"], "every history of updates and compilations, every file within the bounds",
      "What a file belongs to depends on everything compiled before, in several directories and processes.",
      ["crates/tinymist/src/route.rs", "crates/tinymist/src/input.rs", "crates/tinymist-project/src/lock.rs"],
      [("routes", "crates/tinymist/src/route.rs ProjectRouteState"), ("the main file", "crates/tinymist/src/input.rs resolve_task"), ("what files a document has", "crates/tinymist-project/src/lock.rs LockFileUpdate::commit")],
      observe="the document a file is said to belong to"),
]

NOT_APPLICABLE = []

LEVEL_NOTE = ("bounded symbolic execution of the LLVM IR compiled from the working tree; all inputs, histories or schedules within the bounds "
              "stated in the evidence file; not a proof beyond them")

if __name__ == "__main__":
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(
        version=1,
        setup_cmd="bash setup.sh",
        hooks=dict(guard="none (no hooks)", enable="the checks use the public interface of the crates and sources included by path; nothing to enable", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                     evidence_file=f"evidence/{p['id']}.json",
                     technique="symbolic execution of the compiled LLVM IR with an SMT solver (Z3)",
                     level="model_checking", level_note=p["_note"] or LEVEL_NOTE) for p in PROPS if p["_claim"]],
        not_applicable=NOT_APPLICABLE + [dict(property=p["id"], reason=p["_note"]) for p in PROPS if not p["_claim"]],
    )
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(PROPS), "properties,", len(man["checks"]), "checks")
