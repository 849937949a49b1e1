#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable and schema-valid)."""
import json, os
PK = "scutiger-core/src/pktline.rs"; ER = "scutiger-core/src/errors.rs"
PR = "scutiger-lfs/src/processor.rs"; LO = "scutiger-lfs/src/backend/local.rs"
TR = "scutiger-lfs/src/bin/git-lfs-transfer.rs"; BE = "scutiger-lfs/src/backend.rs"
AT = "scutiger-bin/src/bin/git-at.rs"; RR = "scutiger-bin/src/bin/git-recent-refs.rs"; PG = "scutiger-bin/src/bin/pager/mod.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "pkt-line decoding accepts exactly the legal packets",
  "Reading packets from a byte stream yields exactly the packets the pkt-line format defines, in order: four lowercase hexadecimal digits meaning 0000 (flush), 0001 (delimiter), or a total length from 4 to 65520 followed by that many minus four payload bytes. Any other header, wherever it occurs, is reported as an error and never delivered as a packet, a packet cut short by the end of input is never delivered, and no input makes the reader panic. This holds however the transport splits or interrupts the reads; when the transport itself fails, that failure is what is reported, after the packets that were complete.",
  ["inputs", "fault_sequences"], "all four-byte headers over a boundary alphabet, all legal lengths, all packet sequences up to a depth, all split/interrupt patterns of the transport",
  "The unit tests try eight headers and five packets; the header space has 2^32 elements and the transport may split anywhere.",
  [PK], [("Reader::read_packet / read_one / parse_header / iter", PK)], ["public API of scutiger-core: pktline::Reader"])
p("C02", "Reading a pkt-line stream as bytes delivers exactly the payload",
  "Reading a pkt-line stream as plain bytes yields the concatenation of the payloads of the data packets up to the next flush or delimiter packet and then end-of-file, without loss, duplication or reordering, and leaves everything after that terminating packet for the next read. It holds for every packetization (including empty and maximum-size packets), every sequence of caller buffer sizes, and every way the transport splits or interrupts its reads; a malformed or truncated packet or a failing transport surfaces as an error, never as end-of-file.",
  ["inputs", "fault_sequences"], "all short packet sequences over boundary sizes x all short sequences of caller buffer sizes x all transport split patterns",
  "One test copies one pattern with six chunk sizes through one reader loop; the buffer/offset state machine depends on the interleaving of packet sizes, caller sizes and short reads.",
  [PK], [("impl io::Read for Reader: internal buffer with off/len", PK)], ["public API of scutiger-core: io::Read for pktline::Reader"], [("buf/off/len", "bytes of the current packet not yet handed out", PK)])
p("C03", "pkt-line encoding is always legal and round-trips",
  "Whatever bytes are written, as a byte stream or as packets, the output is a sequence of legal pkt-lines (none longer than 65520 bytes in total) whose payloads concatenate to exactly those bytes, and decoding it returns the same packets. A packet that has no legal encoding is refused with an error and nothing malformed is emitted. It holds for every partial-write or interrupt behaviour of the underlying writer; when that writer fails, the failure is reported, and nothing counts as written that is not there.",
  ["inputs", "fault_sequences"], "all payload sizes around every chunk boundary, all short write/packet sequences, all partial-write and interrupt patterns of the sink",
  "The tests write two small buffers and one 65536-byte buffer to a sink that always takes everything.",
  [PK], [("impl io::Write for Writer (chunks), write_one, write_packet", PK)], ["public API of scutiger-core: pktline::Writer"])
p("C04", "One response per request; request content is never run as a request",
  "git-lfs-transfer answers every session with the capability advertisement followed by exactly one well-formed response per flush-terminated request, in request order, whether the request succeeds, is refused, is unknown, or is malformed. Nothing inside a request (its arguments, its delimiter, its batch lines, or its object data) is ever executed or answered as a request of its own, and a request never swallows the one after it.",
  ["inputs", "histories"], "all request sequences up to a depth over an alphabet of valid, refused and malformed requests whose bodies contain text that would be a valid request",
  "The tests run eight fixed transcripts in which every request is complete and only one is refused; desynchronisation shows only when an error path leaves part of a request unread.",
  [PR, PK, TR], [("Processor::process_commands", PR), ("PktLineHandler::read_to_delim / read_to_flush", PR)], ["stdin/stdout of git-lfs-transfer", "lfs/objects and lfs/locks afterwards"])
p("C05", "A broken connection or framing never runs a partial request",
  "If the client's byte stream ends, or stops being legal pkt-line framing, at any byte of a session, every request completely received before that point has been carried out and answered exactly as in the complete session; the incomplete request has no effect on stored objects or locks; and nothing after the break is executed. The server then ends by itself, without crashing.",
  ["fault_sequences", "inputs", "crash_points"], "every byte prefix of a set of sessions, and a framing error at every packet boundary",
  "No test truncates or corrupts its input stream.",
  [PR, PK, TR], [("ReaderIterator::next / read_to_type end-of-input handling", PK), ("Processor::process_commands", PR)], ["stdin/stdout/exit status of git-lfs-transfer", "lfs/objects, lfs/incomplete, lfs/locks afterwards"])
p("C06", "An upload stores exactly the named bytes or nothing",
  "A put-object request succeeds if and only if its object ID is 64 lowercase hexadecimal digits, its size argument equals the number of bytes sent, and their SHA-256 is the object ID; the object is then stored with exactly those bytes. Otherwise the request is refused and the set of stored objects, and their contents, are unchanged. Either way no temporary file is left behind once the request is answered.",
  ["inputs", "histories"], "payload sizes around every buffer boundary x packetizations x single-fault variations of data, size and object ID x objects already present or not",
  "Two good uploads and one corrupted one are tested, each in a single packet of under 40 bytes.",
  [PR, LO], [("Processor::put_object, HashingReader", PR), ("LocalBackend::start_upload / finish_upload", LO), ("Oid::valid", PR)], ["stdin/stdout of git-lfs-transfer", "lfs/objects, lfs/incomplete"])
p("C07", "A download returns exactly the stored object",
  "A get-object request for a stored object is answered with success, the object's exact size, and exactly its bytes, for every object size and content; for an object that is not stored it is answered 404, and a malformed object ID is refused. The response is complete and legally framed in every case, and the store is not changed.",
  ["inputs"], "object sizes around every copy-buffer and packet boundary, contents resembling framing, presence/absence, multiple requests per session",
  "One 32-byte object is downloaded in the tests.",
  [PR, LO, PK], [("Processor::get_object, send_status (streaming)", PR), ("LocalBackend::download", LO)], ["stdout of git-lfs-transfer download sessions"])
p("C08", "batch and verify-object report the store truthfully",
  "batch answers every listed object exactly once, in the listed order, with the stored size if the object is present and the requested size otherwise, and with the action that fits (upload sessions: noop if present, else upload; download sessions: download if present, else noop). verify-object answers success if the object is present with exactly the given size, 409 if it is present with another size, and 404 if it is absent. A request with a malformed line, ID, size or argument, or naming a hash algorithm other than sha256, is refused as a whole.",
  ["inputs", "histories"], "all short lists of entries over an alphabet of present/absent/odd-sized/malformed entries, in both operations; all size relations for verify",
  "The tests send one two-line batch and four verifies.",
  [PR, LO], [("Processor::read_batch / batch_data / verify_object", PR), ("LocalBackend::batch / verify", LO)], ["stdout of git-lfs-transfer"])
p("C09", "Sessions behave like a sequential model of objects and locks",
  "For every history of requests spread over successive upload and download sessions on one repository, each response is the one given by a simple sequential model (a map from object ID to bytes, and a set of locked paths with their lock records), and the store afterwards equals that model's state. In particular effects of successful requests persist across sessions, refused requests have no effect, and requests on one object or path do not affect others.",
  ["histories"], "all request histories up to a depth over two objects and two paths, all ways to cut them into sessions",
  "The tests run eight fixed histories, two of them with a second session; none mixes objects and locks.",
  [PR, LO, TR], [("Processor command dispatch", PR), ("LocalBackend, LocalLockBackend", LO)], ["stdin/stdout of git-lfs-transfer", "lfs directory afterwards"], [("lfs/objects, lfs/locks", "the persistent state", LO)])
p("C10", "The operation argument limits what a session can do",
  "In a download session no request of any form changes stored objects or locks; uploading, verifying, locking and unlocking are refused. In an upload session no request returns object content. A session started with any other operation name serves no request at all and reports failure.",
  ["inputs", "histories"], "every request form, and all short sequences of them, in every operation, from several initial stores",
  "No test sends a forbidden request.",
  [PR, TR], [("mode column of the dispatch table in process_commands", PR), ("Program::run", TR)], ["stdin/stdout/exit status of git-lfs-transfer", "lfs directory afterwards"])
p("C11", "Requests cannot reach outside the objects and locks they name",
  "No request, whatever its object ID, lock ID, path or cursor, makes the server open, examine, create, change or remove a file outside the repository's lfs directory, and no lock or object request acts on or discloses a file other than the lock or object with precisely the given ID. Object IDs that are not 64 lowercase hexadecimal digits are refused, and lock IDs that name no existing lock are answered as failures.",
  ["inputs"], "traversal, absolute, empty, dotted, suffixed, case-changed, over- and under-length IDs in every request position, observed at the system-call level",
  "No test sends a hostile ID and none watches file-system accesses.",
  [PR, LO], [("Oid::valid / expected_path", PR), ("LocalLockBackend::from_id / LocalBackendLock::unlock", LO)], ["system calls of git-lfs-transfer", "files planted around the lfs directory"])
p("C12", "A killed upload leaves no wrong object and blocks nothing",
  "If the server process is killed at any point during uploads (including part-way through any single write), every file then visible under an object's final name has exactly the bytes whose SHA-256 is that name and is readable and writable as the repository's sharing policy says; every upload acknowledged before the kill is still there; and a later session can upload, verify and download every object normally.",
  ["crash_points"], "every file-system step (and torn write) of upload histories as a kill point, each followed by a recovery session",
  "No test kills the server.",
  [LO], [("temporary file in lfs/incomplete, permissions fixed, then atomic rename", LO)], ["lfs/objects after the kill", "recovery session"])
p("C13", "Concurrent transfers never expose partial or wrong objects",
  "When several sessions upload, verify, list and download the same or different objects concurrently, then under every interleaving each upload is answered as it would be alone, every object visible under its final name is at every moment complete and correct with its final permissions, and every download, batch or verify is consistent with the object being either absent or completely present; once some upload of an object is acknowledged, every later request sees it.",
  ["schedules"], "all interleavings, at file-system-step granularity, of two and three sessions with one to three requests each on colliding objects",
  "The tests are sequential.",
  [LO, PR], [("create_dir_all, NamedTempFile, persist (rename), permissions", LO)], ["responses of all sessions", "lfs/objects in every reachable state"])
p("C14", "An I/O failure never yields a false success or a wrong object",
  "If any single file-system operation of the server fails with any plausible error, or a write is short, no request is answered with success unless its effect really took place, no object with wrong content and no half-written lock becomes visible, and the server neither crashes nor hangs: it answers the affected request with a failure or ends the session unsuccessfully, and the requests that follow are handled normally. Interrupted calls (EINTR) and short writes are simply resumed.",
  ["fault_sequences"], "every file-system operation of upload, download, verify, batch, lock, unlock and list histories x every plausible errno, short writes and short reads",
  "No test injects a failure.",
  [LO, PR, ER], [("error propagation with ?, Error to status mapping", PR), ("Error::io_kind", ER)], ["responses of git-lfs-transfer", "lfs directory afterwards"])
p("C15", "Stored files follow the repository's sharing policy",
  "Directories, objects and lock files created by git-lfs-transfer get read and write permission bits according to core.sharedRepository: unset, false or umask follow the process umask; group or true give owner and group read-write and nothing to others; all, world or everybody additionally let others read; an octal value such as 0640 gives exactly those read/write bits, but 0, 1 and 2 stand for umask, group and all; anything else that is a boolean counts as true or false. Directories are searchable exactly by those who may read them. The value may stand in any configuration file Git reads, the repository's own having precedence over the user's.",
  ["configurations"], "all spellings of core.sharedRepository and all rw octal values x process umasks x kinds of created file",
  "No test sets core.sharedRepository or looks at a mode; the tests bypass the code that computes it.",
  [TR, LO], [("Program::set_permissions", TR), ("LocalBackend::fix_permissions", LO)], ["modes of files under lfs/"])
p("C16", "File locks are mutually exclusive under every interleaving",
  "For every interleaving of concurrent lock and unlock requests from several sessions, the answers are those of some sequential order of the requests: lock is answered 201 exactly when the path was free, 409 with the existing lock's data exactly when it was held, unlock 200 exactly when the lock existed and 404 otherwise. No interleaving crashes a session, loses or leaks a lock, lets two sessions hold the same path, or affects a lock on another path.",
  ["schedules"], "all interleavings, at file-system-step granularity, of two and three sessions issuing lock/unlock requests on the same and different paths",
  "The only lock test is one sequential session.",
  [LO, PR], [("LockFile::write / persist (hard link)", LO), ("Processor::lock retry loop", PR), ("LocalBackendLock::unlock", LO)], ["responses of all sessions", "lfs/locks at the end"], [("lfs/locks/<id>", "existing lock", LO), ("lock temporaries", "lock being created", LO)])
p("C17", "Lock listings are exact, also while locks change",
  "A list-lock response contains every lock that was held throughout the request exactly once, contains no lock that was at no time held during it, never shows a lock twice, and every entry carries the path and data of a lock that really was granted. Locks being created or abandoned never show up and never disturb the listing.",
  ["schedules", "crash_points"], "all interleavings of list-lock with lock and unlock requests of one or two other sessions; leftovers of every possible kill point",
  "The only listing in the tests is of one lock in a quiet repository.",
  [LO, PR], [("LockSetIterator", LO), ("Processor::list_locks", PR)], ["responses of list-lock"])
p("C18", "Paging through locks yields each lock once",
  "With a limit, list-lock returns at most that many locks (never more than 100), in ID order, and a next-cursor exactly when more remain; following next-cursors from the start returns every lock exactly once. A path filter returns exactly that path's lock; a cursor never hides locks whose IDs are at or after it; a zero or malformed limit is refused.",
  ["inputs", "histories"], "all lock sets up to a size x all limits x all cursor positions, and sets around the cap of 100",
  "The one listing test has one lock and limit 100.",
  [PR, LO], [("Processor::list_locks / list_locks_for_path", PR), ("LockSetIterator", LO)], ["responses of list-lock"])
p("C19", "A lock's record is reported faithfully everywhere",
  "For every path that can be locked (any bytes, and at least all paths of up to 4096 of them) the lock's ID is a fixed function of the path, distinct for distinct paths, and every later response about that lock (conflict, list, unlock) reports the same ID, path and creation time as the response that granted it, and as owner the user whose session created it. In upload sessions list-lock marks a lock as ours exactly when the listing user is that owner, and as theirs otherwise; download sessions do not mark it.",
  ["inputs", "histories"], "paths over a boundary alphabet of bytes and lengths x kinds of request that report a lock x locking and listing users x passage of time between the steps of a request",
  "The tests lock only \"foo\", as one user, with a fixed clock.",
  [LO, PR, BE], [("LocalBackendLock::hash_for / parse / as_lock_spec", LO), ("Lock::as_arguments", BE), ("user_for_file / current_user", LO)], ["responses of lock, list-lock, unlock"])
p("C20", "A session killed while locking or unlocking blocks nothing",
  "If a session is killed at any point while locking or unlocking, each path is afterwards either completely locked or completely unlocked, locks it did not touch are unaffected, acknowledged results hold, and later sessions can list, lock and unlock every path normally.",
  ["crash_points"], "every file-system step (and torn write) of lock/unlock histories as a kill point, each followed by recovery sessions",
  "No test kills the server.",
  [LO], [("LockFile: temporary, hard link, removal", LO), ("LocalBackendLock::unlock", LO)], ["lfs/locks after the kill", "recovery sessions"])
p("C21", "Damaged or foreign files among the locks do no harm",
  "Whatever an unreadable, damaged, truncated or foreign file in the locks directory contains, no request crashes the session: requests about other locks, including listings, give the same answers as if it were not there, and requests that name it are refused or answered as not found, never with invented data.",
  ["inputs", "configurations"], "all short file contents over the record format's alphabet plus boundary timestamps, under lock-like and foreign names, x all lock requests",
  "No test places a damaged file.",
  [LO, PR], [("LocalBackendLock::parse", LO), ("LockSetIterator::next", LO), ("formatted_timestamp", LO)], ["responses of lock, list-lock, unlock"])
p("C22", "git-at finds the first matching commit",
  "git-at prints, among the commits reachable from the given revision (HEAD by default) whose message matches the pattern, the one with the most recent commit date (any of them when several have that date); it never prints an unreachable or non-matching commit and never misses a matching reachable one, for every shape of history including merges, roots and annotated tags as starting points.",
  ["inputs", "configurations"], "all commit graphs up to a size x date orders x message assignments x starting revisions x patterns",
  "The tests use one fixed repository and a dozen queries.",
  [AT], [("Program::run: revwalk sorted by time, first regex match", AT)], ["stdout and exit status of git-at"])
p("C23", "git-at --summary and --no-fixup filter exactly as documented",
  "With --summary a commit matches exactly when the pattern matches the first line of its message by itself, so nothing in the body can make it match and anchors and alternatives in the pattern refer to that line. With --no-fixup commits whose message starts with fixup! or squash! are passed over and every other commit is unaffected. The two options combine freely.",
  ["inputs"], "all combinations of messages over an alphabet of subjects and bodies x patterns (anchors, alternation, newline-crossing) x option sets",
  "The tests use five plain-text patterns, none with an alternative, an anchor or a match only in the body.",
  [AT], [("Program::run, Program::summary", AT), ("fixup regex", AT)], ["stdout and exit status of git-at"])
p("C24", "git-at reports its outcome reliably for scripts",
  "git-at prints exactly one line with the full commit ID and exits 0 when a commit matches; when none matches, or the revision does not exist, it prints nothing on standard output and exits 1, with a message on standard error unless --quiet is given; on any other failure, such as an invalid pattern, a damaged history or an ill-formed command line, it prints an error even with --quiet and exits with a status of 2 or more. The status never says success when no commit was found.",
  ["inputs", "configurations"], "all combinations of options, revisions (valid, missing, wrong type), patterns (matching, not matching, invalid, exhausting) and repositories (normal, empty, damaged, none)",
  "The tests call the internal function and never see output or exit status.",
  [AT, ER], [("Program::main", AT), ("Error::exit_status / From<git2::Error>", ER)], ["stdout, stderr, exit status of git-at"])
p("C25", "git-recent-refs by date lists every reference once, in order",
  "With --sort=committerdate or --sort=authordate git-recent-refs prints every direct reference that leads to a commit exactly once by full name, and nothing else, ordered from the most to the least recent date of the respective kind of the commit it leads to. References to other objects, and dangling ones, are left out without disturbing the rest.",
  ["inputs", "configurations"], "all assignments of references (branches, remote branches, light and annotated tags, tags of non-commits, symbolic and broken references) to commits with all relative orders of author and committer dates and time zones",
  "One test with six branches and one sort kind.",
  [RR], [("Program::run: Committed / Authored arms", RR)], ["stdout of git-recent-refs"])
p("C26", "git-recent-refs lists the whole checkout history in order",
  "With --sort=visitdate (the default) git-recent-refs prints the current position first and then one line for each earlier checkout recorded for HEAD, from the most to the least recent, with duplicates, naming branches by full reference name and detached positions by commit ID. Entries that are not checkouts are passed over, and an earlier position that no longer exists, such as a deleted branch, is left out without hiding the older ones.",
  ["histories"], "all checkout histories up to a length over existing branches, deleted branches and detached commits, interleaved with other HEAD movements",
  "One history of four checkouts of existing branches is tested.",
  [RR], [("Program::run: Visited arm", RR)], ["stdout of git-recent-refs"])
p("C27", "Error conversions keep the failure's kind and severity",
  "Converting an error of this code base to a standard I/O error and back, any number of times and through any layer that only forwards it, preserves the underlying I/O error kind, so that end-of-input, not-found and permission failures keep being told apart; an error is reported as fatal exactly when its exit status is 2, which is every kind except a missing revision and a conflict.",
  ["inputs"], "all error kinds x all I/O error kinds x all conversion chains up to a depth",
  "No test converts an error.",
  [ER], [("Error::io_kind, From conversions, exit_status", ER)], ["public API of scutiger-core: errors"])

p("C28", "git-recent-refs hands its whole output to the right pager and waits for it",
  "When its standard output is a terminal, git-recent-refs sends exactly the lines it would print otherwise, followed by end of input, to the pager Git would use, run by the shell: GIT_PAGER, else core.pager, else PAGER, else less; and it does not end before a pager that reads to the end has ended. When that pager is empty or cat, or standard output is not a terminal, the lines are printed directly, each once. A pager that fails, or stops reading early, never makes the program crash or hang.",
  ["inputs", "configurations", "schedules"], "all combinations of pager settings, kinds of pagers and amounts of output around the size of a pipe",
  "No test runs the program, let alone on a terminal.",
  [RR, PG], [("Pager::new, find_pager", PG), ("main", RR)], ["what a pseudo-terminal gets, exit status, whether the pager has ended first"])
p("C29", "A session serves the repository it is given, however named, and nothing else",
  "git-lfs-transfer serves the store of the repository its path argument leads to, and the same store however that repository is named: by an absolute or relative path, by its worktree, a linked worktree, its git directory, a .git file or a symbolic link. Neither the directory it is started in nor environment variables such as GIT_DIR, HOME, TMPDIR or TZ make it use or change anything else or answer differently. When the path does not lead to a repository (a mere directory inside of one does not), it fails with a message, answers nothing and creates or changes nothing.",
  ["inputs", "configurations", "histories"], "all pairs of ways to name repositories of several kinds x sessions that write by way of one and read by way of the other; environments x names; names of what isn't a repository x environments x operations",
  "The tests hand the program an open repository in a fresh directory and never run it.",
  [TR], [("repo, main", TR), ("Program::new, create_directories", TR)], ["stdin/stdout/stderr/exit status of git-lfs-transfer", "all files around the repository afterwards"])

p("C30", "git-recent-refs reports its outcome reliably for scripts",
  "git-recent-refs exits 0 exactly when it has printed its complete list. Outside of a repository, in one it cannot use (damaged configuration, unknown format, or packed references it cannot read), or with an unknown option, sort type or argument, it ends with another status, not by a panic, with a message on standard error and without printing anything. When its output cannot be written completely, it ends with another status and a message, or by the signal the system sends for that, having printed no more than a beginning of the list. A repository without commits has an empty list, which is no failure.",
  ["inputs", "configurations"], "all ways to ask for a list x repositories, empty, damaged or none x ill-formed command lines x outputs which fail at once, at any point near a boundary of the output, or at its very end",
  "The tests call the internal function and never see output or exit status.",
  [RR, PG, ER], [("Program::main", RR), ("parse_options, main", RR), ("Pager as io::Write", PG)], ["stdout, stderr, exit status of git-recent-refs"])

p("C31", "git-lfs-transfer reports its outcome",
  "git-lfs-transfer exits 0 exactly when its session ended in order and all answers were written: the client quit, or its input ended between two requests, however many of the requests were refused. Otherwise it ends with another status and a message on standard error, or by the signal the system sends for an output that cannot be written, never by a panic: when its input is no legal pkt-line stream, cannot be read, or ends within a request; when its output cannot be written completely, of which it then wrote no more than a beginning; for an unknown operation, an ill-formed command line, a path that leads to no repository it can use, or a store that cannot be prepared, where it answers no request. Standard output carries nothing but the protocol.",
  ["inputs", "fault_sequences", "configurations"], "all requests and pairs of them, in both modes x every byte at which a session may end x illegal headers at every packet x outputs that fail at every byte x ill-formed command lines, repositories and stores",
  "The tests call the protocol engine in memory; nobody runs the program and sees its exit status or standard error.",
  [TR, PR, ER, PK], [("main, Program::run", TR), ("Processor::process_commands", PR), ("Error as io::Error conversions", ER)], ["stdout, stderr, exit status of git-lfs-transfer"])

p("C32", "What a session needs does not grow with what passes through it",
  "However many requests a session of git-lfs-transfer has and however large the objects are that pass through it, it gets along with the open files and the memory which a session of a few of these requests, or of a small object, needs: an upload, refused or not, and the data of any other refused request are taken in, and an object is sent, piece by piece, and nothing of a request stays behind in the process when it has been answered. Within these bounds the long session is served as the short one: every request is answered, and the store is the same as if there were no bounds. (The arguments of one request, the lines of one batch and the listing of the locks, which the protocol has answered as a whole, may take memory in proportion to their number.)",
  ["inputs", "histories"], "all requests, alone and with others, repeated thousands of times, requests that all differ, and objects larger than all the memory allowed, each in both modes within the limits found to be the least for a short session",
  "The tests have objects of a few bytes and sessions of a few requests, and never look at what the process holds.",
  [PR, LO, PK, TR], [("HashingReader, Processor::put_object, get_object", PR), ("PktLineHandler::finish_request, send_status", PR), ("start_upload, download, lock files", LO), ("Reader, Writer", PK)], ["answers on stdout, the store", "RLIMIT_NOFILE and RLIMIT_AS of the process"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
