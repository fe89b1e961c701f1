"""The property list: one entry per property; 'na' marks the ones not claimed."""
LIBTRUST = 'Trusted: clang front end, the VC generator, z3, and the contracts assumed for external functions (listed in the evidence). '
TODO = 'machinery not built yet'
PROPS = []


def P(id, title, statement, over, qtext, tests, files, mech, note=None, na=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                      mech=mech, note=note, na=na, **kw))


P('C01', 'Hex escaping round-trips every byte string',
  'Encoding any NUL-terminated byte string yields exactly, byte by byte and in order, the byte itself when it is in [A-Za-z0-9@=.,_+-] and otherwise % followed by two hexadecimal digits of its value, and nothing else, so the result contains only safe characters. '
  'Decoding accepts a string if and only if every % starts such a triple, and then yields exactly the decoded bytes, in place or into a buffer of any starting size, so decoding an encoding gives back the original. '
  'Neither direction reads or writes outside its buffers, and encoding fails only when memory runs out.',
  ['inputs', 'fault_sequences'], 'every byte string shorter than 4 GiB, every pre-allocated buffer size, allocation success or failure',
  'tests/T150 and T590 hex-xcode samples: a few dozen strings; buffer growth and malformed-tail positions cannot be enumerated',
  ['util/hex-escape.c', 'util/hex-escape.h'], 'hex_encode / hex_decode / hex_decode_inplace / maybe_realloc',
  note=LIBTRUST + 'Full functional proof with inductive invariants; strings below 2^32 bytes.')

P('C18', 'Library calls report Xapian errors by return value, never by throwing',
  'No exported notmuch_* function of libnotmuch lets a C++ exception (any Xapian error, or std::out_of_range) propagate to its C caller, whichever database operation fails. '
  'When a database error is caught inside the library, the function that caught it does not go on to report success: status-returning functions return a non-success status on every path through the handler, pointer-returning ones return NULL, and no function that cannot report it swallows it.',
  ['fault_sequences', 'inputs'], 'every Xapian call site in the library, every exception type Xapian may raise there, every path through the handlers',
  'tests never make Xapian fail in the middle of most operations (concurrent modification, corruption, full disk)',
  ['lib/*.cc', 'lib/notmuch.h'], 'try/catch blocks around every use of Xapian in the public functions and their helpers',
  note='Trusted: clang front end, the exception-flow calculus in nmv/exc.py and the table of which Xapian methods may throw what. Every call site is assumed reachable. Five public functions are known findings.',
  technique='modular exception contracts (least solution of per-call-site obligations over LLVM IR, caller checked against callee contract)')

P('C04', 'Structured output is well formed and decodes to the values printed',
  'For every sequence of printer calls that follows the printer interface (a map alternates keys and values, end closes what is open), the JSON printer emits syntactically valid JSON and the S-expression printer emits a readable list. '
  'Each string value or JSON key, whatever bytes it contains (quotes, backslashes, control characters, embedded NULs, bytes above 127), is one string token that decodes to exactly those bytes, with no raw control characters inside it; integers print as their exact 64-bit decimal numeral, booleans and null as the defined words; an S-expression key made of letters, digits, - and _ prints as that keyword. '
  'Values are separated, keys and values are paired, and every bracket is closed by its matching bracket at every nesting depth, with or without separator requests in between.',
  ['inputs', 'histories'], 'every string, every integer, every interface-conforming call sequence at any nesting depth',
  'tests print a few dozen messages; escape and separator corner cases (control bytes, NULs, nested empty aggregates, separators after keys) are not enumerable',
  ['sprinter-json.c', 'sprinter-sexp.c', 'sprinter.h'], 'json_* and sexp_* printer methods, reached through the vtable of sprinter_json_create / sprinter_sexp_create',
  note=LIBTRUST + 'Every method is proved against a ghost parser of its output with an invariant tying the printer state stack to the parser stack; UTF-8 validity of the input is the caller\'s.')

P('C02', 'Quoting a boolean search term is lossless and injection-free',
  'For every term and prefix, make_boolean_term yields the prefix, a colon, and then either the term verbatim, which happens only when the term is non-empty and has no blank, control or non-ASCII character, quote or parenthesis in it, or the term in double quotes with every inner quote doubled and nothing after the closing quote. '
  'parse_boolean_term accepts exactly blanks, a non-empty prefix, a colon, one whole quoted or unquoted term, and blanks; it rejects an unclosed quote and anything after the term. Applied to text made by make_boolean_term it succeeds and returns exactly the original prefix and term, so a message-id or tag name never changes or leaks into the query around it. '
  'Both stay inside their buffers for every input and every pre-allocated buffer, and fail only on malformed text or when memory runs out.',
  ['inputs', 'fault_sequences'], 'every term, every prefix without a colon, every buffer size, allocation success or failure',
  'tests quote a handful of message-ids and tags',
  ['util/string-util.c', 'util/string-util.h'], 'make_boolean_term, parse_boolean_term, skip_space, is_unquoted_terminator',
  note=LIBTRUST + 'Terms below 2^28 bytes. The claim is about the text and the notmuch parser of it; Xapian\'s own query parser is outside.')

P("C08", "notmuch insert delivers a message completely and durably, or not at all",
  "When notmuch insert exits successfully, the new/ directory of <mail root>/<folder> holds a file, under a unique name created exclusively in tmp/ first, with exactly the bytes of standard input in order (a leading mbox \"From \" line may be turned into an X-Envelope-From header), whatever short or interrupted reads and writes happened on the way. "
  "The file was fsynced after its last byte and before it was renamed into new/, and new/ was fsynced after the rename and before the message was indexed. "
  "If anything fails before delivery is complete, insert exits unsuccessfully and removes the file it created, and only that file; without --keep the same holds when indexing, tagging, flag synchronisation or the final commit fails, and then the index entry is removed as well; with --keep a delivered message stays and insert succeeds. "
  "A folder name with a component .. is refused before the file system is touched.",
  ["inputs", "fault_sequences", "crash_points"], "every standard input, every outcome (success, any failure, short or interrupted transfer) of every system, allocation and library call, every combination of options, SIGINT at any read of its flag",
  "tests deliver a few messages with everything succeeding; no short write, fsync, rename or commit failure is ever exercised",
  ["notmuch-insert.c", "util/string-util.c"], "notmuch_insert_command, maildir_write_new, maildir_write_tmp, maildir_mktemp, copy_fd, write_buf, sync_dir, add_file, is_valid_folder_name, safe_gethostname",
  note=LIBTRUST + "System calls follow POSIX; strip_trailing, mkdir_recursive and the option parser are assumed contracts.")

P('C11', 'Tag changes are exact, stored at once, or held together by freeze and thaw',
  'Adding or removing a tag through libnotmuch changes the presence of exactly that tag on exactly that message and no other term of it; removing all tags removes every tag and nothing else. '
  'Outside freeze/thaw the change is stored in the database before success is returned; between freeze and its matching outermost thaw nothing at all is stored, and that thaw stores all pending changes in one write (none if there are none) or reports an error and stores nothing. Freezes nest and an unbalanced thaw is reported. '
  'An over-long tag, a missing tag, a read-only or closed database is refused with the documented status and changes nothing. '
  'Listing tags always shows the pending changes, and whatever database error strikes, what is in the database is the message before or after the whole change, never in between.',
  ['inputs', 'histories', 'fault_sequences'], 'every tag, every message state and freeze depth, every database handle state, an error at any Xapian call; the object invariant makes it hold for every sequence of these calls',
  'tests tag a handful of messages with a database that never fails, and no test interleaves freeze, reads and failures',
  ['lib/message.cc', 'lib/database.cc'], 'notmuch_message_add_tag, remove_tag, remove_all_tags, freeze, thaw, get_tags; _notmuch_message_sync, _add_term, _remove_term',
  note=LIBTRUST + 'A Xapian document is taken as a set of terms; proved for one arbitrary term. Three concurrent-modification errors in a row while reading a message\'s terms are outside.')

P('C10', 'The tag command makes exactly the requested changes to all matching messages',
  'When notmuch tag exits successfully, every message matching the query has exactly the tags it had (none with --remove-all) changed by the operations in the order given, so the last operation on a tag decides, and no other message is touched; the changes are stored, and flags are synchronised to the maildir when that is configured. '
  'Leading + and - words (up to an optional --) are the operations, all remaining arguments joined by blanks are the query; tags that are empty or start with - are refused for adding. In batch mode each line is read the same way with hex-decoded tags, comments and blank lines are skipped, and a malformed line is refused and makes the command fail, without affecting the other lines. '
  'Skipping messages that already have the wanted tags never leaves out a message an operation changes, whatever characters tags contain, in either query syntax. '
  'If any step fails, memory runs out, a database error occurs, the final commit fails or SIGINT arrives, the command exits unsuccessfully, and each message has either all of its changes or none of them.',
  ['inputs', 'histories', 'fault_sequences'], 'every list of operations, every tag text, every set of tags a message may have, every command line and batch line, failure of any library or allocation call, SIGINT at any read of its flag',
  'tests run a few dozen tag commands with a database that never fails; combinations of repeated operations, odd tag characters and optimised queries are not enumerable',
  ['tag-util.c', 'notmuch-tag.c', 'query-string.c', 'util/string-util.c'], 'tag_op_list_apply, makes_changes, tag_op_list_append, parse_tag_line, parse_tag_command_line, query_string_from_args, _optimize_tag_query, tag_query, tag_file, notmuch_tag_command',
  note=LIBTRUST + 'The library calls behave as proved in C11; which messages a query text matches is left to Xapian and to the query parsers.')

P('C06', 'Maildir flags and tags follow each other',
  'Synchronising tags to maildir flags renames exactly the files of the message that lie in a cur or new maildir directory, so that the name ends in the information part holding its flags in ASCII order, where D, F, P, R stand for draft, flagged, passed, replied and S for the absence of unread, other flags kept, and the index then lists the new name instead of the old. '
  'Synchronising flags to tags gives the message those tags according to the union of the flags of its maildir files and changes nothing when it has none. A failure never makes the index list a file name that does not exist while the renamed one is left out.',
  ['inputs', 'fault_sequences'], 'every file name, every set of tags and flags, failure of any rename or database call',
  'tests synchronise a few well-formed file names', ['lib/message.cc'],
  'notmuch_message_tags_to_maildir_flags, notmuch_message_maildir_flags_to_tags, _new_maildir_filename, _filename_is_in_maildir, _get_maildir_flag_actions, _ensure_maildir_flags',
  na='within reach of this family, machinery not built (string surgery over file names needs its own ghost model); two defects found while reading were repaired (0f0ff04, b646c89)')
P('C07', 'notmuch new indexes exactly the mail files of the tree',
  'After a successful notmuch new, every regular file below the mail root that is not ignored, not in a tmp maildir directory and is a mail message is a file name of some message in the index, and every indexed file name that no longer exists has been removed. '
  'An interrupted or failing run never removes a message whose file still exists, and the next run completes the work.',
  ['histories', 'schedules', 'crash_points'], 'every tree, every sequence of additions, moves and removals between runs, interruption anywhere',
  'tests scan small trees without races', ['notmuch-new.c', 'lib/directory.cc'], 'add_files, remove_filename, _remove_directory',
  na='whole-history property of the file system, directory mtimes and the index together: no contract over one call or one data structure expresses it, and the scanning functions depend on scandir callbacks and on concurrent changes this family does not model')
P('C16', 'A search returns exactly the messages that match the query',
  'For every query string the messages returned are exactly the non-excluded messages whose indexed terms satisfy the query as documented, each once, in the requested order.',
  ['inputs'], 'every database, every query', 'tests run a few hundred queries', ['lib/query.cc', 'lib/query-fp.cc', 'lib/parse-sexp.cc'], 'notmuch_query_search_messages',
  na='recall and ordering are decided inside Xapian (external, no source here), so any contract over the notmuch side would only restate assumed contracts')
P('C19', 'A crash never corrupts the index',
  'Whatever the crash point, the database opens again afterwards and shows a state between the last commit and the crash.',
  ['crash_points'], 'every crash point', 'no test crashes the process', ['lib/database.cc'], 'Xapian commit',
  na='durability and recovery are implemented by Xapian; the notmuch side (what is inside an atomic section) is C12')
P('C22', 'Threads are the connected components of the reply graph',
  'Two messages are in the same thread if and only if they are connected through Message-ID, References and In-Reply-To headers of indexed messages, in whatever order messages are added.',
  ['histories'], 'every set of messages and every order of arrival', 'tests add a few dozen orders', ['lib/add-message.cc'], '_notmuch_database_link_message',
  na='a whole-history invariant over all documents in the database (merging changes many messages); it would need a quantified ghost model of the Xapian database, which is outside what the verifier here discharges')
P('C23', 'Indexing never executes or trusts message content',
  'Any byte sequence offered as a message is indexed or refused without crash, hang or unbounded recursion.',
  ['inputs'], 'every byte string', 'tests index a few hundred messages', ['lib/index.cc', 'mime-node.c'], 'index_mime_part',
  na='the work is done by GMime and GLib (external libraries); termination and memory use of those are not expressible as contracts over this code')
P('C24', 'The Emacs, Python and Ruby front ends show what the command line says',
  'The front ends display and change exactly what the corresponding command line calls report and do.',
  ['programs'], 'every session', 'tests drive a few sessions', ['emacs', 'bindings'], 'notmuch.el',
  na='not C or C++: no deductive verifier for Emacs Lisp or Ruby is installed')

P('C03', 'A dump restores every tag, property and configuration value exactly',
  'A successful notmuch dump writes, for every message matching the query, one batch-tag line with exactly its tags and its id, one line with exactly its properties, and one line for every configuration value, all texts escaped so that no byte can end a word or line early; what cannot be read, represented or written makes the dump fail. '
  'notmuch restore applies every line of the parts asked for, in either format, and no part that was not asked for: the message named by a tag line gets exactly the tags listed (added to the old ones only with --accumulate), its properties become exactly those listed, each configuration value is set; a format asked for is used, and an automatically detected one is the one the first tag line shows. '
  'Malformed tag lines and missing messages are skipped with a warning; every other failure, including the final commit, gives a failure exit status, and exit status 0 means all lines up to the end of the input were processed and stored. No text of a dump, however damaged, makes restore read outside the line or crash.',
  ['inputs', 'fault_sequences', 'histories'], 'every tag, id, property and configuration text, every dump text, every combination of options, failure of any library, allocation, zlib or file call',
  'tests dump and restore a few dozen messages; damaged lines, odd bytes and failures in the middle are not enumerable',
  ['notmuch-dump.c', 'notmuch-restore.c', 'util/zlib-extra.c', 'util/string-util.c'], 'dump_tags_message, dump_properties_message, database_dump_config, database_dump_file, notmuch_restore_command, process_config_line, process_properties_line, tag_message',
  note=LIBTRUST + 'The text of a tag line is read as proved in C01, C02 and C10; the sup format line parser (a regular expression) is an assumed contract; lines below 2 GB.')

P('C09', 'notmuch dump replaces its output file by a complete dump or leaves it alone',
  'With --output=FILE, notmuch dump writes to a new exclusively created file beside FILE and renames it over FILE only after the whole dump was produced without error, flushed out of the compressor, fsynced after its last byte, and closed without error. '
  'In every other case FILE keeps its former content and the exit status is failure; the temporary file, and no other file, is then removed, unless the process ends at a write error in the middle of the dump. '
  'Exit status 0 (with or without --output) means that every message, property and configuration value asked for was written and nothing failed. The search terms given choose what is dumped; the parts, format and compression asked for are the ones used.',
  ['fault_sequences', 'crash_points', 'inputs'], 'every outcome of every system, zlib, allocation and library call, every combination of options; the order of operations decides every crash point',
  'no test makes a dump fail or crash in the middle',
  ['notmuch-dump.c', 'util/zlib-extra.c', 'status.c'], 'notmuch_database_dump, notmuch_dump_command, database_dump_file, dump_tags_message',
  note=LIBTRUST + 'System calls and zlib follow their documentation.')

P('C12', 'Atomic sections nest and commit as one; revisions mark committed changes',
  'Atomic sections nest: the outermost begin starts the one transaction and only its end commits it, inner ones touch no transaction, a failed begin enters no section, a failed commit is reported and leaves the section open, an unbalanced end is reported, and no other library call begins, commits or cancels a transaction (upgrading an old database apart). '
  'A message is stored with the revision following the one reported so far; that revision is reported at once outside sections and, inside one, if and only if the section changed something and exactly when it is committed, so the reported revision never goes back, moves by one, and never counts an uncommitted change. '
  'Indexing a file is one balanced section: the message is stored only when it is complete (file name, type, thread, headers, terms), success or duplicate is reported only when it is stored, nothing failed and its own section is committed, and the surrounding section is left as it was.',
  ['histories', 'inputs', 'fault_sequences'], 'every nesting depth and pending state of a database handle (an object invariant, so every sequence of calls), writable, read-only or closed, an error at any Xapian call and any indexing step',
  'tests never make a transaction fail and read revisions only outside sections',
  ['lib/database.cc', 'lib/message.cc', 'lib/add-message.cc'], 'notmuch_database_begin_atomic, notmuch_database_end_atomic, notmuch_database_get_revision, _notmuch_database_new_revision, _notmuch_message_sync, notmuch_database_index_file',
  note=LIBTRUST + 'What a Xapian transaction guarantees is assumed; the indexing steps are assumed to do their work or report an error.')
