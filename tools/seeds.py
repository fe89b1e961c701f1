S = {}
UTIL = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -fsanitize=address -I. -Iutil -Ilib -Icompat $(pkg-config --cflags gmime-3.0) "$d/demo.c" %s util/libnotmuch_util.a -ltalloc $(pkg-config --libs gmime-3.0) -lz -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 ./demo
'''
CXX = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -I. -Iutil -Ilib "$d/demo.cc" -Llib -lnotmuch -lxapian -ltalloc -Wl,-rpath,"$r/lib" -o "$t/demo" || exit 3
cd "$t" && mkdir -p mail/cur && HOME="$t" NOTMUCH_CONFIG="$t/none" ./demo "$t/mail"
'''
def seed(i, prop, edits, needs, breaks, **files):
    S[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks,
                files={k.replace('_', '.', 1): v for k, v in files.items()})

seed('C01-decode-space', 'C01',
     [('util/hex-escape.c', '''	    if (! isxdigit ((unsigned char) in[1]) ||
		! isxdigit ((unsigned char) in[2]))
		return HEX_SYNTAX_ERROR;

	    buf[0] = in[1];''', '''	    /* strtoul stops at the first character that is no digit. */
	    if (! in[1] || ! isxdigit ((unsigned char) in[2]))
		return HEX_SYNTAX_ERROR;

	    buf[0] = in[1];''')],
     'an escape whose first character is a blank or a sign, such as "% 5" or "%+a"',
     'hex_decode accepts malformed escapes and invents bytes',
     demo_sh=UTIL % '', demo_c=r'''
#include <stdio.h>
#include <string.h>
#include <talloc.h>
#include "hex-escape.h"
int main (void) {
    const char *bad[] = { "a% 5b", "%+a", "%-1", "%", "%4", "%\t1" };
    void *ctx = talloc_new (NULL);
    for (unsigned i = 0; i < sizeof bad / sizeof *bad; i++) {
	char *out = NULL; size_t n = 0;
	if (hex_decode (ctx, bad[i], &out, &n) == HEX_SUCCESS) { printf ("accepted '%s'\n", bad[i]); return 1; }
    }
    return 0;
}
''')
seed('C02-paren', 'C02',
     [('util/string-util.c', '''	if (is_unquoted_terminator (*in) || *in == '"' || *in == '('
	    || (unsigned char) *in > 127)''', '''	if (is_unquoted_terminator (*in) || *in == '"'
	    || (*in == '(' && in == term) || (unsigned char) *in > 127)''')],
     'a term with an opening parenthesis after its first character',
     'make_boolean_term leaves a term with a parenthesis unquoted',
     demo_sh=UTIL % '', demo_c=r'''
#include <stdio.h>
#include <string.h>
#include <talloc.h>
#include "string-util.h"
int main (void) {
    void *ctx = talloc_new (NULL); char *b = NULL; size_t n = 0;
    if (make_boolean_term (ctx, "id", "a(b", &b, &n)) return 2;
    puts (b);
    return strcmp (b, "id:\"a(b\"") != 0;
}
''')
JS = UTIL % 'sprinter-json.o sprinter-sexp.o'
seed('C04-json-first', 'C04',
     [('sprinter-json.c', '''    fputs (": ", spj->stream);
    spj->state->first = true;''', '''    fputs (": ", spj->stream);
    if (*key)
	spj->state->first = true;''')],
     'a map with an empty key',
     'the JSON printer writes a comma between an empty key and its value',
     demo_sh=JS, demo_c=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <talloc.h>
#include "sprinter.h"
int main (void) {
    char *b; size_t n; FILE *f = open_memstream (&b, &n);
    sprinter_t *sp = sprinter_json_create (talloc_new (NULL), f);
    sp->begin_map (sp); sp->map_key (sp, "a"); sp->integer (sp, 1); sp->map_key (sp, ""); sp->integer (sp, 2); sp->end (sp);
    fclose (f); fputs (b, stdout);
    return strcmp (b, "{\"a\": 1, \"\": 2}\n") != 0;
}
''')
seed('C04-ctrl', 'C04',
     [('sprinter-json.c', '''	else if (ch >= 32)
	    fputc (ch, spj->stream);
	else''', '''	else if (! iscntrl (ch) || ch > 32)
	    fputc (ch, spj->stream);
	else if (ch > 26)
	    fprintf (spj->stream, "\\\\u%04d", ch);
	else'''),
      ('sprinter-json.c', '#include <inttypes.h>\n', '#include <ctype.h>\n#include <inttypes.h>\n')],
     'a string with a control character from 27 (ESC) to 31',
     'those control characters decode to another character (the escape is written in decimal)',
     demo_sh=JS, demo_c=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <talloc.h>
#include "sprinter.h"
int main (void) {
    char *b; size_t n; FILE *f = open_memstream (&b, &n);
    sprinter_t *sp = sprinter_json_create (talloc_new (NULL), f);
    sp->begin_list (sp); sp->string_len (sp, "\x1b[0m\x01\0\x1f", 7); sp->end (sp);
    fclose (f); fputs (b, stdout);
    return strcmp (b, "[\"\\u001b[0m\\u0001\\u0000\\u001f\"]\n") != 0;
}
''')
PRE = r'''
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <xapian.h>
#include <notmuch.h>
#define CK(x) do { int s_ = (x); if (s_) { printf ("%s: %d\n", #x, s_); exit (4); } } while (0)
static bool armed;
static notmuch_database_t *mkdb (const char *dir) {
    notmuch_database_t *db; char *e = NULL;
    CK (notmuch_database_create_with_config (dir, "", NULL, &db, &e));
    std::ofstream (std::string (dir) + "/cur/a") << "From: a@b\nMessage-ID: <m1@x>\nSubject: s\nDate: Thu, 1 Jan 2015 00:00:00 +0000\n\nbody\n";
    CK (notmuch_database_index_file (db, (std::string (dir) + "/cur/a").c_str (), NULL, NULL));
    return db;
}
'''
seed('C18-query-catch', 'C18',
     [('lib/query.cc', '''    } catch (const Xapian::Error &error) {
	_notmuch_database_log (notmuch,
			       "A Xapian exception occurred performing query: %s\\n",
			       error.get_msg ().c_str ());
	_notmuch_database_log_append (notmuch,
				      "Query string was: %s\\n",
				      query->query_string);

	notmuch->exception_reported = true;''', '''    } catch (const Xapian::DatabaseError &error) {
	_notmuch_database_log (notmuch,
			       "A Xapian exception occurred performing query: %s\\n",
			       error.get_msg ().c_str ());
	_notmuch_database_log_append (notmuch,
				      "Query string was: %s\\n",
				      query->query_string);

	notmuch->exception_reported = true;''')],
     'a Xapian error outside the DatabaseError family while a search runs (a wildcard that expands too far, an invalid argument)',
     'notmuch_query_search_messages lets the exception escape to its C caller',
     demo_sh=CXX, demo_cc=PRE + r'''
namespace Xapian {
MSet Enquire::get_mset (doccount a, doccount b, doccount c, const RSet *r, const MatchDecider *d) const {
    if (armed) throw WildcardError ("too many terms");
    typedef MSet (*F) (const Enquire *, doccount, doccount, doccount, const RSet *, const MatchDecider *);
    return ((F) dlsym (RTLD_NEXT, "_ZNK6Xapian7Enquire8get_msetEjjjPKNS_4RSetEPKNS_12MatchDeciderE")) (this, a, b, c, r, d);
}
}
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]);
    notmuch_query_t *q = notmuch_query_create (db, "body"); notmuch_messages_t *m; armed = true;
    try { int s = notmuch_query_search_messages (q, &m); printf ("status %d\n", s); return s == 0; }
    catch (...) { puts ("escaped"); return 1; }
}
''')
seed('C18-prop-sync', 'C18',
     [('lib/message-property.cc', '''	_notmuch_message_remove_terms (message, term_prefix);

	if (! _notmuch_message_frozen (message))
	    _notmuch_message_sync (message);
    } catch (Xapian::Error &error) {
	LOG_XAPIAN_EXCEPTION (message, error);
	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

    return''', '''	_notmuch_message_remove_terms (message, term_prefix);
    } catch (Xapian::Error &error) {
	LOG_XAPIAN_EXCEPTION (message, error);
	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

    if (! _notmuch_message_frozen (message))
	_notmuch_message_sync (message);

    return''')],
     'the database write fails while properties of an unfrozen message are removed',
     'the Xapian error escapes notmuch_message_remove_all_properties',
     demo_sh=CXX, demo_cc=PRE + r'''
namespace Xapian {
void WritableDatabase::replace_document (docid did, const Document &doc) {
    if (armed) throw DatabaseError ("disk full");
    typedef void (*F) (WritableDatabase *, docid, const Document &);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase16replace_documentEjRKNS_8DocumentE")) (this, did, doc);
}
}
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    CK (notmuch_message_add_property (m, "k", "v"));
    armed = true;
    try { int s = notmuch_message_remove_all_properties (m, "k"); printf ("status %d\n", s); armed = false; return s == 0; }
    catch (...) { puts ("escaped"); _Exit (1); }
}
''')
seed('C18-config-swallow', 'C18',
     [('lib/config.cc', '''    } catch (const Xapian::Error &error) {
	status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
	notmuch->exception_reported = true;
	_notmuch_database_log (notmuch, "Error: A Xapian exception occurred setting metadata: %s\\n",''', '''    } catch (const Xapian::Error &error) {
	status = notmuch->exception_reported ? status : NOTMUCH_STATUS_XAPIAN_EXCEPTION;
	notmuch->exception_reported = true;
	_notmuch_database_log (notmuch, "Error: A Xapian exception occurred setting metadata: %s\\n",''')],
     'two failing configuration writes on one handle, the second after the first was reported',
     'the second failure is reported as success',
     demo_sh=CXX, demo_cc=PRE + r'''
namespace Xapian {
void WritableDatabase::set_metadata (const std::string &k, const std::string &val) {
    if (armed) throw DatabaseError ("disk full");
    typedef void (*F) (WritableDatabase *, const std::string &, const std::string &);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase12set_metadataERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_")) (this, k, val);
}
}
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]);
    armed = true;
    int a = notmuch_database_set_config (db, "x", "1"), b = notmuch_database_set_config (db, "y", "2");
    printf ("status %d %d\n", a, b);
    return a == 0 || b == 0;
}
''')
INS = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -shared -fPIC "$d/demo.c" -ldl -o "$t/p.so" || exit 3
export LD_LIBRARY_PATH="$r/lib" HOME="$t" NOTMUCH_CONFIG="$t/cfg"; mkdir -p "$t/mail/new" "$t/mail/cur" "$t/mail/tmp"
printf '[database]\\npath=%%s/mail\\n[user]\\nname=a\\nprimary_email=a@b\\n[new]\\ntags=inbox\\n[maildir]\\nsynchronize_flags=true\\n' "$t" > "$t/cfg"
"$r/notmuch" new >/dev/null 2>&1 || exit 4
python3 -c 'import sys; sys.stdout.write("From: a@b.c\\nMessage-ID: <m@x>\\nSubject: s\\nDate: Thu, 1 Jan 2015 00:00:00 +0000\\n\\n" + "".join("line %%d\\n" %% i for i in range(2000)))' > "$t/msg"
%s
'''
FAULT = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <fcntl.h>
#define REAL(name) ((__typeof__ (&name)) dlsym (RTLD_NEXT, #name))
static const char *path (int fd) { static char b[4096]; char l[64]; sprintf (l, "/proc/self/fd/%d", fd); ssize_t n = readlink (l, b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; return b; }
'''
seed('C08-short-write', 'C08',
     [('notmuch-insert.c', 'ssize_t written = write (fdout, p, remain);', 'ssize_t written = write (fdout, buf, remain);')],
     'a write that accepts only part of the buffer (a nearly full disk, a quota, a signal)',
     'after a short write the beginning of the buffer is written again: the delivered file is corrupt although insert succeeds',
     demo_sh=INS % '''LD_PRELOAD="$t/p.so" "$r/notmuch" insert < "$t/msg" || exit 1
cat "$t"/mail/new/* "$t"/mail/cur/* 2>/dev/null | cmp "$t/msg" -''', demo_c=FAULT + r'''
ssize_t write (int fd, const void *b, size_t n) { if (n > 1000 && strstr (path (fd), "/mail/tmp/")) n = 1000; return REAL (write) (fd, b, n); }
''')
seed('C08-cleanpath', 'C08',
     [('notmuch-insert.c', '''    cleanpath = newpath;

    newdir = talloc_asprintf (ctx, "%s/%s", maildir, "new");
    if (! newdir) {
	fprintf (stderr, "Error: %s\\n", strerror (ENOMEM));
	goto FAIL;
    }

    if (! sync_dir (newdir))
	goto FAIL;
''', '''
    newdir = talloc_asprintf (ctx, "%s/%s", maildir, "new");
    if (! newdir) {
	fprintf (stderr, "Error: %s\\n", strerror (ENOMEM));
	goto FAIL;
    }

    if (! sync_dir (newdir))
	goto FAIL;

    cleanpath = newpath;
''')],
     'fsync of the new/ directory fails after the message was moved there',
     'insert reports failure but leaves the message in new/',
     demo_sh=INS % '''LD_PRELOAD="$t/p.so" "$r/notmuch" insert < "$t/msg" && exit 0
[ -z "$(ls "$t/mail/new")" ]''', demo_c=FAULT + r'''
int fsync (int fd) { const char *p = path (fd); size_t n = strlen (p); if (n > 4 && ! strcmp (p + n - 4, "/new")) { errno = EIO; return -1; } return REAL (fsync) (fd); }
''')
seed('C08-sync-order', 'C08',
     [('notmuch-insert.c', '''    if (fsync (fdout)) {
	fprintf (stderr, "Error: fsync '%s': %s\\n", path, strerror (errno));
	goto FAIL;
    }
''', '''    /* Nothing to flush when the file system does not support it. */
    if (fsync (fdout) && errno != EINVAL && errno != EIO) {
	fprintf (stderr, "Error: fsync '%s': %s\\n", path, strerror (errno));
	goto FAIL;
    }
''')],
     'writing the message back to the disk fails (an I/O error reported by fsync)',
     'insert delivers and reports success for a message that never reached the disk',
     demo_sh=INS % '''LD_PRELOAD="$t/p.so" "$r/notmuch" insert < "$t/msg" && exit 1
[ -z "$(ls "$t/mail/new")" ]''', demo_c=FAULT + r'''
int fsync (int fd) { if (strstr (path (fd), "/mail/tmp/")) { errno = EIO; return -1; } return REAL (fsync) (fd); }
''')
seed('C08-close-keep', 'C08',
     [('notmuch-insert.c', '''	if (! status)
	    status = close_status;
''', '''	if (status)
	    status = close_status;
''')],
     'everything succeeds but the final commit of the database fails',
     'insert reports success (and keeps quiet) although the index entry and tags were lost',
     demo_sh=CXX.replace('-o "$t/demo"', '-shared -fPIC -o "$t/p.so"').split('cd "$t"')[0] + '''
export LD_LIBRARY_PATH="$r/lib" HOME="$t" NOTMUCH_CONFIG="$t/cfg"; mkdir -p "$t/mail/new" "$t/mail/cur" "$t/mail/tmp"
printf '[database]\\npath=%s/mail\\n[user]\\nname=a\\nprimary_email=a@b\\n[new]\\ntags=inbox\\n[maildir]\\nsynchronize_flags=false\\n' "$t" > "$t/cfg"
"$r/notmuch-shared" new >/dev/null 2>&1 || exit 4
printf 'From: a@b.c\\nMessage-ID: <m@x>\\nSubject: s\\nDate: Thu, 1 Jan 2015 00:00:00 +0000\\n\\nbody\\n' > "$t/msg"
LD_PRELOAD="$t/p.so" "$r/notmuch-shared" insert < "$t/msg" && exit 1
[ -z "$(find "$t/mail/new" "$t/mail/cur" -type f)" ]
''', demo_cc=r'''
#include <dlfcn.h>
#include <notmuch.h>
extern "C" notmuch_status_t notmuch_database_close (notmuch_database_t *db) {
    ((notmuch_status_t (*)(notmuch_database_t *)) dlsym (RTLD_NEXT, "notmuch_database_close")) (db);
    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
}
''')
TAGPRE = PRE.replace('static bool armed;', '#include <set>\nstatic bool armed;') + r'''
static std::set<std::string> tags (notmuch_message_t *m) {
    std::set<std::string> r;
    for (notmuch_tags_t *t = notmuch_message_get_tags (m); notmuch_tags_valid (t); notmuch_tags_move_to_next (t)) r.insert (notmuch_tags_get (t));
    return r;
}
'''
seed('C11-cache-frozen', 'C11',
     [('lib/message.cc', '''    talloc_free (term);

    _notmuch_message_invalidate_metadata (message, prefix_name);

    return NOTMUCH_PRIVATE_STATUS_SUCCESS;
}

notmuch_private_status_t
_notmuch_message_has_term''', '''    talloc_free (term);

    /* The cached lists are rebuilt when the message is thawed. */
    if (! message->frozen)
	_notmuch_message_invalidate_metadata (message, prefix_name);

    return NOTMUCH_PRIVATE_STATUS_SUCCESS;
}

notmuch_private_status_t
_notmuch_message_has_term''')],
     'a tag is removed from a frozen message whose tags were read before, and the tags are read again through the same object',
     'notmuch_message_get_tags shows a tag that was removed',
     demo_sh=CXX, demo_cc=TAGPRE + r'''
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    CK (notmuch_message_add_tag (m, "a")); CK (notmuch_message_add_tag (m, "b"));
    CK (notmuch_message_freeze (m));
    if (tags (m) != std::set<std::string> ({"a", "b"})) return 6;
    CK (notmuch_message_remove_tag (m, "b"));
    if (tags (m) != std::set<std::string> ({"a"})) { puts ("stale tags"); return 1; }
    CK (notmuch_message_thaw (m));
    return tags (m) != std::set<std::string> ({"a"});
}
''')
seed('C11-thaw-retry', 'C11',
     [('lib/message.cc', '''	message->frozen--;
	try {
	    if (message->frozen == 0)
		_notmuch_message_sync (message);
	} catch''', '''	try {
	    if (message->frozen == 1)
		_notmuch_message_sync (message);
	    message->frozen--;
	} catch''')],
     'the database write of the outermost thaw fails once, and the caller goes on using the message',
     'the message stays frozen after its matching thaw, so later changes are reported stored but are not',
     demo_sh=CXX, demo_cc=TAGPRE + r'''
namespace Xapian {
void WritableDatabase::replace_document (docid did, const Document &doc) {
    if (armed) throw DatabaseError ("disk full");
    typedef void (*F) (WritableDatabase *, docid, const Document &);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase16replace_documentEjRKNS_8DocumentE")) (this, did, doc);
}
}
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m, *n;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    CK (notmuch_message_freeze (m)); CK (notmuch_message_add_tag (m, "a"));
    armed = true; if (! notmuch_message_thaw (m)) return 6; armed = false;
    CK (notmuch_message_add_tag (m, "b"));
    CK (notmuch_database_find_message (db, "m1@x", &n));
    if (! tags (n).count ("b")) { puts ("b was not stored"); return 1; }
    return 0;
}
''')
seed('C11-freeze-nest', 'C11',
     [('lib/message.cc', '''    message->frozen++;
''', '''    /* Freezing a frozen message has nothing to hold back until it has changed. */
    if (! message->frozen || message->modified)
	message->frozen++;
''')],
     'freeze called twice before the first change, then a change between the inner and the outer thaw',
     'the inner thaw unfreezes the message: later changes are stored one by one and the outer thaw fails',
     demo_sh=CXX, demo_cc=TAGPRE + r'''
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m, *n;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    CK (notmuch_message_freeze (m)); CK (notmuch_message_freeze (m)); CK (notmuch_message_thaw (m));
    CK (notmuch_message_add_tag (m, "a"));
    CK (notmuch_database_find_message (db, "m1@x", &n));
    if (tags (n).count ("a")) { puts ("stored while frozen"); return 1; }
    return notmuch_message_thaw (m);
}
''')
NMSH = r'''#!/bin/bash
# notmuch on a scratch mail store
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export HOME=$d NOTMUCH_CONFIG=$d/config XAPIAN_FLUSH_THRESHOLD=1000
unset NOTMUCH_PROFILE NOTMUCH_DATABASE MAILDIR
nm=$PWD/notmuch
mkdir -p "$d/mail/cur" "$d/mail/new" "$d/mail/tmp"
msg() { printf 'From: a@b\nMessage-ID: <%s>\nSubject: s\nDate: Thu, 1 Jan 2015 00:00:00 +0000\n\nbody of %s\n' "$2" "$2" > "$d/mail/$1"; }
conf() { printf '[database]\npath=%s\n[user]\nname=a\nprimary_email=a@b\n[new]\ntags=\n[search]\nexclude_tags=\n[maildir]\nsynchronize_flags=%s\n' "$d/mail" "${1:-false}" > "$d/config"; }
conf
tags() { "$nm" search --output=tags "$1" | sort | tr '\n' ' '; }
'''
seed('C10-remove-all', 'C10',
     [('tag-util.c', '	int last_op =  (flags & TAG_FLAG_REMOVE_ALL) ? -1 : 0;', '	/* Removing everything is a change only if nothing is added back. */\n	int last_op =  ((flags & TAG_FLAG_REMOVE_ALL) && list->count == 0) ? -1 : 0;')],
     'notmuch tag --remove-all with additions, on a message that already has all the added tags and others',
     'the other tags are not removed',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
"$nm" tag +a +b id:m1@x || exit 9
"$nm" tag --remove-all +a id:m1@x || exit 9
t=$(tags id:m1@x); [ "$t" = "a " ] || { echo "tags: $t"; exit 1; }
''')
seed('C10-batch-warn', 'C10',
     [('notmuch-tag.c', '''	    if (ret != TAG_PARSE_SKIPPED)
		/* remember there has been problematic lines */
		warn = 1;
''', '''	    /* remember there has been problematic lines */
	    warn = (ret != TAG_PARSE_SKIPPED);
''')],
     'a batch with a malformed line followed later by a comment or blank line',
     'notmuch tag --batch exits successfully although a line was refused',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
printf '+a\n# done\n' | "$nm" tag --batch 2> /dev/null && { echo "malformed line not reported"; exit 1; }
exit 0
''')
seed('C10-optimise-dup', 'C10',
     [('notmuch-tag.c', '''	/* XXX in case of OOM, query_string will be deallocated when
''', '''	/* One term per tag is enough. */
	if (i > 0 && strcmp (tag_op_list_tag (list, i), tag_op_list_tag (list, i - 1)) == 0)
	    continue;

	/* XXX in case of OOM, query_string will be deallocated when
''')],
     'two successive opposite operations on one tag, on a message the first one would not change',
     'the message is left out of the optimised query and keeps the tag',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; msg cur/2 m2@x; "$nm" new > /dev/null || exit 9
"$nm" tag +a id:m1@x || exit 9
"$nm" tag +a -a '*' || exit 9
t=$(tags '*'); [ -z "$t" ] || { echo "tags: $t"; exit 1; }
''')
TXPRE = TAGPRE.replace('#include <set>', '#include <set>\n#include <dlfcn.h>', 1) + r'''
static int txfault;      /* the next transaction call fails */
namespace Xapian {
void WritableDatabase::begin_transaction (bool f) {
    if (txfault) { txfault = 0; throw DatabaseError ("begin"); }
    typedef void (*F) (WritableDatabase *, bool);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase17begin_transactionEb")) (this, f);
}
void WritableDatabase::commit_transaction () {
    if (txfault) { txfault = 0; throw DatabaseError ("commit"); }
    typedef void (*F) (WritableDatabase *);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase18commit_transactionEv")) (this);
}
}
'''
TX = CXX.replace('-ltalloc', '-ltalloc -ldl -rdynamic')
seed('C12-begin-count', 'C12',
     [('lib/database.cc', '''    if (_notmuch_database_mode (notmuch) == NOTMUCH_DATABASE_MODE_READ_ONLY ||
	notmuch->atomic_nesting > 0)
	goto DONE;

    if (notmuch_database_needs_upgrade (notmuch))
	return NOTMUCH_STATUS_UPGRADE_REQUIRED;
''', '''    if (notmuch_database_needs_upgrade (notmuch) && ! notmuch->atomic_nesting &&
	_notmuch_database_mode (notmuch) != NOTMUCH_DATABASE_MODE_READ_ONLY)
	return NOTMUCH_STATUS_UPGRADE_REQUIRED;

    if (notmuch->atomic_nesting++ > 0 ||
	_notmuch_database_mode (notmuch) == NOTMUCH_DATABASE_MODE_READ_ONLY)
	return NOTMUCH_STATUS_SUCCESS;
'''), ('lib/database.cc', '''	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

  DONE:
    notmuch->atomic_nesting++;
    return NOTMUCH_STATUS_SUCCESS;
}
''', '''	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

    return NOTMUCH_STATUS_SUCCESS;
}
''')],
     'beginning the transaction fails, and the caller goes on and begins another section later',
     'a failed begin_atomic counts as a section, so later sections start no transaction and revisions stop moving',
     demo_sh=TX, demo_cc=TXPRE + r'''
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]);
    txfault = 1;
    if (! notmuch_database_begin_atomic (db)) return 5;
    int s = notmuch_database_end_atomic (db);
    if (s != NOTMUCH_STATUS_UNBALANCED_ATOMIC) { printf ("end after a failed begin: %d\n", s); return 1; }
    return 0;
}
''')
seed('C12-rev-before-commit', 'C12',
     [('lib/database.cc', '''    db = notmuch->writable_xapian_db;
    try {
	db->commit_transaction ();
''', '''    db = notmuch->writable_xapian_db;
    if (notmuch->atomic_dirty) {
	++notmuch->revision;
	notmuch->atomic_dirty = false;
    }

    try {
	db->commit_transaction ();
'''), ('lib/database.cc', '''	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

    if (notmuch->atomic_dirty) {
	++notmuch->revision;
	notmuch->atomic_dirty = false;
    }

  DONE:''', '''	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
    }

  DONE:''')],
     'committing an atomic section with changes in it fails',
     'the revision is reported as advanced although the changes were not committed',
     demo_sh=TX, demo_cc=TXPRE + r'''
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    unsigned long r = notmuch_database_get_revision (db, NULL);
    CK (notmuch_database_begin_atomic (db));
    CK (notmuch_message_add_tag (m, "a"));
    txfault = 1;
    if (! notmuch_database_end_atomic (db)) return 6;
    if (notmuch_database_get_revision (db, NULL) != r) { puts ("revision moved without a commit"); return 1; }
    return 0;
}
''')
seed('C12-rev-pending', 'C12',
     [('lib/database.cc', '''    if (uuid)
	*uuid = notmuch->uuid;
    return notmuch->revision;
''', '''    if (uuid)
	*uuid = notmuch->uuid;
    /* Changes of an open section already carry the next revision. */
    return notmuch->revision + notmuch->atomic_dirty;
''')],
     'the revision is read inside an atomic section after a change, and the section is never committed',
     'get_revision reports a revision that is not committed',
     demo_sh=CXX, demo_cc=TAGPRE + r'''
int main (int, char **v) {
    notmuch_database_t *db = mkdb (v[1]); notmuch_message_t *m;
    CK (notmuch_database_find_message (db, "m1@x", &m)); if (! m) return 5;
    unsigned long r = notmuch_database_get_revision (db, NULL);
    CK (notmuch_database_begin_atomic (db));
    CK (notmuch_message_add_tag (m, "a"));
    if (notmuch_database_get_revision (db, NULL) != r) { puts ("pending revision reported"); return 1; }
    CK (notmuch_database_end_atomic (db));
    return notmuch_database_get_revision (db, NULL) != r + 1;
}
''')
seed('C03-empty-tags', 'C03',
     [('notmuch-restore.c', '''    if ((flags & TAG_FLAG_REMOVE_ALL) || tag_op_list_size (tag_ops))
	ret = tag''', '''    if (tag_op_list_size (tag_ops))
	ret = tag''')],
     'a dump line without any tag, for a message that has tags now',
     'restore leaves the tags of messages that had none in the dump',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
"$nm" dump > "$d/dump" || exit 9
"$nm" tag +a '*' || exit 9
"$nm" restore < "$d/dump" || exit 9
t=$(tags '*'); [ -z "$t" ] || { echo "tags: $t"; exit 1; }
''')
seed('C03-late-property', 'C03',
     [('notmuch-restore.c', '''	    ret = process_properties_line (notmuch, line + 2);
	    if (ret)
		goto DONE;
	}

	if (! (include & DUMP_INCLUDE_TAGS))''', '''	    ret = process_properties_line (notmuch, line + 2);
	    if (ret)
		continue;
	}

	if (! (include & DUMP_INCLUDE_TAGS))''')],
     'a property line that cannot be applied after the first tag line of the dump',
     'restore exits with status 0 although a property line failed',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
printf '+a -- id:m1@x\n#= m1@x key\n' | "$nm" restore 2> /dev/null && { echo "failure not reported"; exit 1; }
exit 0
''')
seed('C03-value-equals', 'C03',
     [('notmuch-restore.c', '''	size_t off = strcspn (tok, "=");
''', '''	size_t off = tok_len;

	/* find the separator */
	while (off > 0 && tok[off - 1] != '=')
	    off--;
	off = off ? off - 1 : tok_len;
''')],
     'a message property whose value contains an equals sign',
     'the property is not restored (the key is taken to extend to the last equals sign)',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
printf '#= m1@x key=a=b\n+a -- id:m1@x\n' | "$nm" restore 2> /dev/null || { echo "restore fails"; exit 1; }
"$nm" dump | grep -q '^#= m1@x key=a=b$' || { echo "property lost"; exit 1; }
''')
seed('C09-partial', 'C09',
     [('notmuch-dump.c', '''    ret = database_dump_file (notmuch, output, query_str, output_format, include);
    if (ret) goto DONE;

    ret = gzflush (output, Z_FINISH);
    if (ret) {''', '''    ret = database_dump_file (notmuch, output, query_str, output_format, include);

    /* flush whatever was written */
    ret = gzflush (output, Z_FINISH);
    if (ret) {''')],
     'a dump to a file that fails in the middle (a query that does not parse)',
     'the existing file is replaced by an incomplete dump and the exit status is 0',
     demo_sh=NMSH + r'''
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
echo old > "$d/out"
"$nm" dump --output="$d/out" 'date:nonsense..nonsense' 2> /dev/null && { echo "failure not reported"; exit 1; }
[ "$(cat "$d/out")" = old ] || { echo "output replaced"; exit 1; }
''')
SHIM9 = NMSH + r'''
cat > "$d/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void note (char c) { int f = open (getenv ("SHIM_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600); if (f >= 0) { ((ssize_t (*) (int, const void *, size_t)) dlsym (RTLD_NEXT, "write")) (f, &c, 1); ((int (*) (int)) dlsym (RTLD_NEXT, "close")) (f); } }
static int ours (int fd) { char p[64], b[4096]; ssize_t n; snprintf (p, sizeof p, "/proc/self/fd/%d", fd); n = readlink (p, b, sizeof b - 1); return n > 0 && (b[n] = 0, strstr (b, "/dumpout") != NULL); }
ssize_t write (int fd, const void *p, size_t n) { if (ours (fd)) note ('w'); return ((ssize_t (*) (int, const void *, size_t)) dlsym (RTLD_NEXT, "write")) (fd, p, n); }
int fsync (int fd) { if (ours (fd)) note ('f'); return ((int (*) (int)) dlsym (RTLD_NEXT, "fsync")) (fd); }
int close (int fd) { int o = ours (fd), r; r = ((int (*) (int)) dlsym (RTLD_NEXT, "close")) (fd); if (o && getenv ("SHIM_CLOSE")) { errno = EIO; return -1; } return r; }
int rename (const char *a, const char *b) { if (strstr (a, "dumpout")) note ('r'); return ((int (*) (const char *, const char *)) dlsym (RTLD_NEXT, "rename")) (a, b); }
EOF
gcc -shared -fPIC -o "$d/shim.so" "$d/shim.c" -ldl || exit 9
nmreal=$nm; [ -x "$PWD/notmuch-shared" ] && [ -e "$PWD/lib/libnotmuch.so.5" ] && nmreal=$PWD/notmuch-shared
export LD_LIBRARY_PATH=$PWD/lib SHIM_LOG=$d/log
msg cur/1 m1@x; "$nm" new > /dev/null || exit 9
'''
seed('C09-sync-flush', 'C09',
     [('notmuch-dump.c', 'ret = gzflush (output, Z_FINISH);', 'ret = gzflush (output, Z_SYNC_FLUSH);')],
     'a crash right after a compressed dump was renamed over the old one',
     'the end of the compressed stream is written after the fsync, so the file on disk may be truncated',
     demo_sh=SHIM9 + r'''
LD_PRELOAD=$d/shim.so "$nmreal" dump --gzip --output="$d/dumpout" || exit 9
case $(cat "$d/log") in *f*w*r*|*r*w*|"") echo "order: $(cat "$d/log")"; exit 1;; *w*f*r) exit 0;; *) echo "order: $(cat "$d/log")"; exit 1;; esac
''')
seed('C09-rename-first', 'C09',
     [('notmuch-dump.c', '''    ret = gzclose_w (output);
    if (ret) {
	fprintf (stderr, "Error closing %s: %s\\n", name_for_error,
		 gzerror_str (output));
	ret = EXIT_FAILURE;
	output = NULL;
	goto DONE;
    } else
	output = NULL;

    if (output_file_name) {
	ret = rename (tempname, output_file_name);
	if (ret) {
	    fprintf (stderr, "Error renaming %s to %s: %s\\n",
		     tempname, output_file_name, strerror (errno));
	    goto DONE;
	}

    }
''', '''    if (output_file_name) {
	ret = rename (tempname, output_file_name);
	if (ret) {
	    fprintf (stderr, "Error renaming %s to %s: %s\\n",
		     tempname, output_file_name, strerror (errno));
	    goto DONE;
	}

    }

    ret = gzclose_w (output);
    output = NULL;
    if (ret) {
	fprintf (stderr, "Error closing %s\\n", name_for_error);
	ret = EXIT_FAILURE;
	goto DONE;
    }
''')],
     'an error when the dump is closed (as network file systems report late write errors)',
     'the dump fails but has already replaced the old output file',
     demo_sh=SHIM9 + r'''
echo old > "$d/dumpout"
SHIM_CLOSE=1 LD_PRELOAD=$d/shim.so "$nmreal" dump --output="$d/dumpout" 2> /dev/null && { echo "failure not reported"; exit 1; }
[ "$(cat "$d/dumpout")" = old ] || { echo "output replaced"; exit 1; }
''')
