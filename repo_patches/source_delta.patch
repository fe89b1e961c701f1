From 7206982f2eb8ae025f5e5fe9d3c072fac624ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 01/24] fix: hex_decode: start from size 0 when *out is NULL

hex-escape.h documents that a NULL *out makes hex_decode allocate the
output and set *out_size, and hex_encode resets *out_size in that case.
hex_decode did not: with a stale *out_size that is at least the needed
size, maybe_realloc allocated nothing and the decode wrote through NULL.
---
 util/hex-escape.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/hex-escape.c b/util/hex-escape.c
index 81534a8..9fa2233 100644
--- a/util/hex-escape.c
+++ b/util/hex-escape.c
@@ -152,6 +152,9 @@ hex_decode (void *ctx, const char *in, char **out, size_t *out_size)
 	else
 	    needed += 1;
 
+    if (*out == NULL)
+	*out_size = 0;
+
     if (! maybe_realloc (ctx, needed, out, out_size))
 	return HEX_OUT_OF_MEMORY;
 
-- 
2.43.0


From 2c89fb7ed9b5f3010c5e2e7e68ae8bfe3ce0a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 02/24] fix: hex-escape: do not truncate the buffer size to 32
 bits

talloc_realloc takes an unsigned element count, so growing an existing
buffer to 4 GiB or more allocated (needed mod 2^32) bytes and the
encoder then wrote past the end.  talloc_realloc_size takes a size_t.
---
 util/hex-escape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/hex-escape.c b/util/hex-escape.c
index 9fa2233..13c1ce8 100644
--- a/util/hex-escape.c
+++ b/util/hex-escape.c
@@ -44,7 +44,7 @@ maybe_realloc (void *ctx, size_t needed, char **out, size_t *out_size)
 	if (*out == NULL)
 	    *out = talloc_size (ctx, needed);
 	else
-	    *out = talloc_realloc (ctx, *out, char, needed);
+	    *out = talloc_realloc_size (ctx, *out, needed);
 
 	if (*out == NULL)
 	    return 0;
-- 
2.43.0


From 50707f480a98539bce689a1b2a98ddf0dfc900f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 03/24] fix: report Xapian exceptions from tag and property
 writes

Writing the document back can throw; notmuch_message_thaw,
notmuch_message_remove_all_tags and the property functions let the
exception escape through the C API.
---
 lib/message-property.cc | 15 ++++++++++-----
 lib/message.cc          | 25 ++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 7f52034..7fce415 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -110,8 +110,13 @@ _notmuch_message_modify_property (notmuch_message_t *message, const char *key, c
     if (private_status)
 	return COERCE_STATUS (private_status,
 			      "Unhandled error modifying message property");
-    if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
+    try {
+	if (! _notmuch_message_frozen (message))
+	    _notmuch_message_sync (message);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     if (term)
 	talloc_free (term);
@@ -151,14 +156,14 @@ _notmuch_message_remove_all_properties (notmuch_message_t *message, const char *
     try {
 	/* XXX better error reporting ? */
 	_notmuch_message_remove_terms (message, term_prefix);
+
+	if (! _notmuch_message_frozen (message))
+	    _notmuch_message_sync (message);
     } catch (Xapian::Error &error) {
 	LOG_XAPIAN_EXCEPTION (message, error);
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
-    if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
-
     return NOTMUCH_STATUS_SUCCESS;
 }
 
diff --git a/lib/message.cc b/lib/message.cc
index 46638f8..642a2b9 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2126,7 +2126,12 @@ notmuch_message_remove_all_tags (notmuch_message_t *message)
 	 notmuch_tags_move_to_next (tags)) {
 	tag = notmuch_tags_get (tags);
 
-	private_status = _notmuch_message_remove_term (message, "tag", tag);
+	try {
+	    private_status = _notmuch_message_remove_term (message, "tag", tag);
+	} catch (const Xapian::Error &error) {
+	    LOG_XAPIAN_EXCEPTION (message, error);
+	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	}
 	if (private_status) {
 	    return COERCE_STATUS (private_status,
 				  "_notmuch_message_remove_term return unexpected value: %d\n",
@@ -2134,8 +2139,13 @@ notmuch_message_remove_all_tags (notmuch_message_t *message)
 	}
     }
 
-    if (! message->frozen)
-	_notmuch_message_sync (message);
+    try {
+	if (! message->frozen)
+	    _notmuch_message_sync (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     talloc_free (tags);
     return NOTMUCH_STATUS_SUCCESS;
@@ -2166,8 +2176,13 @@ notmuch_message_thaw (notmuch_message_t *message)
 
     if (message->frozen > 0) {
 	message->frozen--;
-	if (message->frozen == 0)
-	    _notmuch_message_sync (message);
+	try {
+	    if (message->frozen == 0)
+		_notmuch_message_sync (message);
+	} catch (const Xapian::Error &error) {
+	    LOG_XAPIAN_EXCEPTION (message, error);
+	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	}
 	return NOTMUCH_STATUS_SUCCESS;
     } else {
 	return NOTMUCH_STATUS_UNBALANCED_FREEZE_THAW;
-- 
2.43.0


From 7aefd6b74472fd617e2dc1719d18c5a2a7c3b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 04/24] fix: report Xapian exceptions from building
 s-expression queries

Expanding a regular expression or prefix reads the database, and
parsing an infix subquery can fail; neither was caught.
---
 lib/query.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/query.cc b/lib/query.cc
index 1c60c12..424a651 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -253,12 +253,20 @@ _notmuch_query_ensure_parsed (notmuch_query_t *query)
     if (query->parsed)
 	return NOTMUCH_STATUS_SUCCESS;
 
+    try {
 #if HAVE_SFSEXP
-    if (query->syntax == NOTMUCH_QUERY_SYNTAX_SEXP)
-	return _notmuch_query_ensure_parsed_sexpr (query);
+	if (query->syntax == NOTMUCH_QUERY_SYNTAX_SEXP)
+	    return _notmuch_query_ensure_parsed_sexpr (query);
 #endif
 
-    return _notmuch_query_ensure_parsed_xapian (query);
+	return _notmuch_query_ensure_parsed_xapian (query);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (query->notmuch,
+			       "A Xapian exception occurred parsing query: %s\n",
+			       error.get_msg ().c_str ());
+	query->notmuch->exception_reported = true;
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 }
 
 const char *
-- 
2.43.0


From 06110e771157edfed4611dd470a6a35930fee9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 05/24] fix: report Xapian exceptions from filename updates

notmuch_message_tags_to_maildir_flags and
notmuch_database_remove_message update filename terms and write the
document back; exceptions from that escaped through the C API.
---
 lib/database.cc | 17 +++++++++++------
 lib/message.cc  | 38 ++++++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index 737a3f3..fff9506 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1454,13 +1454,18 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
 							&message);
 
     if (status == NOTMUCH_STATUS_SUCCESS && message) {
-	if (notmuch_message_count_files (message) > 1) {
-	    status = _notmuch_message_remove_filename (message, filename);
+	try {
+	    if (notmuch_message_count_files (message) > 1) {
+		status = _notmuch_message_remove_filename (message, filename);
+	    }
+	    if (status == NOTMUCH_STATUS_SUCCESS)
+		status = _notmuch_message_delete (message);
+	    else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
+		_notmuch_message_sync (message);
+	} catch (const Xapian::Error &error) {
+	    LOG_XAPIAN_EXCEPTION (notmuch, error);
+	    status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 	}
-	if (status == NOTMUCH_STATUS_SUCCESS)
-	    status = _notmuch_message_delete (message);
-	else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
-	    _notmuch_message_sync (message);
 
 	notmuch_message_destroy (message);
     }
diff --git a/lib/message.cc b/lib/message.cc
index 642a2b9..af1fc7d 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2077,24 +2077,30 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
 	    if (err)
 		continue;
 
-	    new_status = _notmuch_message_remove_filename (message,
-							   filename);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status
-		&& new_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
-		status = new_status;
-		continue;
-	    }
+	    try {
+		new_status = _notmuch_message_remove_filename (message,
+							       filename);
+		/* Hold on to only the first error. */
+		if (! status && new_status
+		    && new_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
+		    status = new_status;
+		    continue;
+		}
 
-	    new_status = _notmuch_message_add_filename (message,
-							filename_new);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status) {
-		status = new_status;
-		continue;
-	    }
+		new_status = _notmuch_message_add_filename (message,
+							    filename_new);
+		/* Hold on to only the first error. */
+		if (! status && new_status) {
+		    status = new_status;
+		    continue;
+		}
 
-	    _notmuch_message_sync (message);
+		_notmuch_message_sync (message);
+	    } catch (const Xapian::Error &error) {
+		LOG_XAPIAN_EXCEPTION (message, error);
+		if (! status)
+		    status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	    }
 	}
 
 	talloc_free (filename_new);
-- 
2.43.0


From 79d0c1e9e74c901f205b4a34113be5838dad1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 06/24] fix: report Xapian exceptions from message, thread and
 property lookup

notmuch_messages_get, notmuch_threads_get, notmuch_message_get_property,
notmuch_message_count_properties and notmuch_message_reindex let
exceptions from reading the database escape through the C API.
---
 lib/message-property.cc | 14 ++++++++++++--
 lib/message.cc          | 18 +++++++++++++++---
 lib/query.cc            | 36 ++++++++++++++++++++++++++----------
 3 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 7fce415..c85a9d8 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -45,7 +45,12 @@ notmuch_message_get_property (notmuch_message_t *message, const char *key, const
     if (! value)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
-    *value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    try {
+	*value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     return NOTMUCH_STATUS_SUCCESS;
 }
@@ -58,7 +63,12 @@ notmuch_message_count_properties (notmuch_message_t *message, const char *key, u
 
     notmuch_string_map_t *map;
 
-    map = _notmuch_message_property_map (message);
+    try {
+	map = _notmuch_message_property_map (message);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
     if (! map)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
diff --git a/lib/message.cc b/lib/message.cc
index af1fc7d..9513a92 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2253,9 +2253,9 @@ _notmuch_message_frozen (notmuch_message_t *message)
     return message->frozen;
 }
 
-notmuch_status_t
-notmuch_message_reindex (notmuch_message_t *message,
-			 notmuch_indexopts_t *indexopts)
+static notmuch_status_t
+_notmuch_message_reindex (notmuch_message_t *message,
+			  notmuch_indexopts_t *indexopts)
 {
     notmuch_database_t *notmuch = NULL;
     notmuch_status_t ret = NOTMUCH_STATUS_SUCCESS;
@@ -2377,3 +2377,15 @@ notmuch_message_reindex (notmuch_message_t *message,
     /* XXX TODO destroy orig_filenames? */
     return ret;
 }
+
+notmuch_status_t
+notmuch_message_reindex (notmuch_message_t *message,
+			 notmuch_indexopts_t *indexopts)
+{
+    try {
+	return _notmuch_message_reindex (message, indexopts);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+}
diff --git a/lib/query.cc b/lib/query.cc
index 424a651..3ec09e0 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -513,9 +513,17 @@ _notmuch_mset_messages_get (notmuch_messages_t *messages)
 
     doc_id = *mset_messages->iterator;
 
-    message = _notmuch_message_create (mset_messages,
-				       mset_messages->notmuch, doc_id,
-				       &status);
+    try {
+	message = _notmuch_message_create (mset_messages,
+					   mset_messages->notmuch, doc_id,
+					   &status);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (mset_messages->notmuch,
+			       "A Xapian exception occurred getting a message: %s\n",
+			       error.get_msg ().c_str ());
+	mset_messages->notmuch->exception_reported = true;
+	return NULL;
+    }
 
     if (message == NULL &&
 	status == NOTMUCH_PRIVATE_STATUS_NO_DOCUMENT_FOUND) {
@@ -679,13 +687,21 @@ notmuch_threads_get (notmuch_threads_t *threads)
 
     doc_id = g_array_index (threads->doc_ids, unsigned int,
 			    threads->doc_id_pos);
-    return _notmuch_thread_create (threads->query,
-				   threads->query->notmuch,
-				   doc_id,
-				   &threads->match_set,
-				   threads->query->exclude_terms,
-				   threads->query->omit_excluded,
-				   threads->query->sort);
+    try {
+	return _notmuch_thread_create (threads->query,
+				       threads->query->notmuch,
+				       doc_id,
+				       &threads->match_set,
+				       threads->query->exclude_terms,
+				       threads->query->omit_excluded,
+				       threads->query->sort);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (threads->query->notmuch,
+			       "A Xapian exception occurred getting a thread: %s\n",
+			       error.get_msg ().c_str ());
+	threads->query->notmuch->exception_reported = true;
+	return NULL;
+    }
 }
 
 void
-- 
2.43.0


From 7750af6aa4639cfeb1daf5776394544f11a73490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 07/24] fix: always fail an s-expression query whose infix part
 throws

Once an exception had been reported on the database handle, a failing
infix subquery was treated as a query matching nothing.
---
 lib/parse-sexp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parse-sexp.cc b/lib/parse-sexp.cc
index 9cadbc1..43c3004 100644
--- a/lib/parse-sexp.cc
+++ b/lib/parse-sexp.cc
@@ -347,8 +347,8 @@ _sexp_parse_infix (notmuch_database_t *notmuch, const sexp_t *sx, Xapian::Query
 					  "Query string was: %s\n",
 					  sx->val);
 	    notmuch->exception_reported = true;
-	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 	}
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
     return NOTMUCH_STATUS_SUCCESS;
 }
-- 
2.43.0


From 446b9703c4e93b21358db6bbb21dc0987d8a6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 08/24] fix: insert: process index options before delivering
 the message

A failure to process the indexing options made notmuch insert exit with
an error while leaving the message behind in new/.
---
 notmuch-insert.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index e44607a..d323698 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -558,6 +558,13 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (create_folder && ! maildir_create_folder (local, maildir, world_readable))
 	return EXIT_FAILURE;
 
+    status = notmuch_process_shared_indexing_options (indexopts);
+    if (status != NOTMUCH_STATUS_SUCCESS) {
+	fprintf (stderr, "Error: Failed to process index options. (%s)\n",
+		 notmuch_status_to_string (status));
+	return EXIT_FAILURE;
+    }
+
     /* Set up our handler for SIGINT. We do not set SA_RESTART so that copying
      * from standard input may be interrupted. */
     memset (&action, 0, sizeof (struct sigaction));
@@ -572,13 +579,6 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	return EXIT_FAILURE;
     }
 
-    status = notmuch_process_shared_indexing_options (indexopts);
-    if (status != NOTMUCH_STATUS_SUCCESS) {
-	fprintf (stderr, "Error: Failed to process index options. (%s)\n",
-		 notmuch_status_to_string (status));
-	return EXIT_FAILURE;
-    }
-
     /* Index the message. */
     status = add_file (notmuch, newpath, tag_ops, synchronize_flags, keep, indexopts);
 
-- 
2.43.0


From 09603ff7455b19bb38b392e7f8751e5688460112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 09/24] fix: tag: select messages needing any of the changes
 for s-expression queries

The query limiting a tag operation to the messages it affects joined its
clauses with 'and', so that messages needing only some of the changes
were silently skipped.
---
 notmuch-tag.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index 71ff06b..1925dca 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -102,7 +102,7 @@ _optimize_tag_query (void *ctx, const char *orig_query_string,
     if (tag_op_list_size (list) == 0)
 	return talloc_strdup (ctx, orig_query_string);
 
-    query_string = talloc_asprintf (ctx, "(and %s", orig_query_string);
+    query_string = talloc_asprintf (ctx, "(and %s (or", orig_query_string);
     for (size_t i = 0; i < tag_op_list_size (list) && query_string; i++) {
 	query_string = talloc_asprintf_append_buffer (
 	    query_string, tag_op_list_isremove (list, i) ? " (tag \"%s\")" : " (not (tag \"%s\"))",
@@ -110,7 +110,7 @@ _optimize_tag_query (void *ctx, const char *orig_query_string,
     }
 
     if (query_string)
-	query_string = talloc_strdup_append_buffer (query_string, ")");
+	query_string = talloc_strdup_append_buffer (query_string, "))");
 
     return query_string;
 }
-- 
2.43.0


From 41382f00c74ebd2530fa8a146c0e8a6f55f700eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 10/24] fix: tag: quote tags in s-expression queries

---
 notmuch-tag.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index 1925dca..a523111 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -88,6 +88,26 @@ _optimize_tag_query_infix (void *ctx, const char *orig_query_string,
     return query_string;
 }
 
+/* Escape a string for use in a double quoted s-expression atom. */
+static char *
+_quote_sexp (void *ctx, const char *str)
+{
+    char *quoted = talloc_array (ctx, char, 2 * strlen (str) + 1);
+    char *out = quoted;
+
+    if (quoted == NULL)
+	return NULL;
+
+    for (; *str; str++) {
+	if (*str == '"' || *str == '\\')
+	    *out++ = '\\';
+	*out++ = *str;
+    }
+    *out = '\0';
+
+    return quoted;
+}
+
 static char *
 _optimize_tag_query (void *ctx, const char *orig_query_string,
 		     notmuch_query_syntax_t stx,
@@ -104,9 +124,15 @@ _optimize_tag_query (void *ctx, const char *orig_query_string,
 
     query_string = talloc_asprintf (ctx, "(and %s (or", orig_query_string);
     for (size_t i = 0; i < tag_op_list_size (list) && query_string; i++) {
+	char *tag = _quote_sexp (ctx, tag_op_list_tag (list, i));
+
+	if (tag == NULL)
+	    return NULL;
+
 	query_string = talloc_asprintf_append_buffer (
 	    query_string, tag_op_list_isremove (list, i) ? " (tag \"%s\")" : " (not (tag \"%s\"))",
-	    tag_op_list_tag (list, i));
+	    tag);
+	talloc_free (tag);
     }
 
     if (query_string)
-- 
2.43.0


From 654f74ddca09dc4d613fa15b02b7d422088245ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 11/24] fix: report failure to commit database changes

Closing the database commits the changes made.  notmuch tag, restore, new
and reindex ignored a failure to do so and exited successfully although
the changes were lost.
---
 notmuch-new.c     |  9 ++++++++-
 notmuch-reindex.c |  8 +++++++-
 notmuch-restore.c | 11 +++++++++--
 notmuch-tag.c     |  9 ++++++++-
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 4a53e3e..bfe2999 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -1308,7 +1308,14 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	fprintf (stderr, "Note: A fatal error was encountered: %s\n",
 		 notmuch_status_to_string (ret));
 
-    notmuch_database_close (notmuch);
+    /* This commits the changes. */
+    status = notmuch_database_close (notmuch);
+    if (status) {
+	fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		 notmuch_status_to_string (status));
+	if (! ret)
+	    ret = status;
+    }
 
     if (hooks && ! ret && ! interrupted)
 	ret = notmuch_run_hook (notmuch, "post-new");
diff --git a/notmuch-reindex.c b/notmuch-reindex.c
index e9a6545..536f56a 100644
--- a/notmuch-reindex.c
+++ b/notmuch-reindex.c
@@ -131,7 +131,13 @@ notmuch_reindex_command (notmuch_database_t *notmuch, int argc, char *argv[])
 
     ret = reindex_query (notmuch, query_string, indexopts);
 
-    notmuch_database_destroy (notmuch);
+    /* This commits the changes. */
+    status = notmuch_database_destroy (notmuch);
+    if (status) {
+	fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		 notmuch_status_to_string (status));
+	ret = EXIT_FAILURE;
+    }
 
     return ret || interrupted ? EXIT_FAILURE : EXIT_SUCCESS;
 }
diff --git a/notmuch-restore.c b/notmuch-restore.c
index 1cce004..e88260a 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -451,8 +451,15 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (line_ctx != NULL)
 	talloc_free (line_ctx);
 
-    if (notmuch)
-	notmuch_database_destroy (notmuch);
+    if (notmuch) {
+	/* This commits the changes. */
+	notmuch_status_t status = notmuch_database_destroy (notmuch);
+	if (status) {
+	    fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		     notmuch_status_to_string (status));
+	    ret = EXIT_FAILURE;
+	}
+    }
 
     if (input) {
 	errnum = gzclose_r (input);
diff --git a/notmuch-tag.c b/notmuch-tag.c
index a523111..4f72792 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -254,6 +254,7 @@ notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[])
     const char *input_file_name = NULL;
     int opt_index;
     int ret;
+    notmuch_status_t status;
     notmuch_bool_t synchronize_flags;
 
     /* Set up our handler for SIGINT */
@@ -334,7 +335,13 @@ notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[])
     else
 	ret = tag_query (notmuch, notmuch, query_string, tag_ops, tag_flags);
 
-    notmuch_database_destroy (notmuch);
+    /* This commits the changes. */
+    status = notmuch_database_destroy (notmuch);
+    if (status) {
+	fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		 notmuch_status_to_string (status));
+	ret = EXIT_FAILURE;
+    }
 
     if (input != stdin)
 	fclose (input);
-- 
2.43.0


From 46db0261c8d969cd31336fd2cf2408a1b1118d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 12/24] fix: tag-util: do not take unreadable tags for no
 changes

If the tags of a message could not be read, tag_op_list_apply considered
the removal of tags to make no changes, and reported success.
---
 tag-util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tag-util.c b/tag-util.c
index accf299..bf9e4a2 100644
--- a/tag-util.c
+++ b/tag-util.c
@@ -218,7 +218,12 @@ makes_changes (notmuch_message_t *message,
     bool changes = false;
 
     /* First, do we delete an existing tag? */
-    for (tags = notmuch_message_get_tags (message);
+    tags = notmuch_message_get_tags (message);
+    if (! tags)
+	/* Unknown; let applying the changes run into the error. */
+	return true;
+
+    for (;
 	 ! changes && notmuch_tags_valid (tags);
 	 notmuch_tags_move_to_next (tags)) {
 	const char *cur_tag = notmuch_tags_get (tags);
-- 
2.43.0


From fd0b376e16c80b70ce1d696ad9773488a69429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 13/24] fix: tag: do not drop tag changes when memory runs out

---
 tag-util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tag-util.c b/tag-util.c
index bf9e4a2..6030483 100644
--- a/tag-util.c
+++ b/tag-util.c
@@ -177,7 +177,8 @@ parse_tag_command_line (void *ctx, int argc, char **argv,
 	    return TAG_PARSE_INVALID;
 	}
 
-	tag_op_list_append (tag_ops, argv[i] + 1, is_remove);
+	if (tag_op_list_append (tag_ops, argv[i] + 1, is_remove))
+	    return TAG_PARSE_OUT_OF_MEMORY;
     }
 
     *query_str = query_string_from_args (ctx, argc - i, &argv[i]);
-- 
2.43.0


From a3a867005f33b370acd096410b570d412ef2f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 14/24] fix: chomp_newline: do not look before an empty string

---
 notmuch-client.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-client.h b/notmuch-client.h
index 1a87240..90021f9 100644
--- a/notmuch-client.h
+++ b/notmuch-client.h
@@ -106,7 +106,7 @@ typedef struct notmuch_show_params {
 static inline void
 chomp_newline (char *str)
 {
-    if (str && str[strlen (str) - 1] == '\n')
+    if (str && *str && str[strlen (str) - 1] == '\n')
 	str[strlen (str) - 1] = '\0';
 }
 
-- 
2.43.0


From 0f0ff048631006835fe9180bdf89aff9999340ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 15/24] fix: look for maildir flags in the file name only

---
 lib/message.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 9513a92..ca69642 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1785,7 +1785,7 @@ _ensure_maildir_flags (notmuch_message_t *message, bool force)
 	if (! dir)
 	    continue;
 
-	flags = strstr (filename, ":2,");
+	flags = strstr (dir, ":2,");
 	if (flags) {
 	    seen_maildir_info = 1;
 	    flags += 3;
@@ -1960,7 +1960,9 @@ _new_maildir_filename (void *ctx,
 
     memset (flag_map, 0, sizeof (flag_map));
 
-    info = strstr (filename, ":2,");
+    /* The info part belongs to the file name, not to a directory. */
+    info = strrchr (filename, '/');
+    info = strstr (info ? info : filename, ":2,");
 
     if (info == NULL) {
 	info = filename + strlen (filename);
-- 
2.43.0


From b646c895fda1312bfdfaf2e14afe8cfade4532dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 16/24] fix: do not sync maildir flags of a message that cannot
 be read

---
 lib/message.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index ca69642..e8eba0f 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1877,7 +1877,7 @@ notmuch_message_maildir_flags_to_tags (notmuch_message_t *message)
  *
  * The result is returned as two talloced strings: to_set, and to_clear
  */
-static void
+static notmuch_status_t
 _get_maildir_flag_actions (notmuch_message_t *message,
 			   char **to_set_ret,
 			   char **to_clear_ret)
@@ -1887,11 +1887,15 @@ _get_maildir_flag_actions (notmuch_message_t *message,
     const char *tag;
     unsigned i;
 
+    tags = notmuch_message_get_tags (message);
+    if (! tags)
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+
     to_set = talloc_strdup (message, "");
     to_clear = talloc_strdup (message, "");
 
     /* First, find flags for all set tags. */
-    for (tags = notmuch_message_get_tags (message);
+    for (;
 	 notmuch_tags_valid (tags);
 	 notmuch_tags_move_to_next (tags)) {
 	tag = notmuch_tags_get (tags);
@@ -1923,6 +1927,8 @@ _get_maildir_flag_actions (notmuch_message_t *message,
 
     *to_set_ret = to_set;
     *to_clear_ret = to_clear;
+
+    return NOTMUCH_STATUS_SUCCESS;
 }
 
 /* Given 'filename' and a set of maildir flags to set and to clear,
@@ -2056,9 +2062,15 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
     if (status)
 	return status;
 
-    _get_maildir_flag_actions (message, &to_set, &to_clear);
+    filenames = notmuch_message_get_filenames (message);
+    if (! filenames)
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+
+    status = _get_maildir_flag_actions (message, &to_set, &to_clear);
+    if (status)
+	return status;
 
-    for (filenames = notmuch_message_get_filenames (message);
+    for (;
 	 notmuch_filenames_valid (filenames);
 	 notmuch_filenames_move_to_next (filenames)) {
 	filename = notmuch_filenames_get (filenames);
-- 
2.43.0


From 3b1f68ec60a276b5852639ee73d43825e44c0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 17/24] fix: restore: do not take a parenthesis in a message-id
 for the sup format

A batch-tag dump whose first message-id contains '(' was read as a sup
dump by the default --format=auto: every line was ignored with a warning
and restore exited successfully without restoring any tag.
---
 notmuch-restore.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index e88260a..48c1432 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -359,16 +359,18 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	goto DONE;
     }
 
-    char *p;
+    /* In sup format the message-id is followed by a space and the
+     * tags in parentheses. A parenthesis elsewhere means nothing: a
+     * (quoted) message-id in batch-tag format may well contain one. */
+    if (input_format == DUMP_FORMAT_AUTO) {
+	const char *p = strchr (line, ' ');
 
-    for (p = line; (input_format == DUMP_FORMAT_AUTO) && *p; p++) {
-	if (*p == '(')
+	if (p && p[1] == '(')
 	    input_format = DUMP_FORMAT_SUP;
+	else
+	    input_format = DUMP_FORMAT_BATCH_TAG;
     }
 
-    if (input_format == DUMP_FORMAT_AUTO)
-	input_format = DUMP_FORMAT_BATCH_TAG;
-
     if (input_format == DUMP_FORMAT_SUP)
 	if ( xregcomp (&regex,
 		       "^([^ ]+) \\(([^)]*)\\)$",
-- 
2.43.0


From d4a1029cfdd4bc954537392ea8503b1f3feae18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 18/24] fix: restore: do not crash on properties of a missing
 message

A message that has been removed since the dump is reported and skipped,
as it is for tags.
---
 notmuch-restore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 48c1432..fa20db3 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -81,6 +81,13 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
 			       notmuch_database_find_message (notmuch, id, &message)))
 	goto DONE;
 
+    if (message == NULL) {
+	fprintf (stderr, "Warning: cannot restore properties of missing message: %s\n", id);
+	/* As for tags, we consider this a non-fatal error. */
+	ret = EXIT_SUCCESS;
+	goto DONE;
+    }
+
     if (print_status_database ("notmuch restore", notmuch,
 			       notmuch_message_remove_all_properties (message, NULL)))
 	goto DONE;
-- 
2.43.0


From 4bbef90f864665e3e838d76c70732fba1b5876ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 19/24] fix: restore: refuse truncated config and property
 lines

A config line without key or value and a property line without
message-id crashed; a last property without '=' at the end of the file
read past the end of the line.
---
 notmuch-restore.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index fa20db3..d6b15bb 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -36,7 +36,11 @@ process_config_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     key_p = strtok_len_c (line, delim, &key_len);
-    val_p = strtok_len_c (key_p + key_len, delim, &val_len);
+    val_p = key_p ? strtok_len_c (key_p + key_len, delim, &val_len) : NULL;
+    if (val_p == NULL) {
+	fprintf (stderr, "missing key or value on line %s\n", line);
+	goto DONE;
+    }
 
     key = talloc_strndup (local, key_p, key_len);
     val = talloc_strndup (local, val_p, val_len);
@@ -71,6 +75,11 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     id_p = strtok_len_c (line, delim, &id_len);
+    if (id_p == NULL) {
+	fprintf (stderr, "missing message-id on line %s\n", line);
+	goto DONE;
+    }
+
     id = talloc_strndup (local, id_p, id_len);
     if (hex_decode_inplace (id) != HEX_SUCCESS) {
 	fprintf (stderr, "hex decoding failure on line %s\n", line);
@@ -97,7 +106,7 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     while ((tok = strtok_len_c (tok + tok_len, delim, &tok_len)) != NULL) {
 	char *key, *value;
 	size_t off = strcspn (tok, "=");
-	if (off > tok_len) {
+	if (off >= tok_len) {
 	    fprintf (stderr, "unparsable token %s\n", tok);
 	    goto DONE;
 	}
-- 
2.43.0


From 0df38216e1b0bedb4a7887d4a880b433aadbea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 20/24] fix: dump: fail when a message cannot be read

Tags that could not be read (a database error) were silently left out of
the dump, which still succeeded; an unreadable message or message-id
crashed.
---
 notmuch-dump.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/notmuch-dump.c b/notmuch-dump.c
index cb82d61..208f90d 100644
--- a/notmuch-dump.c
+++ b/notmuch-dump.c
@@ -102,6 +102,10 @@ dump_properties_message (void *ctx,
     bool first = true;
 
     message_id = notmuch_message_get_message_id (message);
+    if (message_id == NULL) {
+	fprintf (stderr, "Error: failed to read a message-id\n");
+	return EXIT_FAILURE;
+    }
 
     if (strchr (message_id, '\n')) {
 	fprintf (stderr, "Warning: skipping message id containing line break: \"%s\"\n", message_id);
@@ -152,8 +156,13 @@ dump_tags_message (void *ctx,
 {
     int first = 1;
     const char *message_id;
+    notmuch_tags_t *tags;
 
     message_id = notmuch_message_get_message_id (message);
+    if (message_id == NULL) {
+	fprintf (stderr, "Error: failed to read a message-id\n");
+	return EXIT_FAILURE;
+    }
 
     if (output_format == DUMP_FORMAT_BATCH_TAG &&
 	strchr (message_id, '\n')) {
@@ -166,11 +175,17 @@ dump_tags_message (void *ctx,
 	return EXIT_SUCCESS;
     }
 
+    tags = notmuch_message_get_tags (message);
+    if (tags == NULL) {
+	fprintf (stderr, "Error: failed to read the tags of message %s\n", message_id);
+	return EXIT_FAILURE;
+    }
+
     if (output_format == DUMP_FORMAT_SUP) {
 	GZPRINTF (output, "%s (", message_id);
     }
 
-    for (notmuch_tags_t *tags = notmuch_message_get_tags (message);
+    for (;
 	 notmuch_tags_valid (tags);
 	 notmuch_tags_move_to_next (tags)) {
 	const char *tag_str = notmuch_tags_get (tags);
@@ -252,6 +267,10 @@ database_dump_file (notmuch_database_t *notmuch, gzFile output,
 	 notmuch_messages_move_to_next (messages)) {
 
 	message = notmuch_messages_get (messages);
+	if (message == NULL) {
+	    fprintf (stderr, "Error: failed to read a message\n");
+	    return EXIT_FAILURE;
+	}
 
 	if ((include & DUMP_INCLUDE_TAGS) &&
 	    dump_tags_message (notmuch, message, output_format, output,
-- 
2.43.0


From 99d85edc944bf7701affecffe20370dab98f70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 21/24] fix: dump: remove only a temporary file that was
 created

When mkstemp failed, a file named like its template (OUTPUT.XXXXXX) was
removed.
---
 notmuch-dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-dump.c b/notmuch-dump.c
index 208f90d..ce04848 100644
--- a/notmuch-dump.c
+++ b/notmuch-dump.c
@@ -374,7 +374,7 @@ notmuch_database_dump (notmuch_database_t *notmuch,
     if (ret != EXIT_SUCCESS && output)
 	(void) gzclose_w (output);
 
-    if (ret != EXIT_SUCCESS && output_file_name)
+    if (ret != EXIT_SUCCESS && output_file_name && outfd >= 0)
 	(void) unlink (tempname);
 
     return ret;
-- 
2.43.0


From 1ea8751d9031c5acb7d10370351b24110f711b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 22/24] fix: gz_getline: do not read before the buffer

A line starting with a NUL byte made gz_getline look at buf[-1].
---
 util/zlib-extra.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/zlib-extra.c b/util/zlib-extra.c
index 1f5f9db..d800c29 100644
--- a/util/zlib-extra.c
+++ b/util/zlib-extra.c
@@ -63,7 +63,7 @@ gz_getline (void *talloc_ctx, char **bufptr, ssize_t *bytes_read, gzFile stream)
 
 	offset += strlen (buf + offset);
 
-	if (buf[offset - 1] == '\n')
+	if (offset > 0 && buf[offset - 1] == '\n')
 	    goto SUCCESS;
 
 	len *= 2;
-- 
2.43.0


From 6205445c780a71d74734a6a6fafb6d82df3e8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 23/24] fix: dump: fail when the configuration cannot be read

---
 notmuch-dump.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/notmuch-dump.c b/notmuch-dump.c
index ce04848..0a53184 100644
--- a/notmuch-dump.c
+++ b/notmuch-dump.c
@@ -27,13 +27,15 @@ static int
 database_dump_config (notmuch_database_t *notmuch, gzFile output)
 {
     notmuch_config_list_t *list;
+    const char *value;
     int ret = EXIT_FAILURE;
     char *buffer = NULL;
     size_t buffer_size = 0;
 
+    /* There is no list to destroy in case of failure. */
     if (print_status_database ("notmuch dump", notmuch,
 			       notmuch_database_get_config_list (notmuch, NULL, &list)))
-	goto DONE;
+	return EXIT_FAILURE;
 
     for (; notmuch_config_list_valid (list); notmuch_config_list_move_to_next (list)) {
 	if (hex_encode (notmuch, notmuch_config_list_key (list),
@@ -44,10 +46,14 @@ database_dump_config (notmuch_database_t *notmuch, gzFile output)
 	}
 	GZPRINTF (output, "#@ %s", buffer);
 
-	if (hex_encode (notmuch, notmuch_config_list_value (list),
-			&buffer, &buffer_size) != HEX_SUCCESS) {
-	    fprintf (stderr, "Error: failed to hex-encode config value %s\n",
-		     notmuch_config_list_value (list) );
+	value = notmuch_config_list_value (list);
+	if (value == NULL) {
+	    fprintf (stderr, "Error: failed to read a config value\n");
+	    goto DONE;
+	}
+
+	if (hex_encode (notmuch, value, &buffer, &buffer_size) != HEX_SUCCESS) {
+	    fprintf (stderr, "Error: failed to hex-encode config value %s\n", value);
 	    goto DONE;
 	}
 
@@ -59,8 +65,7 @@ database_dump_config (notmuch_database_t *notmuch, gzFile output)
     ret = EXIT_SUCCESS;
 
   DONE:
-    if (list)
-	notmuch_config_list_destroy (list);
+    notmuch_config_list_destroy (list);
 
     if (buffer)
 	talloc_free (buffer);
-- 
2.43.0


From e680c670ee4de7ab4a18e7b29dcefa54156cd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 24/24] fix: restore: leave tags alone when only properties are
 wanted

---
 notmuch-restore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index d6b15bb..1a6d904 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -408,6 +408,9 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 		goto DONE;
 	}
 
+	if (! (include & DUMP_INCLUDE_TAGS))
+	    continue;
+
 	if (input_format == DUMP_FORMAT_SUP) {
 	    ret = parse_sup_line (line_ctx, line, &query_string, tag_ops);
 	} else {
-- 
2.43.0

