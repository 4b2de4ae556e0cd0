From c127634960c74499479d837d397aa62d6751837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 01/19] fix: make room for U+10FFFF in character tables and
 strings

The tables indexed by code point had no element for U+10FFFF, so it was
counted out of bounds and never listed; and a suspect-marked <10FFFF>
did not fit in STRING_SIZE.
---
 src/text.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text.h b/src/text.h
index a82179b..20a768e 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,14 +53,14 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
  * combining character, that combines on top of U+25CC DOTTED CIRCLE
  * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From c8aae82c29afb487e1ff298a8730c44e6bd91260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 02/19] fix: count word length in characters, up to
 MAX_WORDLENGTH

Word lengths were counted in bytes, and words longer than 50 bytes were
counted out of bounds, in other sections of the report.
---
 src/wordacc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..b2d51e8 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -208,6 +208,17 @@ void obtain_matches()
 }
 /**********************************************************************/
 
+long word_length(string)
+char *string;
+{
+    long length = 0;
+    for (; *string; string++)
+	if ((*string & 0xC0) != 0x80)	/* skip UTF-8 continuation bytes */
+	    length++;
+    return(min(length, MAX_WORDLENGTH));
+}
+/**********************************************************************/
+
 void process_terms(termtable, length, occurs)
 Termtable *termtable;
 Wac length[], occurs[];
@@ -220,7 +231,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[word_length(termtable->array[i]->key)],
+	count, missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From acd47f57ce8ab3fbcb0fee47a65c31826195422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 03/19] fix: accept more than 32767 command line arguments

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..c858650 100644
--- a/src/util.c
+++ b/src/util.c
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    long i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From 85dac960d202a8e4f92a86f9081e828505af031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 04/19] fix: discount each stopword only once in nonstopacc

---
 src/nonstopacc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nonstopacc.c b/src/nonstopacc.c
index 43efa0c..fda4245 100644
--- a/src/nonstopacc.c
+++ b/src/nonstopacc.c
@@ -46,6 +46,7 @@ char *string;
     {
 	count  -= term->wac.count;
 	missed -= term->wac.missed;
+	term->wac.count = term->wac.missed = 0;
     }
 }
 /**********************************************************************/
-- 
2.43.0


From d32e5ccd8d94ab662ef063eae42f8980e93b2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 05/19] fix: report input/output errors instead of exiting with
 status 0

A directory given as a text file was read as an empty text, and a report
that could not be written (e.g., on a full disk) was lost silently.
---
 src/util.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index c858650..e29e45d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -90,8 +90,14 @@ char *filename, *mode;
 void close_file(f)
 FILE *f;
 {
-    if (f != stdin && f != stdout)
-	fclose(f);
+    Boolean failed;
+    failed = (ferror(f) != 0);
+    if (f == stdout)
+	failed |= (fflush(f) != 0);
+    else if (f != stdin)
+	failed |= (fclose(f) != 0);
+    if (failed)
+	error("input/output error");
 }
 /**********************************************************************/
 
@@ -258,6 +264,7 @@ int status;
 
 void terminate()
 {
+    close_file(stdout);
     quit(0);
 }
 /**********************************************************************/
-- 
2.43.0


From d7e4117e63fe3005e9a89bbf8ec884578fcca902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 06/19] fix: keep the first line of input that is not seekable

read_header() rewound the input when it did not start with a header.
Rewinding has no effect on a pipe, so its first line was lost.
---
 src/text.c | 52 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/text.c b/src/text.c
index 1837d88..9655f01 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,20 +57,43 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
+/* Bytes read by read_header() that belong to the contents (the file may not be
+ * seekable: e.g., a pipe). */
+static char pending[sizeof(TITLE)];
+static size_t pending_start, pending_stop;
+
+static int next_byte(f)
+	FILE *f;
+{
+	if (pending_start < pending_stop)
+		return((unsigned char) pending[pending_start++]);
+	return(getc(f));
+}
+/**********************************************************************/
+
 static Boolean read_header(f)
 	FILE *f;
 {
 	char line[100];
+	int byte;
+	size_t i = 0;
 	short divider_count = 0;
-	if (fgets(line, sizeof(line) - 1, f) &&
-			strncmp(line, TITLE, sizeof(TITLE) - 5) == 0)
+	while (i < sizeof(TITLE) - 5 && (byte = getc(f)) != EOF)
+	{
+		pending[i++] = byte;
+		if (strncmp(pending, TITLE, i) != 0)
+			break;
+	}
+	if (i == sizeof(TITLE) - 5 && strncmp(pending, TITLE, i) == 0)
 	{
+		while ((byte = getc(f)) != EOF && byte != NEWLINE);
 		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
 			if (strcmp(line, DIVIDER) == 0)
 				divider_count++;
 		return(True);
 	}
-	rewind(f);
+	pending_start = 0;
+	pending_stop = i;
 	return(False);
 }
 /**********************************************************************/
@@ -86,10 +109,10 @@ static void read_contents(f, text, find_markers, suspect_marker)
 	/* Buffer for one full UTF-8 code unit. */
 	utf8proc_uint8_t buffer[4];
 
-	int byte, read_status, decode_status;
-	size_t code_unit_size;
+	int byte, decode_status;
+	size_t code_unit_size, i;
 	utf8proc_int32_t code_point;
-	byte = getc(f);
+	byte = next_byte(f);
 
 	while (byte != EOF)
 	{
@@ -101,19 +124,14 @@ static void read_contents(f, text, find_markers, suspect_marker)
 
 		buffer[0] = byte;
 		/* Read the remaining bytes into the buffer. */
-		if (code_unit_size > 1) {
-			read_status = fread(
-					buffer + 1,
-					sizeof(utf8proc_uint8_t),
-					/* The first byte is already in the buffer. */
-					code_unit_size - 1,
-					f
-					);
-
-			if (read_status != (code_unit_size - 1)) {
+		/* (The first byte is already in the buffer.) */
+		for (i = 1; i < code_unit_size; i++) {
+			byte = next_byte(f);
+			if (byte == EOF) {
 				/* Could not read enough bytes. */
 				error("unexpected end of input");
 			}
+			buffer[i] = byte;
 		}
 
 		/* Decode a single code unit -> code point. */
@@ -128,7 +146,7 @@ static void read_contents(f, text, find_markers, suspect_marker)
 			append_char(text, suspect, code_point);
 			suspect = False;
 		}
-		byte = getc(f);
+		byte = next_byte(f);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From 02c8db9047ff70e995aa75072328afeb2b15790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 07/19] fix: sort already sorted arrays without exhausting the
 stack

The leftmost element as the pivot made the recursion as deep as the array
is long on sorted input: wordfreq crashed on 300,000 distinct words in
alphabetical order.
---
 src/sort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index f558dee..0d1d876 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -30,11 +30,13 @@ static int (*cmp)();
 static void quicksort(left, right)
 long left, right;
 {
-    long i, j;
+    long i, j, middle;
     void *ref;
     i = left;
     j = right;
-    ref = a[i];
+    middle = left + (right - left) / 2;
+    ref = a[middle];
+    a[middle] = a[i];
     while (i < j)
     {
 	while (i < j && (*cmp)(ref, a[j]) < 0)
-- 
2.43.0


From deb2b982709cf6be49ebe0feb0d74c346bf53486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 08/19] fix: break words around leading Extend and Format
 characters

WB4 of Unicode TR29 does not apply at the start of a region of text. Such
characters were skipped together with what follows them (even a newline),
or dropped altogether when nothing follows.
---
 src/word.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/word.c b/src/word.c
index a229bbe..32cb9f6 100644
--- a/src/word.c
+++ b/src/word.c
@@ -137,11 +137,7 @@ static Char* skip_to_end_of_extend(from)
 static Char* find_next_boundary(start)
     Char *start;
 {
-    /* The first thing the loop does is advance, so we need a dummy "start of
-     * loop" character that does not participate in the search. */
-    Char dummy;
-    dummy.next = start;
-    Char *current = &dummy;
+    Char *current;
     wb_property left = sot, right, lookahead, lookbehind;
 
     /* WB1: Break at the start and end of text. */
@@ -152,19 +148,19 @@ static Char* find_next_boundary(start)
     /* Loop to find the next word break. */
 
     /* WB2: Break at the start and end of text. */
-    while (current->next != NULL) {
-        /* Advance all the pointers. */
-        current = skip_to_next(current);
+    for (current = start; ; current = skip_to_next(current)) {
         lookbehind = left;
         left = char_property(current);
         right = char_property(skip_to_next(current));
         lookahead = char_property(skip_twice(current));
 
         /* WB3: Do not break within CRLF. */
-        if (left == CR && right == LF) continue;
+        if (left == CR && char_property(current->next) == LF)
+            return current->next;
 
-        /* WB3a: Otherwise break before and after newlines */
-        if (left == Newline || left == CR || left == LF) break;
+        /* WB3a: Otherwise break before and after newlines. Extend and Format
+         * characters that follow them begin a new region of text. */
+        if (left == Newline || left == CR || left == LF) return current;
         /* WB3b */
         if (right == Newline || right == CR || right == LF) break;
 
-- 
2.43.0


From be28201908e8b2e5dfda1af3601f8e4df18b7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 09/19] fix: read word accuracy reports with long words or
 large counts

Lines longer than 98 bytes were split, so terms after a long word were
dropped; the column of the text was wrong for counts of over 8 digits.
---
 src/wacrpt.c | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..0244c8b 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -30,9 +30,12 @@
 #define DIVIDER  "----------------------------------------\n"
 
 #define TOTAL    " Total\n"
-#define OFFSET   29
 
-static char line[100];
+static char *line;
+static size_t line_size;
+
+/* Start of the text that follows the numbers. */
+static char *line_text;
 
 /**********************************************************************/
 
@@ -65,7 +68,22 @@ long count, missed;
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    size_t length = 0;
+    do
+    {
+	if (length + 1 >= line_size)
+	{
+	    line_size += 100;
+	    line = realloc(line, line_size);
+	    if (!line)
+		error("unable to allocate memory");
+	}
+	line[length] = '\0';
+	if (!fgets(line + length, line_size - length, f))
+	    return(length > 0 ? True : False);
+	length += strlen(line + length);
+    } while (length + 1 == line_size && line[length - 1] != NEWLINE);
+    return(True);
 }
 /**********************************************************************/
 
@@ -81,8 +99,15 @@ static Boolean read_two(f, value1, value2)
 FILE *f;
 long *value1, *value2;
 {
-    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 ?
-    True : False);
+    int offset = 0;
+    if (!read_line(f) ||
+    sscanf(line, "%ld %ld %*s%n", value1, value2, &offset) != 2 || !offset)
+	return(False);
+    /* The text is preceded by three spaces. */
+    line_text = line + offset;
+    if (strncmp(line_text, "   ", 3) == 0)
+	line_text += 3;
+    return(True);
 }
 /**********************************************************************/
 
@@ -94,9 +119,9 @@ Wac wac[];
     if (read_line(f) && read_line(f))
 	while (read_two(f, &count, &missed))
 	{
-	    index = atoi(&line[OFFSET]);
+	    index = atoi(line_text);
 	    if (index == 0) {
-		if (strcmp(&line[OFFSET], TOTAL) == 0)
+		if (strcmp(line_text, TOTAL) == 0)
 		    total_count = count;
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
@@ -116,7 +141,7 @@ Termtable *termtable;
 	while (read_two(f, &count, &missed))
 	{
 	    line[strlen(line) - 1] = '\0';
-	    add_term(termtable, &line[OFFSET], count, missed);
+	    add_term(termtable, line_text, count, missed);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From ca329c1b4bafdc7e870a20c06f03d7444491dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 10/19] fix: read accuracy reports with counts of more than
 eight digits

Wide counts shift the confusion or character to the right of the fixed
column from which it was read.
---
 src/accrpt.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..1ef21d3 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,12 +37,13 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define CLASS_OFFSET  29
-#define CONF_OFFSET   20
 #define LINE_LENGTH   100
 
 static char line[LINE_LENGTH];
 
+/* Start of the text that follows the numbers. */
+static char *line_text;
+
 /**********************************************************************/
 
 static void update_class(class, count, missed)
@@ -128,12 +129,21 @@ Accops *sum_ops;
 }
 /**********************************************************************/
 
-static Boolean read_two(f, value1, value2)
+static Boolean read_two(f, value1, value2, has_pct)
 FILE *f;
 long *value1, *value2;
+Boolean has_pct;
 {
-    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 ?
-    True : False);
+    int offset = 0;
+    if (!read_line(f) ||
+    sscanf(line, (has_pct ? "%ld %ld %*s%n" : "%ld %ld%n"), value1, value2,
+    &offset) != 2 || !offset)
+        return(False);
+    /* The text is preceded by three spaces. */
+    line_text = line + offset;
+    if (strncmp(line_text, "   ", 3) == 0)
+        line_text += 3;
+    return(True);
 }
 /**********************************************************************/
 
@@ -234,14 +244,14 @@ char *filename;
     {
         while (read_line(f) && line[0] != NEWLINE);
         if (errors > 0 && read_line(f))
-            while (read_two(f, &value1, &value2)) {
+            while (read_two(f, &value1, &value2, False)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
-                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
+                add_conf(accdata, line_text, value1, value2);
             }
         if (characters > 0 && read_line(f))
-            while (read_two(f, &value1, &value2)) {
-                value3 = read_char(line + CLASS_OFFSET);
+            while (read_two(f, &value1, &value2, True)) {
+                value3 = read_char(line_text);
                 if (value3 == INVALID_CHARVALUE) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
-- 
2.43.0


From ccffe76cff27ac922b34aa1e8c3d90e690f2bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 11/19] fix: reject reports whose lengths or characters are out
 of range

They were used to index arrays beyond their bounds.
---
 src/accrpt.c |  2 +-
 src/edorpt.c |  5 +++++
 src/wacrpt.c | 19 ++++++++++++++-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 1ef21d3..1436356 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -252,7 +252,7 @@ char *filename;
         if (characters > 0 && read_line(f))
             while (read_two(f, &value1, &value2, True)) {
                 value3 = read_char(line_text);
-                if (value3 == INVALID_CHARVALUE) {
+                if (value3 >= NUM_CHARVALUES) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
                 add_class(accdata, value3, value1, value2);
diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..674fb34 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid move length in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 0244c8b..a06ff63 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -111,9 +111,11 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit, filename)
 FILE *f;
 Wac wac[];
+short limit;
+char *filename;
 {
     long count, missed, index, total_count = 0;
     if (read_line(f) && read_line(f))
@@ -126,6 +128,9 @@ Wac wac[];
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
 	    }
+	    if (index < 0 || index > limit)
+		error_string("invalid length in",
+		(filename ? filename : "stdin"));
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -159,12 +164,16 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword,
+	MAX_WORDLENGTH, filename);
+	non_stopwords = read_numbers(f, wacdata->non_stopword,
+	MAX_WORDLENGTH, filename);
+	read_numbers(f, wacdata->distinct_non_stopword,
+	MAX_OCCURRENCES + 1, filename);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase,
+	    MAX_PHRASELENGTH, filename);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From 36969a67555d9d633078db953e3c7b2db7ec85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 12/19] fix: do not take the end of a long header line for a
 divider

---
 src/text.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/text.c b/src/text.c
index 9655f01..cb7c6a8 100644
--- a/src/text.c
+++ b/src/text.c
@@ -78,6 +78,7 @@ static Boolean read_header(f)
 	int byte;
 	size_t i = 0;
 	short divider_count = 0;
+	Boolean line_start = True;
 	while (i < sizeof(TITLE) - 5 && (byte = getc(f)) != EOF)
 	{
 		pending[i++] = byte;
@@ -88,8 +89,11 @@ static Boolean read_header(f)
 	{
 		while ((byte = getc(f)) != EOF && byte != NEWLINE);
 		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
-			if (strcmp(line, DIVIDER) == 0)
+		{
+			if (line_start && strcmp(line, DIVIDER) == 0)
 				divider_count++;
+			line_start = (strchr(line, NEWLINE) != NULL);
+		}
 		return(True);
 	}
 	pending_start = 0;
-- 
2.43.0


From b4e308b6fe97f58ea9a5dd85646759c2bb35f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 13/19] fix: order confusions whose counts differ by more than
 an int

---
 src/accrpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 1436356..bc37f23 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -325,9 +325,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf1->errors > conf2->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf1->marked > conf2->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
-- 
2.43.0


From 134f2b93cdf04c1aadabd3dbc9cfaf3f25738877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 14/19] fix: report exhausted memory instead of crashing when
 copying strings

---
 src/accrpt.c | 2 +-
 src/ngram.c  | 2 +-
 src/util.c   | 9 ++++++++-
 src/util.h   | 3 +++
 src/vote.c   | 2 +-
 src/wacrpt.c | 2 +-
 src/word.c   | 4 +++-
 7 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index bc37f23..9611209 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -81,7 +81,7 @@ long errors, marked;
     else
     {
         conf = NEW(Conf);
-        conf->key = strdup(key);
+        conf->key = copy_string(key);
         conf->errors = errors;
         conf->marked = marked;
         table_insert(&accdata->conftable, conf);
diff --git a/src/ngram.c b/src/ngram.c
index 72ddbdf..fb275d0 100644
--- a/src/ngram.c
+++ b/src/ngram.c
@@ -75,7 +75,7 @@ Boolean suspect;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	for (i = 0; i < n; i++)
 	    sequence->value[i] = value[i];
 	table_insert(&seqtable, sequence);
diff --git a/src/util.c b/src/util.c
index e29e45d..d990bc2 100644
--- a/src/util.c
+++ b/src/util.c
@@ -59,6 +59,13 @@ size_t number, size;
 }
 /**********************************************************************/
 
+char *copy_string(string)
+char *string;
+{
+    return(strcpy(NEW_ARRAY(strlen(string) + 1, char), string));
+}
+/**********************************************************************/
+
 int ustrcmp(s1, s2)
 unsigned char *s1, *s2;
 {
@@ -118,7 +125,7 @@ short id;
 #else
     sprintf(name, "c:\\temp\\tempfile.%d", id);
 #endif
-    return(strdup(name));
+    return(copy_string(name));
 }
 /**********************************************************************/
 
diff --git a/src/util.h b/src/util.h
index 9172619..b9db573 100644
--- a/src/util.h
+++ b/src/util.h
@@ -58,6 +58,9 @@ typedef char Boolean;
 			/* allocate an array of "type" */
 void *allocate(/* size_t number, size_t size */);
 
+char *copy_string(/* char *string */);
+			/* allocates a copy of "string" */
+
 int ustrcmp(/* unsigned char *s1, unsigned char *s2 */);
 			/* compares strings like "strcmp" but treats characters
 			   as unsigned */
diff --git a/src/vote.c b/src/vote.c
index f8d2838..b348f49 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -137,7 +137,7 @@ short index;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	if (!reject)
 	    sequence->median = 1;
 	table_insert(&seqtable, sequence);
diff --git a/src/wacrpt.c b/src/wacrpt.c
index a06ff63..28cd1f3 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -58,7 +58,7 @@ long count, missed;
     if (!term)
     {
 	term = NEW(Term);
-	term->key = strdup(key);
+	term->key = copy_string(key);
 	table_insert(termtable, term);
     }
     increment_wac(&term->wac, count, missed);
diff --git a/src/word.c b/src/word.c
index 32cb9f6..90ae213 100644
--- a/src/word.c
+++ b/src/word.c
@@ -280,12 +280,14 @@ static void append_word(wordlist, start, end)
     Word *word;
     Char *after = end->next;
     size_t len = find_utf8_length(start, after);
-    char *buffer = malloc(len + 1);
+    char *buffer = NEW_ARRAY(len + 1, char);
     copy_into_buffer(buffer, start, after);
 
     word = NEW(Word);
     /* Convert the null-terminated string to NFC. */
     word->string = (char *) utf8proc_NFC((const utf8proc_uint8_t *) buffer);
+    if (!word->string)
+	error("unable to allocate memory");
     list_insert_last(wordlist, word);
     free(buffer);
 }
-- 
2.43.0


From 856f1b62faacc651413c06995c96655c4ec51357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 15/19] fix: find the dividers of a header whatever bytes its
 lines hold

---
 src/text.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/text.c b/src/text.c
index cb7c6a8..1082476 100644
--- a/src/text.c
+++ b/src/text.c
@@ -74,11 +74,10 @@ static int next_byte(f)
 static Boolean read_header(f)
 	FILE *f;
 {
-	char line[100];
 	int byte;
-	size_t i = 0;
+	size_t i = 0, matched = 0;
 	short divider_count = 0;
-	Boolean line_start = True;
+	Boolean is_divider = True;
 	while (i < sizeof(TITLE) - 5 && (byte = getc(f)) != EOF)
 	{
 		pending[i++] = byte;
@@ -88,11 +87,19 @@ static Boolean read_header(f)
 	if (i == sizeof(TITLE) - 5 && strncmp(pending, TITLE, i) == 0)
 	{
 		while ((byte = getc(f)) != EOF && byte != NEWLINE);
-		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
+		while (divider_count < 2 && (byte = getc(f)) != EOF)
 		{
-			if (line_start && strcmp(line, DIVIDER) == 0)
-				divider_count++;
-			line_start = (strchr(line, NEWLINE) != NULL);
+			if (byte != DIVIDER[matched])
+				is_divider = False;
+			else if (is_divider)
+				matched++;
+			if (byte == NEWLINE)
+			{
+				if (is_divider)
+					divider_count++;
+				matched = 0;
+				is_divider = True;
+			}
 		}
 		return(True);
 	}
-- 
2.43.0


From f5e97938d6c55541d12e7909af1f75d5d4492390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 16/19] fix: bound the distribution index by the array when a
 report has negative counts

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index 0a83028..bd2c2e4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -36,7 +36,7 @@ long count, missed;
     if (count == 0)
 	return;
     accuracy = 100.0 * (count - missed) / count;
-    for (i = 0; accuracy >= i; i++)
+    for (i = 0; i <= 100 && accuracy >= i; i++)
 	dist->count[i] += count;
     dist->total_count += count;
 }
-- 
2.43.0


From 8798177c4b5aae4adf06edbc190dd971ab9391fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 17/19] build: compile as GNU C90, which accepts // comments

---
 use-libocreval-internal.mk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..41881b4 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -7,8 +7,8 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
-# Compilation flags for all files.
-override CFLAGS += -ansi
+# Compilation flags for all files (C90, with GNU extensions such as // comments).
+override CFLAGS += -std=gnu90
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From 41993d9e8b0c6c2425ff57a35dc605f49e3e04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 18/19] fix: keep medians of pair counts exact beyond 2^23

---
 src/vote.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vote.c b/src/vote.c
index b348f49..96dc406 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -64,7 +64,7 @@ short suspect_weight = 1, unmarked_weight = 1;
 
 BEGIN_ENTRY(Sequence)
     long count[MAX_VOTERS];
-    float median;
+    double median;
 END_ENTRY(Sequence);
 
 BEGIN_TABLE_OF(Sequence, Seqlist)
-- 
2.43.0


From 064a761f0b1b4b1b7e34eca1fc90e8042ccf5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 19/19] fix: make room for counts of up to 19 digits in lines
 of accuracy reports

---
 src/accrpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9611209..db1214b 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,7 +37,7 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define LINE_LENGTH   100
+#define LINE_LENGTH   200
 
 static char line[LINE_LENGTH];
 
-- 
2.43.0

