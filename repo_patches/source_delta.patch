From ab8ce0a0c2c30101ca54d34317be9e6365a617fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 01/41] fix: report image files that cannot be opened or
 written in full

A failing fopen() was ignored, as were short writes and a failing
fclose(): the run exited 0 with no, or a truncated, output image.
---
 src/output.c | 42 ++++++++++++++++++++++++++++++++----------
 src/output.h |  9 +++++++++
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/output.c b/src/output.c
index a68f2ec..48dbb18 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,26 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Open an output file.  Raises an error and returns NULL on failure. */
+
+FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+/* Finish with an output file.  Raises an error if anything written to it may
+ * not have reached storage. */
+
+void output_close(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	errno = 0;
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: %s", filename,
+		      errno ? strerror(errno) : "write failed");
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +70,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -59,7 +81,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +89,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -96,7 +118,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +132,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -137,7 +159,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +167,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -180,7 +202,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +210,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -223,5 +245,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
diff --git a/src/output.h b/src/output.h
index ed9ffba..eb90942 100644
--- a/src/output.h
+++ b/src/output.h
@@ -13,6 +13,15 @@ option) any later version.
 #ifndef ASM6809_OUTPUT_H_
 #define ASM6809_OUTPUT_H_
 
+#include <stdio.h>
+
+/*
+ * Open or finish writing an output file, raising an error on failure.
+ */
+
+FILE *output_open(const char *filename);
+void output_close(FILE *f, const char *filename);
+
 /*
  * Write assembled data to a variety of output formats.
  */
-- 
2.43.0


From 3b013290325d17aa4cfd0d92f8c36bfb8364ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 02/41] fix: report listing, exports and symbols files not
 written in full

---
 src/asm6809.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..f3e92c2 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -215,12 +215,10 @@ int main(int argc, char **argv) {
 
 	/* Generate listing file */
 	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
+		FILE *listf = output_open(listing_filename);
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+			output_close(listf, listing_filename);
 		}
 	}
 
@@ -272,23 +270,19 @@ int main(int argc, char **argv) {
 
 	/* Generate exports file */
 	if (exports_filename) {
-		FILE *expf = fopen(exports_filename, "wb");
+		FILE *expf = output_open(exports_filename);
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
-		} else {
-			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
+			output_close(expf, exports_filename);
 		}
 	}
 
 	/* Generate symbols file */
 	if (symbol_filename) {
-		FILE *symf = fopen(symbol_filename, "wb");
+		FILE *symf = output_open(symbol_filename);
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
-		} else {
-			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
+			output_close(symf, symbol_filename);
 		}
 	}
 
-- 
2.43.0


From c1e1580ea1866e2243d7da00f9be056a9d527346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 03/41] fix: treat a read error in an INCLUDEBIN file as an
 error, not its end

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..fc99c64 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -972,6 +972,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "error reading file: %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From ed9cfad1575129a4f42965c3ce7b556fb955e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 04/41] fix: read lines of any length in full

fgets() was asked for as little as one byte when a token filled the
scanner's buffer.  It then returned an empty string, which was taken to
be the end of the file: everything after a line of some 16K was dropped
without an error.  A CR LF split between two pieces of a long line was
not recognised as a line ending either.
---
 src/lex.l | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..670f5b9 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -235,14 +235,26 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
-	if (!r) {
-		if (!feof(yyin)) {
-			error(error_type_fatal, "scanner read failed");
+	int len = 0;
+	int c;
+	while (len < max_size && (c = fgetc(yyin)) != EOF) {
+		if (c == '\r') {
+			int next = fgetc(yyin);
+			if (next == '\n')
+				c = '\n';
+			else if (next != EOF)
+				ungetc(next, yyin);
 		}
+		buf[len++] = c;
+		if (c == '\n')
+			break;
+	}
+	if (ferror(yyin)) {
+		error(error_type_fatal, "scanner read failed");
+	}
+	if (len == 0) {
 		if (need_eol) {
-			buf[0] = '\n';
-			buf[1] = 0;
+			buf[len++] = '\n';
 		} else {
 			if (line) {
 				free(line);
@@ -253,14 +265,10 @@ static int read_line(char *buf, int max_size) {
 		}
 	}
 
-	int len = strlen(buf);
-	if (len > 1 && buf[len-1] == '\n' && buf[len-2] == '\r') {
-		buf[len-2] = '\n';
-		len--;
-	}
 	line = xrealloc(line, line_length + len + 1);
-	memcpy(line + line_length, buf, len + 1);
+	memcpy(line + line_length, buf, len);
 	line_length = line_length + len;
+	line[line_length] = 0;
 	need_eol = 1;
 
 	if (line_length > 0 && line[line_length-1] == '\n') {
-- 
2.43.0


From a466ac9ee7fa020b6fb85f70c883d685c5656df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 05/41] fix: raise an error for NUL bytes in source files

The scanner took a NUL for the end of the file, so the rest was dropped
and the run still exited 0.
---
 src/lex.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lex.l b/src/lex.l
index 670f5b9..c696121 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -19,6 +19,7 @@ option) any later version.
 #include "xalloc.h"
 
 #include "error.h"
+#include "program.h"
 #include "register.h"
 #include "slist.h"
 
@@ -249,6 +250,13 @@ static int read_line(char *buf, int max_size) {
 		if (c == '\n')
 			break;
 	}
+	if (memchr(buf, 0, len)) {
+		// nothing downstream copes with these
+		struct prog_ctx *ctx = prog_ctx_stack->data;
+		ctx->line_number++;
+		error(error_type_syntax, "NUL byte in line");
+		ctx->line_number--;
+	}
 	if (ferror(yyin)) {
 		error(error_type_fatal, "scanner read failed");
 	}
-- 
2.43.0


From b756a4d6e79201c18522d2427c649a042372d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 06/41] fix: raise an error for stray bytes with the top bit
 set

Where char is signed, returning such a byte from the scanner made it a
negative token, which the parser takes for the end of the file: all that
followed was dropped and the run still exited 0.
---
 src/lex.l | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index c696121..888b737 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -84,7 +84,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
 {ws}*\n		{ return '\n'; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -101,7 +101,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(arg); return WS; }
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 \r		/* skip CR */
-.		{ BEGIN(INITIAL); return *yytext; }
+.		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
 
 }
 
@@ -117,7 +117,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <argnostr,argnostrnum>{
 
-\/		{ BEGIN(argnostr); return *yytext; }
+\/		{ BEGIN(argnostr); return (unsigned char)*yytext; }
 
 }
 
@@ -167,16 +167,16 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 "&&"		{ BEGIN(arg); return LAND; }
 "||"		{ BEGIN(arg); return LOR; }
 
-[\!#\%&(\*+\-\:<>\?\[\^\|\~]	{ BEGIN(arg); return *yytext; }
-[)\]]		{ BEGIN(argnostr); return *yytext; }
+[\!#\%&(\*+\-\:<>\?\[\^\|\~]	{ BEGIN(arg); return (unsigned char)*yytext; }
+[)\]]		{ BEGIN(argnostr); return (unsigned char)*yytext; }
 
-,		{ BEGIN(arg); return *yytext; }
+,		{ BEGIN(arg); return (unsigned char)*yytext; }
 
 {ws}*;.*	/* ";" introduces comment to end of line */
 {ws}+		/* skip whitespace */
 \r		/* skip CR */
-\n		{ BEGIN(INITIAL); return *yytext; }
-.		{ return *yytext; }
+\n		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
-- 
2.43.0


From 3e4b8b50bf79440962879578c9ecae112526557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 07/41] fix: raise an error when the parser gives up on a file

The return value of yyparse() was ignored, so where it failed for want
of memory or stack, what had been read so far was assembled as if it
were the whole file.
---
 src/grammar.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..3e2c05a 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -207,7 +207,8 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0)
+		error(error_type_fatal, "failed to parse file");
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From 9d8867fe0fdc44f3dedd48d75b16db5c2311f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 08/41] fix: check every allocation for failure

Failing to allocate a list element or a token's text silently dropped
data or led to a NULL dereference, as did creating a hash table.
---
 dt101/dict.c  |  2 ++
 dt101/slist.c |  4 +---
 src/lex.l     | 54 +++++++++++++++++++++++++++++----------------------
 3 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/dt101/dict.c b/dt101/dict.c
index 01d4d6d..5a50b40 100644
--- a/dt101/dict.c
+++ b/dt101/dict.c
@@ -66,6 +66,8 @@ struct dict *dict_new_full(Hash_hasher hash_func,
 	new->key_destroy_func = key_destroy_func;
 	new->value_destroy_func = value_destroy_func;
 	new->ht = hash_initialize(0, NULL, dict_ent_hash, dict_ent_equal, dict_ent_free);
+	if (!new->ht)
+		xalloc_die();
 	return new;
 }
 
diff --git a/dt101/slist.c b/dt101/slist.c
index f83e0c1..38af648 100644
--- a/dt101/slist.c
+++ b/dt101/slist.c
@@ -19,8 +19,7 @@ option) any later version.
 
 /* Wrap data in a new list container */
 static struct slist *slist_new(void *data) {
-	struct slist *new = malloc(sizeof(*new));
-	if (!new) return NULL;
+	struct slist *new = xmalloc(sizeof(*new));
 	new->next = NULL;
 	new->data = data;
 	return new;
@@ -40,7 +39,6 @@ struct slist *slist_prepend(struct slist *list, void *data) {
 struct slist *slist_insert_before(struct slist *list, struct slist *before, void *data) {
 	struct slist *ent = slist_new(data);
 	struct slist *iter;
-	if (!ent) return list;
 	if (!list) return ent;
 	ent->next = before;
 	if (before == list) return ent;
diff --git a/src/lex.l b/src/lex.l
index 888b737..5218a17 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -28,6 +28,7 @@ option) any later version.
 static int delim;
 
 static int id_or_reg(void);
+static char *text_dup(const char *s, size_t len);
 static int read_line(char *buf, int max_size);
 
 char *lex_fetch_line(void);
@@ -75,10 +76,10 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 {ws}*[;\*].*	/* ";" or "*" introduces comment to end of line */
 {ws}+		{ BEGIN(opcode); return WS; }
@@ -91,10 +92,10 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 <opcode>{
 
 {word}		{ return id_or_reg(); }
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 
 {ws}*;.*	/* ";" introduces comment to end of line */
@@ -129,15 +130,15 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <argnostrnum>{
 
-{rword}		{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext, yyleng); return ID; }
+{rword}		{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext, yyleng); return ID; }
 
 }
 
 <arg,argnostr,argnostrnum>{
 
-&\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 \+\+		{ BEGIN(argnostr); return INC2; }
 \-\-		{ BEGIN(argnostr); return DEC2; }
@@ -187,23 +188,23 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 				BEGIN(argnostr);
 				return DELIM;
 			} else {
-				yylval.as_string = strndup(yytext, yyleng);
+				yylval.as_string = text_dup(yytext, yyleng);
 				return TEXT;
 			}
 		}
 
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 &&		|
-&		{ yylval.as_string = strndup("&", 1); return TEXT; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&		{ yylval.as_string = text_dup("&", 1); return TEXT; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
-\\n		{ yylval.as_string = strndup("\n", 1); return TEXT; }
-\\r		{ yylval.as_string = strndup("\r", 1); return TEXT; }
-\\.		{ yylval.as_string = strndup(yytext+1, 1); return TEXT; }
+\\n		{ yylval.as_string = text_dup("\n", 1); return TEXT; }
+\\r		{ yylval.as_string = text_dup("\r", 1); return TEXT; }
+\\.		{ yylval.as_string = text_dup(yytext+1, 1); return TEXT; }
 
-[^\n\r"&\/\\]+	{ yylval.as_string = strndup(yytext, yyleng); return TEXT; }
+[^\n\r"&\/\\]+	{ yylval.as_string = text_dup(yytext, yyleng); return TEXT; }
 
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return '\n'; }
@@ -212,13 +213,20 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 
 %%
 
+static char *text_dup(const char *s, size_t len) {
+	char *new = xmalloc(len + 1);
+	memcpy(new, s, len);
+	new[len] = 0;
+	return new;
+}
+
 static int id_or_reg(void) {
 	enum reg_id r = reg_name_to_id(yytext);
 	if (r != REG_INVALID) {
 		yylval.as_reg = r;
 		return REGISTER;
 	}
-	yylval.as_string = strndup(yytext, yyleng);
+	yylval.as_string = text_dup(yytext, yyleng);
 	return ID;
 }
 
-- 
2.43.0


From 8fb1a5646e9ad40647c48e94cf5f3fbc21798c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 09/41] fix: report running out of memory and exit, instead of
 aborting

gnulib's xalloc_die() calls error(3), but the assembler has a function
of that name with other arguments, so it printed nothing and then called
abort().  The scanner exits with a status of 1 in this case, too.
---
 src/error.c | 10 ++++++++++
 src/lex.l   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/error.c b/src/error.c
index 3d7e764..ab32966 100644
--- a/src/error.c
+++ b/src/error.c
@@ -93,6 +93,16 @@ void error_abort(const char *fmt, ...) {
 	exit(EXIT_FAILURE);
 }
 
+/*
+ * Called by xmalloc() and friends when out of memory.  Replaces the version
+ * in gnulib, which would call the error() above as if it were error(3).
+ */
+
+void xalloc_die(void) {
+	fprintf(stderr, "error: memory exhausted\n");
+	exit(EXIT_FAILURE);
+}
+
 /*
  * Clear all errors reported in the previous pass.
  */
diff --git a/src/lex.l b/src/lex.l
index 5218a17..5cb5e62 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -34,6 +34,8 @@ static int read_line(char *buf, int max_size);
 char *lex_fetch_line(void);
 void lex_free_all(void);
 
+#define YY_EXIT_FAILURE EXIT_FAILURE
+
 #define YY_INPUT(buf,result,max_size) \
 	{ result = read_line(buf, max_size); }
 
-- 
2.43.0


From c99210dfe7c6c38a1d7dfc277f563c3143a7b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 10/41] fix: write an empty symbols file when there are no
 symbols

The symbol table was dereferenced even if it had never been created.
---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..bddc29c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,6 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From 56a2fe6f52502b1d3e5d3c5883377e96e8cda604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 11/41] fix: exit with failure when an undefined symbol is
 exported

An error was printed, but the exit status said success.
---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index f3e92c2..5ed7684 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -287,7 +287,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 1892cb8bc5ec7b0324b49d91a830867e0698ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 12/41] fix: out of range values are only fatal in a pass
 without inconsistencies

That was only so where the inconsistency came last.  If the value out of
range came last, assembly stopped without making the passes needed to
settle it.
---
 src/error.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index ab32966..f677390 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,7 +44,8 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
+	if (type > error_level &&
+	    !(type == error_type_out_of_range && error_level == error_type_inconsistent)) {
 		error_level = type;
 	}
 	if (type == error_type_inconsistent &&
-- 
2.43.0


From 7cd52efb5c5def74a883bde451ce33c935e368da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 13/41] fix: say so when a section does not settle

With nothing else amiss, the run failed without any message.
---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..cc51b61 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,7 +138,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -146,7 +145,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "end of section '%s' unstable", (char *)key);
 	}
 }
 
-- 
2.43.0


From 64f5ef2f8d380d7fb869eb93acae54c1bb62dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 14/41] fix: make another pass if the put address a section
 ends at changed

A section following one that ends after a PUT with a forward reference
was otherwise placed according to an earlier pass.
---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index cc51b61..ebc1e08 100644
--- a/src/section.c
+++ b/src/section.c
@@ -142,7 +142,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, "end of section '%s' unstable", (char *)key);
-- 
2.43.0


From 030c8be7bd970c3aef6cd611da3459a4092bd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 15/41] fix: wrap relative values in constant time

For huge values the loops took days.
---
 src/instr.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..7cb3888 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -79,11 +79,7 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	return (int)((i + 32768) & 0xffff) - 32768;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From e74396dcc7cd0012a12467d042a97f025d485a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 16/41] fix: reject fill counts larger than the address space
 outright

These raised an error for each byte beyond it, exhausting memory.
---
 src/assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index fc99c64..9bd5e2d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -877,6 +877,9 @@ static void pseudo_rzb(struct prog_line *line) {
 	long fill = have_int_optional(line->args, 1, "RZB", 0);
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for RZB");
+	} else if (count > 0x10000) {
+		error(error_type_out_of_range, "count too large for RZB");
+		return;
 	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
@@ -891,6 +894,9 @@ static void pseudo_fill(struct prog_line *line) {
 	long count = have_int_required(line->args, 1, "FILL", 0);
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for FILL");
+	} else if (count > 0x10000) {
+		error(error_type_out_of_range, "count too large for FILL");
+		return;
 	}
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
@@ -924,6 +930,8 @@ static void pseudo_align(struct prog_line *line) {
 	long count = (align - (cur_section->pc % align)) % align;
 	if (nargs < 2) {
 		section_skip(count);
+	} else if (count > 0x10000) {
+		error(error_type_out_of_range, "invalid argument to ALIGN");
 	} else {
 		for (long i = 0; i < count; i++)
 			section_emit_uint8(fill);
-- 
2.43.0


From 9a14cbc9369ff34e32ea3e21196a41bf03ccb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 17/41] fix: stop once the maximum program depth is exceeded

Macros that expand themselves several times over went on to do so at
each level, taking time exponential in the depth.
---
 src/assemble.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 9bd5e2d..e6ec9f0 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -286,8 +286,12 @@ static int64_t have_int_required(struct node *args, int aindex, const char *op,
 /* Perform an assembly pass on a program. */
 
 void assemble_prog(struct prog *prog, unsigned pass) {
+	static _Bool depth_exceeded;
+	if (prog_depth == 0)
+		depth_exceeded = 0;
 	if (prog_depth >= asm6809_options.max_program_depth) {
 		error(error_type_fatal, "maximum program depth exceeded");
+		depth_exceeded = 1;
 		return;
 	}
 	asm_pass = pass;
@@ -300,7 +304,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 	struct slist *cond_list = NULL;
 	struct slist *cond_excluded = NULL;
 
-	while (!prog_ctx_end(ctx)) {
+	while (!depth_exceeded && !prog_ctx_end(ctx)) {
 		/* Dummy line to be populated with values evaluated or not, as
 		 * appropriate. */
 		struct prog_line n_line;
@@ -567,7 +571,8 @@ next_line:
 
 	if (cond_list) {
 		slist_free(cond_list);
-		error(error_type_syntax, "IF not matched with ENDIF");
+		if (!depth_exceeded)
+			error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
 	assert(prog_depth > 0);
-- 
2.43.0


From 06b2cb55cc8a20c834ad5aff5635059586b684e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 18/41] fix: list the bytes a data pseudo-op emitted, and no
 others

Comparing the program counter to the span's put address left them out
after a PUT, and listed bytes from outside the span where an RMB
happened to end at its end.
---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index e6ec9f0..f1647e2 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -492,9 +492,12 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span const *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			// only list data if this line emitted any
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 4b671f02e69a2f2d87699cede84423e9609024da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 19/41] fix: raise an error for modulo by zero

It killed the assembler, as did taking the least integer modulo -1.
---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..e8a1ddd 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -494,7 +494,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// avoids overflow
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From b8900db875512325f001ee011b76b9820c5b1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 20/41] fix: end an unfinished macro definition along with the
 file it is in

The definition's context was freed, but lines of following files were
still added to it.
---
 src/assemble.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index f1647e2..f6ec5eb 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -578,6 +578,16 @@ next_line:
 			error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
+	/* Macro definitions may not continue beyond the end of the program
+	 * they started in. */
+	if (defining_macro_level > 0) {
+		error(error_type_syntax, "unfinished macro");
+		if (defining_macro_ctx)
+			prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+		defining_macro_level = 0;
+	}
+
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
-- 
2.43.0


From ad80276f4c345af070a717ff3b6c015697aeb612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 21/41] fix: don't emit uninitialised values for inter-register
 ops

An operand without a value left the register number unset.
---
 src/instr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 7cb3888..65c617c 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -532,9 +532,9 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
@@ -581,7 +581,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
-- 
2.43.0


From 473fbd3c90995f3bfc12dd0314fe101666168a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 22/41] fix: clear errno before checking it for --max-passes

---
 src/asm6809.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 5ed7684..a08e5a1 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -125,6 +125,7 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
+				errno = 0;
 				long v = strtol(optarg, NULL, 0);
 				if (errno != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
-- 
2.43.0


From 986ef26060054ac7d8be7e7fa9179c4db7470870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 23/41] fix: convert exec addresses to integers

The bits of a floating point value, or of a pointer to a string, were
written as the exec address.  The pass and changeable arguments were
swapped, so a change of the address between passes went unnoticed, too.
---
 src/asm6809.c  | 11 ++++++++---
 src/assemble.c | 10 +++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index a08e5a1..3da8303 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -230,12 +231,16 @@ int main(int argc, char **argv) {
 		if (!n) {
 			unsigned v = 0;
 			struct node *tmp = symbol_get(exec_option);
-			if (tmp) {
-				v = tmp->data.as_int & 0xffff;
-				node_free(tmp);
+			struct node *addr = eval_int(tmp);
+			if (addr) {
+				v = addr->data.as_int & 0xffff;
+				node_free(addr);
+			} else if (tmp) {
+				error(error_type_fatal, "exec symbol '%s' not an integer", exec_option);
 			} else {
 				error(error_type_fatal, "exec symbol '%s' not defined", exec_option);
 			}
+			node_free(tmp);
 			n = node_new_int(v);
 		}
 		symbol_force_set(".exec", n, 0, max_passes);
diff --git a/src/assemble.c b/src/assemble.c
index f6ec5eb..aec624d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1056,7 +1056,15 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	if (node_type_of(arga[0]) == node_type_undef)
+		return;
+	struct node *n = eval_int(arga[0]);
+	if (!n) {
+		error(error_type_syntax, "invalid argument to END");
+		return;
+	}
+	symbol_set(".exec", n, 0, asm_pass);
+	node_free(n);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 176ae7c3b8a416dae94a35f53d2e8327e8659d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 24/41] fix: reject data that the output format cannot
 represent

Data put beyond the 16-bit address space, or 64K of it where a format
has a 16-bit size field, led to malformed files.
---
 src/output.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/output.c b/src/output.c
index 48dbb18..7c98093 100644
--- a/src/output.c
+++ b/src/output.c
@@ -67,6 +67,16 @@ static int get_exec_addr(void) {
 	return ret;
 }
 
+/* Helper to verify that data lies within the 16-bit address space, and that
+ * its size can be represented by an output format. */
+
+static void check_span(struct section_span *span, unsigned max_size) {
+	if (span->put > 0x10000 || span->size > 0x10000 - span->put)
+		error(error_type_data, "data at $%04X lies beyond addressable memory", span->put);
+	else if (span->size > max_size)
+		error(error_type_data, "data at $%04X too large for output format", span->put);
+}
+
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
@@ -99,6 +109,7 @@ void output_dragondos(const char *filename) {
 	unsigned size = 0;
 	if (sect->spans) {
 		span = sect->spans->data;
+		check_span(span, 0xffff);
 		put = span->put;
 		size = span->size;
 	}
@@ -140,6 +151,7 @@ void output_coco(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0xffff);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		if (exec_addr < 0)
@@ -175,6 +187,7 @@ void output_motorola_srec(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0x10000);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
@@ -218,6 +231,7 @@ void output_intel_hex(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0x10000);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
-- 
2.43.0


From 93042633d912362042a2481edd0f86875204d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 25/41] fix: resolve references to a label on the same line in
 the first pass

A back reference to a local label on its own line found the one before
that in the first pass, but itself in any further passes.
---
 src/assemble.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index aec624d..889471f 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -464,23 +464,26 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		}
 
 		/* Anything else needs a fully evaluated list of arguments */
-		n_line.args = eval_node(l->args);
 
 		/* Pseudo-ops which determine a label's value */
 		void (*op_handler)(struct prog_line *);
 		if (n_line.opcode) {
 			op_handler = dict_lookup(pseudo_label_dict, n_line.opcode->data.as_string);
 			if (op_handler) {
+				n_line.args = eval_node(l->args);
 				op_handler(&n_line);
 				goto next_line;
 			}
 		}
 
-		/* Otherwise, any label on the line gets PC as its value */
+		/* Otherwise, any label on the line gets PC as its value.  Done
+		 * before evaluating arguments, as they may refer to it. */
 		if (n_line.label) {
 			set_label(n_line.label, node_new_int(cur_section->pc), 0);
 		}
 
+		n_line.args = eval_node(l->args);
+
 		/* No opcode?  Next line. */
 		if (!n_line.opcode) {
 			if (n_line.label)
-- 
2.43.0


From 54a61a273b320f93fc4ffb26209f9246624f0db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 26/41] fix: discard the data of sections not used in the last
 pass

Data assembled to a section in an earlier pass was output even if that
section had no part in the last one.
---
 src/section.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/section.c b/src/section.c
index ebc1e08..ebc4384 100644
--- a/src/section.c
+++ b/src/section.c
@@ -142,6 +142,12 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	if (sect->pass != cur_section->pass) {
+		// not used in this pass, discard data from earlier ones
+		slist_free_full(sect->spans, (slist_free_func)section_span_free);
+		sect->spans = NULL;
+		sect->span = NULL;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From 0f57ff4a180143cf638876ee8adea88253d0ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 27/41] fix: consider empty, undefined and array values equal
 to themselves

A symbol with such a value was reported as unstable until the permitted
passes ran out.  Undefined ones raise an error when used.
---
 src/node.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..6a84bc1 100644
--- a/src/node.c
+++ b/src/node.c
@@ -140,12 +140,20 @@ struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 }
 
 _Bool node_equal(struct node const *n1, struct node const *n2) {
-	if (node_type_of(n1) == node_type_undef ||
-	    node_type_of(n2) == node_type_undef)
+	if (node_type_of(n1) != node_type_of(n2))
 		return 0;
-	if (n1->type != n2->type)
-		return 0;
-	switch (n1->type) {
+	switch (node_type_of(n1)) {
+	case node_type_undef:
+	case node_type_empty:
+		return 1;
+	case node_type_array:
+		if (n1->data.as_array.nargs != n2->data.as_array.nargs)
+			return 0;
+		for (int i = 0; i < n1->data.as_array.nargs; i++) {
+			if (!node_equal(n1->data.as_array.args[i], n2->data.as_array.args[i]))
+				return 0;
+		}
+		return 1;
 	case node_type_float:
 		return n1->data.as_float == n2->data.as_float;
 	case node_type_int:
-- 
2.43.0


From 470a921cf8d23c60f8d8c4b567b3ccdc184d1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 28/41] fix: redefine macros in each pass

Only the first definition of a macro ever encountered was used, even if
the last pass selected another.
---
 src/assemble.c | 10 +++++++---
 src/program.c  |  8 +++++++-
 src/program.h  |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 889471f..07f3d2a 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1021,11 +1021,15 @@ static void pseudo_macro(struct prog_line *line) {
 	}
 	struct prog *macro = prog_macro_by_name(name);
 	if (macro) {
-		if (macro->pass == asm_pass)
+		if (macro->pass == asm_pass) {
 			error(error_type_syntax, "macro '%s' redefined", name);
-		return;
+			return;
+		}
+		// new pass, the definition may have changed
+		prog_free_lines(macro);
+	} else {
+		macro = prog_new_macro(name);
 	}
-	macro = prog_new_macro(name);
 	macro->pass = asm_pass;
 	defining_macro_ctx = prog_ctx_new(macro);
 }
diff --git a/src/program.c b/src/program.c
index 6e064d0..47579b9 100644
--- a/src/program.c
+++ b/src/program.c
@@ -75,8 +75,14 @@ struct prog *prog_new_macro(const char *name) {
 	return macro;
 }
 
-void prog_free(struct prog *f) {
+void prog_free_lines(struct prog *f) {
 	slist_free_full(f->lines, (slist_free_func)prog_line_free);
+	f->lines = NULL;
+	f->next_new_line = &f->lines;
+}
+
+void prog_free(struct prog *f) {
+	prog_free_lines(f);
 	free(f->name);
 	free(f);
 }
diff --git a/src/program.h b/src/program.h
index 522fda7..e15f6a0 100644
--- a/src/program.h
+++ b/src/program.h
@@ -70,6 +70,7 @@ struct prog *prog_new(enum prog_type type, const char *name);
 struct prog *prog_new_file(const char *filename);
 struct prog *prog_new_macro(const char *name);
 void prog_free(struct prog *f);
+void prog_free_lines(struct prog *f);
 void prog_free_all(void);  // for tidying up
 struct prog *prog_macro_by_name(const char *name);
 
-- 
2.43.0


From 1a028fdf9775839504d8e332367f9c67ef51f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 29/41] fix: make another pass when local labels come, go or
 move

Only a changed value of one at the same position triggered another pass.
Ones left over from an earlier pass could still be referred to.
---
 src/section.c |  1 +
 src/symbol.c  | 30 +++++++++++++++++++++++++++---
 src/symbol.h  |  7 +++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/section.c b/src/section.c
index ebc4384..8343ac3 100644
--- a/src/section.c
+++ b/src/section.c
@@ -148,6 +148,7 @@ static void verify_section(void *key, void *value, void *data) {
 		sect->spans = NULL;
 		sect->span = NULL;
 	}
+	symbol_local_finish_pass(sect->local_labels, cur_section->pass);
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
diff --git a/src/symbol.c b/src/symbol.c
index bddc29c..73b6b66 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -48,6 +48,7 @@ struct symbol {
 };
 
 struct symbol_local {
+	unsigned pass;
 	unsigned line_number;
 	struct node *node;
 };
@@ -218,7 +219,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -233,10 +233,11 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
+	new_sym->pass = pass;
 	new_sym->line_number = line_number;
 	new_sym->node = newn;
-	if (old_sym) {
-		if (!node_equal(old_sym->node, newn))
+	if (old_sym || pass > 0) {
+		if (!old_sym || !node_equal(old_sym->node, newn))
 			error(error_type_inconsistent,
 			      "value of local label '%ld' unstable", key);
 	}
@@ -245,3 +246,26 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+static void symbol_local_list_finish_pass(void *key, void *value, void *data) {
+	gl_list_t sym_list = value;
+	unsigned pass = *(unsigned *)data;
+	gl_list_iterator_t iter = gl_list_iterator(sym_list);
+	const void *elt;
+	gl_list_node_t node;
+	_Bool removed = 0;
+	while (gl_list_iterator_next(&iter, &elt, &node)) {
+		struct symbol_local const *sym = elt;
+		if (sym->pass != pass) {
+			gl_list_remove_node(sym_list, node);
+			removed = 1;
+		}
+	}
+	gl_list_iterator_free(&iter);
+	if (removed)
+		error(error_type_inconsistent, "value of local label '%ld' unstable", (long)(intptr_t)key);
+}
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	dict_foreach(table, symbol_local_list_finish_pass, &pass);
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..1764e00 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -59,4 +59,11 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
 
+/*
+ * Called at the end of a pass.  Removes any local labels left over from an
+ * earlier one, raising an inconsistency if there were any.
+ */
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass);
+
 #endif
-- 
2.43.0


From 52cc028caf6ef37c2607bdb4635e917e8835ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 30/41] fix: make another pass if a forward reference saw a
 stale value

Symbols defined by SET are allowed to change, so a forward reference to
one could be assembled with its value from an earlier pass.  Likewise, a
symbol taken to be zero by IF could turn out to be defined.
---
 src/asm6809.c |  2 ++
 src/symbol.c  | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 src/symbol.h  |  9 ++++++++
 3 files changed, 67 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 3da8303..415e49e 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -196,11 +196,13 @@ int main(int argc, char **argv) {
 	for (unsigned pass = 0; pass < max_passes; pass++) {
 		error_clear_all();
 		listing_free_all();
+		symbol_start_pass(pass);
 		section_set("CODE", pass);
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
 			assemble_prog(f, pass);
 		}
+		symbol_finish_pass();
 		section_finish_pass();
 		/* Only inconsistencies trigger another pass */
 		if (error_level != error_type_inconsistent)
diff --git a/src/symbol.c b/src/symbol.c
index 73b6b66..d264c12 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -44,7 +44,9 @@ _Bool symbol_ignore_undefined = 0;
 
 struct symbol {
 	unsigned pass;
+	_Bool changeable;
 	struct node *node;
+	struct node *early;  // value used in this pass ahead of definition
 };
 
 struct symbol_local {
@@ -55,8 +57,17 @@ struct symbol_local {
 
 static struct dict *symbols = NULL;
 
+static unsigned symbol_pass = 0;
+
+/*
+ * Names of symbols assumed to be zero in this pass for want of a definition.
+ */
+
+static struct dict *assumed = NULL;
+
 static void symbol_free(struct symbol *s) {
 	node_free(s->node);
+	node_free(s->early);
 	free(s);
 }
 
@@ -81,7 +92,9 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	}
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
+	news->changeable = changeable;
 	news->node = eval_node(value);
+	news->early = olds ? node_ref(olds->early) : NULL;
 	_Bool is_inconsistent = (olds && !node_equal(olds->node, news->node));
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
@@ -99,8 +112,15 @@ struct node *symbol_try_get(const char *key) {
 
 struct node *symbol_get(const char *key) {
 	struct node *n = symbol_try_get(key);
-	if (!n) {
+	if (n) {
+		struct symbol *s = dict_lookup(symbols, key);
+		if (s->pass != symbol_pass && !s->early)
+			s->early = node_ref(n);
+	} else {
 		if (symbol_ignore_undefined) {
+			if (!assumed)
+				assumed = dict_new_full(dict_str_hash, dict_str_equal, free, NULL);
+			dict_add(assumed, xstrdup(key));
 			return node_new_int(0);
 		} else {
 			error(error_type_inconsistent, "symbol '%s' not defined", key);
@@ -109,6 +129,41 @@ struct node *symbol_get(const char *key) {
 	return n;
 }
 
+void symbol_start_pass(unsigned pass) {
+	symbol_pass = pass;
+}
+
+static void verify_symbol(void *key, void *value, void *data) {
+	(void)data;
+	struct symbol *s = value;
+	// for any others, symbol_set() raises this
+	if (s->changeable && s->early && !node_equal(s->early, s->node))
+		error(error_type_inconsistent, "value of '%s' unstable", (char *)key);
+	node_free(s->early);
+	s->early = NULL;
+}
+
+static void verify_assumed(void *key, void *value, void *data) {
+	(void)value;
+	(void)data;
+	struct symbol *s = dict_lookup(symbols, key);
+	if (!s || !s->node)
+		return;
+	if (node_type_of(s->node) == node_type_int && s->node->data.as_int == 0)
+		return;
+	error(error_type_inconsistent, "value of '%s' unstable", (char *)key);
+}
+
+void symbol_finish_pass(void) {
+	if (symbols)
+		dict_foreach(symbols, verify_symbol, NULL);
+	if (assumed) {
+		dict_foreach(assumed, verify_assumed, NULL);
+		dict_destroy(assumed);
+		assumed = NULL;
+	}
+}
+
 static void add_to_list(const char *key, struct node *value, struct slist **l) {
 	(void)value;
 	*l = slist_prepend(*l, (void *)key);
diff --git a/src/symbol.h b/src/symbol.h
index 1764e00..a182369 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -45,6 +45,15 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 struct node *symbol_try_get(const char *key);
 struct node *symbol_get(const char *key);
 
+/*
+ * Called at the start and end of each pass.  The latter raises an inconsistency
+ * for each symbol that was used ahead of its definition in this pass with a
+ * value other than the one it ended up with.
+ */
+
+void symbol_start_pass(unsigned pass);
+void symbol_finish_pass(void);
+
 /*
  * Return list of all symbol names.  Data of type 'const char *', do not free.
  */
-- 
2.43.0


From 2398feaf117e8f8872f516303bad24a6c2e7f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 31/41] fix: start every pass with symbols as defined on the
 command line

---
 src/asm6809.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 415e49e..b700f14 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -80,9 +80,11 @@ static struct option long_options[] = {
 };
 
 static struct slist *files = NULL;
+static struct slist *defines = NULL;
 
 static struct node *simple_parse_int(const char *);
 static void define_symbol(const char *);
+static void reset_symbol(const char *, unsigned pass);
 static void helptext(void);
 static void versiontext(void);
 static _Noreturn void tidy_up_and_exit(int status);
@@ -123,6 +125,7 @@ int main(int argc, char **argv) {
 			break;
 		case 'd':
 			define_symbol(optarg);
+			defines = slist_append(defines, optarg);
 			break;
 		case 'P':
 			{
@@ -197,6 +200,9 @@ int main(int argc, char **argv) {
 		error_clear_all();
 		listing_free_all();
 		symbol_start_pass(pass);
+		/* SET may have changed these in the previous pass */
+		for (struct slist *l = defines; l; l = l->next)
+			reset_symbol(l->data, pass);
 		section_set("CODE", pass);
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
@@ -328,22 +334,39 @@ static struct node *simple_parse_int(const char *str) {
 	return n;
 }
 
-static void define_symbol(const char *str) {
+/* Split SYM[=NUMBER] into (newly allocated) key and value. */
+
+static char *parse_definition(const char *str, struct node **value) {
 	char *key = xstrdup(str);
 	char *tmp = strchr(key, '=');
-	struct node *value;
 	if (tmp) {
 		*(tmp++) = 0;
-		value = simple_parse_int(tmp);
+		*value = simple_parse_int(tmp);
 	} else {
-		value = node_new_int(1);
+		*value = node_new_int(1);
 	}
+	return key;
+}
+
+static void define_symbol(const char *str) {
+	struct node *value;
+	char *key = parse_definition(str, &value);
 	// TODO: check that key is a valid symbol name
 	symbol_set(key, value, 0, 0);
 	free(key);
 	node_free(value);
 }
 
+/* Start a pass with the symbol as it was defined. */
+
+static void reset_symbol(const char *str, unsigned pass) {
+	struct node *value;
+	char *key = parse_definition(str, &value);
+	symbol_force_set(key, value, 1, pass);
+	free(key);
+	node_free(value);
+}
+
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
 static void helptext(void) {
@@ -398,6 +421,10 @@ static _Noreturn void tidy_up_and_exit(int status) {
 		slist_free(files);
 		files = NULL;
 	}
+	if (defines) {
+		slist_free(defines);
+		defines = NULL;
+	}
 	listing_free_all();
 	prog_free_all();
 	symbol_free_all();
-- 
2.43.0


From fc5a4932f45087b26961d3a4e91aac000b014bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 32/41] fix: write exported values and macros in a form that
 reads back the same

Escape special characters in text, print all operators, print floating
point values in full, and leave out internal names.
---
 src/node.c    | 92 +++++++++++++++++++++++++++++++++++++++++++++++----
 src/node.h    |  1 +
 src/program.c | 19 +++++++----
 3 files changed, 98 insertions(+), 14 deletions(-)

diff --git a/src/node.c b/src/node.c
index 6a84bc1..84e33c9 100644
--- a/src/node.c
+++ b/src/node.c
@@ -303,11 +303,67 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
 }
 
+/* Text as it has to appear between delimiters. */
+
+static void print_text(FILE *f, const char *s) {
+	for (; s && *s; s++) {
+		switch (*s) {
+		case '\n':
+			fprintf(f, "\\n");
+			break;
+		case '\r':
+			fprintf(f, "\\r");
+			break;
+		case '/': case '"': case '&': case '\\':
+			fputc('\\', f);
+			/* fall through */
+		default:
+			fputc(*s, f);
+			break;
+		}
+	}
+}
+
+/* There is no exponent in the syntax for floating point values, so print as
+ * many decimal places as it takes to read the same value back. */
+
+static void print_float(FILE *f, double v) {
+	char buf[1500];
+	if (v - v != 0) {
+		error(error_type_syntax, "can't export value that is not finite");
+		return;
+	}
+	for (int prec = 6; prec < 1100; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	fprintf(f, "%s", buf);
+}
+
+/* Operands that might otherwise run into an adjacent operator. */
+
+static void print_operand(FILE *f, struct node const *n) {
+	_Bool paren = node_type_of(n) == node_type_pc
+		      || (node_type_of(n) == node_type_int && n->data.as_int < 0);
+	if (paren)
+		fputc('(', f);
+	node_print(f, n);
+	if (paren)
+		fputc(')', f);
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -347,10 +403,13 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_empty:
 		break;
 	case node_type_int:
-		fprintf(f, "%"PRId64, n->data.as_int);
+		if (n->data.as_int == INT64_MIN)
+			fprintf(f, "(%"PRId64"-1)", n->data.as_int + 1);
+		else
+			fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		print_float(f, n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
@@ -382,7 +441,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node const *part = l->data;
+			if (node_type_of(part) == node_type_string)
+				print_text(f, part->data.as_string);
+			else
+				node_print(f, part);
 		}
 		fprintf(f, "/");
 		break;
@@ -390,11 +453,18 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "(");
 		if (n->data.as_oper.nargs == 1) {
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
-			node_print(f, n->data.as_oper.args[0]);
+			print_operand(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
-			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
-			node_print(f, n->data.as_oper.args[1]);
+			print_operand(f, n->data.as_oper.args[0]);
+			// space stops "%" introducing a binary value
+			fprintf(f, "%s ", opstr(n->data.as_oper.oper));
+			print_operand(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			print_operand(f, n->data.as_oper.args[0]);
+			fprintf(f, "?");
+			print_operand(f, n->data.as_oper.args[1]);
+			fprintf(f, ":");
+			print_operand(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
@@ -427,6 +497,14 @@ void node_print(FILE *f, struct node const *n) {
 	}
 }
 
+void node_print_text(FILE *f, struct node const *n) {
+	if (node_type_of(n) != node_type_string)
+		return;
+	fputc('/', f);
+	print_text(f, n->data.as_string);
+	fputc('/', f);
+}
+
 void node_print_array(FILE *f, struct node const *n) {
 	if (!n)
 		return;
diff --git a/src/node.h b/src/node.h
index 74998a9..38f2789 100644
--- a/src/node.h
+++ b/src/node.h
@@ -202,6 +202,7 @@ struct node *node_array_push(struct node *a, struct node *n);
  */
 
 void node_print(FILE *f, struct node const *n);
+void node_print_text(FILE *f, struct node const *n);  // print string with delimiters
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
 #endif
diff --git a/src/program.c b/src/program.c
index 47579b9..ea5ce2f 100644
--- a/src/program.c
+++ b/src/program.c
@@ -235,7 +235,6 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
 		n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
@@ -246,21 +245,27 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_int:
 		case node_type_float:
 		case node_type_reg:
-			break;
 		case node_type_string:
-			delim = '/';
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (node_type_of(n) == node_type_string)
+			node_print_text(f, n);
+		else
+			node_print(f, n);
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
 	}
 }
 
+/* Names starting '.' are internal, and could not be read back in. */
+
+static void print_named_symbol(const char *key, FILE *f) {
+	if (*key != '.')
+		print_symbol(key, f);
+}
+
 static void print_exported(const char *key, void *value, FILE *f) {
 	(void)value;
 	struct prog *macro = prog_macro_by_name(key);
@@ -291,6 +296,6 @@ void prog_print_exports(FILE *f) {
 
 void prog_print_symbols(FILE *f) {
 	struct slist *symbols = symbol_get_list();
-	slist_foreach(symbols, (slist_iter_func)print_symbol, f);
+	slist_foreach(symbols, (slist_iter_func)print_named_symbol, f);
 	slist_free(symbols);
 }
-- 
2.43.0


From f070edc619ed9533c385c2e95e6fa402296e778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 33/41] fix: keep line numbers right after a line with a syntax
 error

---
 src/grammar.y | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index 3e2c05a..038fb51 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -188,10 +188,11 @@ strpart	: TEXT			{ $$ = node_new_string($1); }
 %%
 
 static void raise_error(void) {
-	// discard line with error - going to fail anyway
-	char *l = lex_fetch_line();
-	free(l);
-	cur_ctx->line_number++;
+	// keep an empty line in place of the one with the error - going to
+	// fail anyway, but later lines must keep their numbers
+	struct prog_line *line = prog_line_new(NULL, NULL, NULL);
+	prog_line_set_text(line, lex_fetch_line());
+	prog_ctx_add_line(cur_ctx, line);
 	error(error_type_syntax, "");
 }
 
-- 
2.43.0


From af30fdcb5bf76fb322129e78ceb7bbe50e95d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 34/41] fix: do not write beyond the data of a span near the
 top of the int range

An ORG just below INT_MAX made the sum used to decide whether to grow the
buffer of the span overflow, and the first byte was written through NULL.
---
 src/section.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/section.c b/src/section.c
index 8343ac3..9b67462 100644
--- a/src/section.c
+++ b/src/section.c
@@ -261,9 +261,9 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 
 	cur_section->put += nbytes;
-	cur_section->pc += nbytes;
+	cur_section->pc = (unsigned)cur_section->pc + nbytes;
 
-	if (cur_section->pc >= (int)(span->org + span->allocated)) {
+	while (span->size + nbytes > span->allocated) {
 		span->allocated += 128;
 		span->data = xrealloc(span->data, span->allocated);
 	}
@@ -275,7 +275,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 	span->size += nbytes;
 
-	if (cur_section->pc > 0x10000) {
+	if (span->org + (int64_t)span->size > 0x10000) {
 		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 }
-- 
2.43.0


From 20d76e35a8b171cacdfced6576b0001e3b0a0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 35/41] fix: reject addresses and sizes too large for the
 program counter

ORG, PUT, RMB and ALIGN silently dropped the high bits of their argument.
---
 src/assemble.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 07f3d2a..8070162 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -13,6 +13,7 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -660,6 +661,10 @@ static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < INT_MIN || new_pc > INT_MAX) {
+		error(error_type_out_of_range, "invalid address for ORG");
+		return;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -707,6 +712,10 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > UINT_MAX) {
+		error(error_type_out_of_range, "invalid address for PUT");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
@@ -933,6 +942,10 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (count > INT_MAX - (long)cur_section->pc || count > INT_MAX) {
+		error(error_type_out_of_range, "argument to RMB too large");
+		return;
+	}
 	section_skip(count);
 }
 
@@ -950,6 +963,10 @@ static void pseudo_align(struct prog_line *line) {
 	}
 	long count = (align - (cur_section->pc % align)) % align;
 	if (nargs < 2) {
+		if (count > INT_MAX - (long)cur_section->pc || count > INT_MAX) {
+			error(error_type_out_of_range, "invalid argument to ALIGN");
+			return;
+		}
 		section_skip(count);
 	} else if (count > 0x10000) {
 		error(error_type_out_of_range, "invalid argument to ALIGN");
-- 
2.43.0


From 8a5f28c603c0276086834f0368d59fb34e8e4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 36/41] fix: resolve the exec option before writing any output

---
 src/asm6809.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index b700f14..63f5d12 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -220,17 +220,6 @@ int main(int argc, char **argv) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-	/* Otherwise print any warnings */
-	error_print_list();
-
-	/* Generate listing file */
-	if (listing_filename) {
-		FILE *listf = output_open(listing_filename);
-		if (listf) {
-			listing_print(listf);
-			output_close(listf, listing_filename);
-		}
-	}
 
 	/* Special parsing of option exec address option.  Overrides any use of
 	 * the END pseudo-op. */
@@ -254,6 +243,23 @@ int main(int argc, char **argv) {
 		symbol_force_set(".exec", n, 0, max_passes);
 	}
 
+	/* Nothing is written if that failed */
+	if (error_level >= error_type_inconsistent) {
+		error_print_list();
+		tidy_up_and_exit(EXIT_FAILURE);
+	}
+	/* Otherwise print any warnings */
+	error_print_list();
+
+	/* Generate listing file */
+	if (listing_filename) {
+		FILE *listf = output_open(listing_filename);
+		if (listf) {
+			listing_print(listf);
+			output_close(listf, listing_filename);
+		}
+	}
+
 	// XXX At the moment listing generation must precede output, as
 	// coelescing spans might screw with the span data to which the listing
 	// refers.  Not a big deal, but needs fixing.
-- 
2.43.0


From 3f2017b7c853492cdf01265625e12de824b0f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 37/41] fix: refuse undefined exports before writing any output

---
 src/asm6809.c |  6 +++++-
 src/program.c | 15 +++++++++++++++
 src/program.h |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 63f5d12..be5fe88 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -243,7 +243,11 @@ int main(int argc, char **argv) {
 		symbol_force_set(".exec", n, 0, max_passes);
 	}
 
-	/* Nothing is written if that failed */
+	/* What is to be exported has to exist */
+	if (exports_filename)
+		prog_check_exports();
+
+	/* Nothing is written if any of that failed */
 	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
diff --git a/src/program.c b/src/program.c
index ea5ce2f..7191faf 100644
--- a/src/program.c
+++ b/src/program.c
@@ -288,6 +288,21 @@ static void print_exported(const char *key, void *value, FILE *f) {
 	print_symbol(key, f);
 }
 
+static void check_exported(const char *key, void *value, void *data) {
+	(void)value;
+	(void)data;
+	if (!prog_macro_by_name(key))
+		node_free(symbol_get(key));
+}
+
+/* Raise an error for each exported name that is not defined. */
+
+void prog_check_exports(void) {
+	if (!exports)
+		return;
+	dict_foreach(exports, (dict_iter_func)check_exported, NULL);
+}
+
 void prog_print_exports(FILE *f) {
 	if (!exports)
 		return;
diff --git a/src/program.h b/src/program.h
index e15f6a0..e30809b 100644
--- a/src/program.h
+++ b/src/program.h
@@ -87,6 +87,7 @@ _Bool prog_ctx_end(struct prog_ctx *ctx);
 
 void prog_export(const char *name);
 void prog_free_exports(void);
+void prog_check_exports(void);
 void prog_print_exports(FILE *f);
 
 void prog_print_symbols(FILE *f);
-- 
2.43.0


From eb9dde6c56840be0f2076e84449b4c7e933d5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 38/41] fix: end a macro definition at an ENDM with bad
 arguments

The definition was left open, and its context, freed at the end of the
file, was used for the lines following.
---
 src/assemble.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 8070162..40cde4e 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1057,6 +1057,11 @@ static void pseudo_macro(struct prog_line *line) {
 /* TODO: argument not actually checked yet */
 
 static void pseudo_endm(struct prog_line *line) {
+	/* Even with bad arguments, the definition ends here */
+	if (defining_macro_ctx) {
+		prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+	}
 	int nargs = node_array_count(line->args);
 	struct node **arga = node_array_of(line->args);
 	if (nargs > 1) {
@@ -1067,10 +1072,6 @@ static void pseudo_endm(struct prog_line *line) {
 		error(error_type_syntax, "invalid argument to ENDM");
 		return;
 	}
-	if (!defining_macro_ctx)
-		return;
-	prog_ctx_free(defining_macro_ctx);
-	defining_macro_ctx = NULL;
 }
 
 /* END.  Specify EXEC address. */
-- 
2.43.0


From 4efb991ef76abd61cb4362b6688b78064733be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 39/41] fix: limit how deep operators may nest in an expression

Expressions are evaluated recursively, so one with hundreds of thousands
of operators overflowed the stack.
---
 src/eval.c |  5 ++++-
 src/node.c | 27 ++++++++++++++++++++++++---
 src/node.h |  1 +
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index e8a1ddd..a68e581 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -104,7 +104,10 @@ struct node *eval_node(struct node *n) {
 			return node_set_attr(eval_node_oper_2(n), attr);
 		if (n->data.as_oper.nargs == 1)
 			return node_set_attr(eval_node_oper_1(n), attr);
-		error(error_type_fatal, "internal: bad number of args (%d) for operator", n->data.as_oper.nargs);
+		if (n->data.as_oper.nargs == 0)
+			error(error_type_syntax, "expression too complex");
+		else
+			error(error_type_fatal, "internal: bad number of args (%d) for operator", n->data.as_oper.nargs);
 		return NULL;
 
 	/* Evaluating an array returns another array */
diff --git a/src/node.c b/src/node.c
index 84e33c9..7a87923 100644
--- a/src/node.c
+++ b/src/node.c
@@ -27,6 +27,8 @@ option) any later version.
 
 #include "grammar.h"
 
+#define NODE_MAX_DEPTH (4096)
+
 static struct node *node_new_oper_n(int oper, int nargs);
 
 struct node *node_new(int type) {
@@ -248,21 +250,40 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 	struct node **arga = xmalloc(nargs * sizeof(*arga));
 	n->data.as_oper.oper = oper;
 	n->data.as_oper.nargs = nargs;
+	n->data.as_oper.depth = 1;
 	n->data.as_oper.args = arga;
 	return n;
 }
 
+/* Operators are handled recursively, so limit how deep they may nest.  One
+ * that exceeds the limit loses its arguments, which evaluates to an error. */
+
+static struct node *node_check_oper(struct node *n) {
+	struct node **arga = n->data.as_oper.args;
+	for (int i = 0; i < n->data.as_oper.nargs; i++) {
+		if (node_type_of(arga[i]) == node_type_oper &&
+		    n->data.as_oper.depth <= arga[i]->data.as_oper.depth)
+			n->data.as_oper.depth = arga[i]->data.as_oper.depth + 1;
+	}
+	if (n->data.as_oper.depth > NODE_MAX_DEPTH) {
+		for (int i = 0; i < n->data.as_oper.nargs; i++)
+			node_free(arga[i]);
+		n->data.as_oper.nargs = 0;
+	}
+	return n;
+}
+
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
 	n->data.as_oper.args[0] = a1;
-	return n;
+	return node_check_oper(n);
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
-	return n;
+	return node_check_oper(n);
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
@@ -270,7 +291,7 @@ struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
 	n->data.as_oper.args[2] = a3;
-	return n;
+	return node_check_oper(n);
 }
 
 /* Array type */
diff --git a/src/node.h b/src/node.h
index 38f2789..967f38e 100644
--- a/src/node.h
+++ b/src/node.h
@@ -88,6 +88,7 @@ struct node;
 struct node_oper {
 	int oper;
 	int nargs;
+	unsigned depth;  // of nested operators
 	struct node **args;
 };
 
-- 
2.43.0


From 67e7f20f58c95ca0270da0dad76e26916b0a41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 40/41] fix: keep the lines of a macro redefined while being
 expanded

Since macros are redefined in each pass, a macro called ahead of its
definition that leads to it being defined anew had the list of lines
being assembled freed.
---
 src/program.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/program.c b/src/program.c
index 7191faf..7b0e77a 100644
--- a/src/program.c
+++ b/src/program.c
@@ -40,6 +40,9 @@ struct slist *prog_ctx_stack = NULL;
 
 static struct dict *exports = NULL;
 
+/* Lists of lines replaced while being assembled. */
+static struct slist *replaced = NULL;
+
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
 struct prog *prog_new(enum prog_type type, const char *name) {
@@ -75,8 +78,19 @@ struct prog *prog_new_macro(const char *name) {
 	return macro;
 }
 
+/* Lines that are still being assembled are kept until that has finished. */
+
 void prog_free_lines(struct prog *f) {
-	slist_free_full(f->lines, (slist_free_func)prog_line_free);
+	_Bool in_use = 0;
+	for (struct slist *l = prog_ctx_stack; l; l = l->next) {
+		struct prog_ctx *ctx = l->data;
+		if (ctx->prog == f && ctx->line)
+			in_use = 1;
+	}
+	if (in_use)
+		replaced = slist_prepend(replaced, f->lines);
+	else
+		slist_free_full(f->lines, (slist_free_func)prog_line_free);
 	f->lines = NULL;
 	f->next_new_line = &f->lines;
 }
@@ -174,6 +188,11 @@ void prog_ctx_free(struct prog_ctx *ctx) {
 	assert(prog_ctx_stack->data == ctx);
 	prog_ctx_stack = slist_remove(prog_ctx_stack, ctx);
 	free(ctx);
+	while (!prog_ctx_stack && replaced) {
+		struct slist *lines = replaced->data;
+		replaced = slist_remove(replaced, lines);
+		slist_free_full(lines, (slist_free_func)prog_line_free);
+	}
 }
 
 void prog_ctx_add_line(struct prog_ctx *ctx, struct prog_line *line) {
@@ -201,11 +220,11 @@ struct prog_line *prog_ctx_next_line(struct prog_ctx *ctx) {
 
 _Bool prog_ctx_end(struct prog_ctx *ctx) {
 	assert(ctx != NULL);
-	if (!ctx->prog || !ctx->prog->lines)
+	if (!ctx->prog)
 		return 1;
-	if (ctx->line_number == 0 || ctx->line->next)
-		return 0;
-	return 1;
+	if (ctx->line_number == 0)
+		return !ctx->prog->lines;
+	return !ctx->line->next;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From ad8783e57e6e4d61e9a4dfbcb955599ebc86b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 41/41] fix: do not place data beyond the range of addresses

The end of data put near the top of the 32-bit range wrapped to zero;
padding an image then wrote beyond the memory it is built in.
---
 src/section.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 9b67462..62b8eca 100644
--- a/src/section.c
+++ b/src/section.c
@@ -13,6 +13,7 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -275,7 +276,8 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 	span->size += nbytes;
 
-	if (span->org + (int64_t)span->size > 0x10000) {
+	if (span->org + (int64_t)span->size > 0x10000 ||
+	    span->put + (int64_t)span->size > UINT_MAX) {
 		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 }
@@ -306,6 +308,9 @@ void section_emit_uint32(uint32_t v) {
 
 void section_skip(int nbytes) {
 	assert(cur_section != NULL);
+	if (cur_section->put + (int64_t)nbytes > UINT_MAX) {
+		error(error_type_out_of_range, "reserving beyond addressable memory");
+	}
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 }
-- 
2.43.0

