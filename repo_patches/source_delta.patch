From 799700e7a5c34c62a6ab825aba7bf6cec773eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 01/60] fix: errors reported in the final pass make the
 assembly fail

Errors found while emitting code, opening the listing or generating it were
printed but assemble() still returned 0.
---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..1f07259 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors found while generating the output make the assembly fail
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 746c6b13c62ecd0ed90eac24eb7383dc3c1f393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 02/60] fix: report a failure to flush or close the object file

Bytes still in the stdio buffer were written by an unchecked fclose, so a full
disk left a truncated object file behind with exit status 0.
---
 CMakePasm/source/pass.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 1f07259..6df1c7a 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -253,7 +253,9 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        const bool write_failed = ferror(output_file) != 0;
+        if (fclose(output_file) != 0 || write_failed)
+            error(error_writing_output_file);
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
-- 
2.43.0


From 35a23e9f29e93f6718ac2768b9b8ca8225111af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 03/60] fix: report failures to write or close the symbol, list
 and log files

---
 CMakePasm/source/error.cc |  3 +++
 CMakePasm/source/error.h  |  3 +++
 CMakePasm/source/pass.cc  | 17 +++++++++++++++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..b6db587 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,9 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Error writing to log file.",
+    "Error writing to symbol file.",
+    "Error writing to list file.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..6624ea8 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,8 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_writing_log_file,
+    error_writing_symbol_file,
+    error_writing_list_file,
     error_max
 };
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 6df1c7a..c158dbd 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -272,7 +272,9 @@ int assemble(void)
         // display the symbols
         dump_symbols(sym_file);
 
-        fclose(sym_file);
+        const bool write_failed = ferror(sym_file) != 0;
+        if (fclose(sym_file) != 0 || write_failed)
+            error(error_writing_symbol_file);
     }
 
 
@@ -287,7 +289,10 @@ int assemble(void)
         else
         {
             generate_list_file(list_file);
-            fclose(list_file);
+
+            const bool write_failed = ferror(list_file) != 0;
+            if (fclose(list_file) != 0 || write_failed)
+                error(error_writing_list_file);
         }
     }
 
@@ -301,6 +306,14 @@ int assemble(void)
 
     delete_list_table();
 
+    // close the log file
+    if (log_file.is_open())
+    {
+        log_file.close();
+        if (log_file.fail())
+            error(error_writing_log_file);
+    }
+
     // errors found while generating the output make the assembly fail
     if (error_count > 0)
     {
-- 
2.43.0


From 0fc9d52d5ea6e0182e7754bb7c55887f454bbed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 04/60] fix: .load reports files it cannot open or read

A missing file crashed in fseek(NULL); a failed seek or read either looped
without end or put invented 0xFF bytes into the object file.
---
 CMakePasm/source/error.cc  |  1 +
 CMakePasm/source/error.h   |  1 +
 CMakePasm/source/expand.cc | 26 +++++++++-----------------
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index b6db587..4740da6 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -70,6 +70,7 @@ const char* errors[] =
     "Error writing to log file.",
     "Error writing to symbol file.",
     "Error writing to list file.",
+    "Error reading load file.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index 6624ea8..d9c5b3e 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -62,5 +62,6 @@ enum
     error_writing_log_file,
     error_writing_symbol_file,
     error_writing_list_file,
+    error_reading_load_file,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..b4cab98 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -419,40 +419,32 @@ int expand_operator_load_node(const parse_node_ptr p)
     FILE* fd = open_file(file, "rb");
     if (fd == nullptr)
     {
-        error(error_cant_open_include_file);
+        error2(error_cant_open_include_file, file);
+        return 1;
     }
 
-    fseek(fd, 0, SEEK_END);
-    const size_t len = ftell(fd);
-    fseek(fd, 0, SEEK_SET);
-    size_t pos = ftell(fd);
-
-    while (!feof(fd) && len - pos > 0)
+    for (int a = fgetc(fd); a != EOF; a = fgetc(fd))
     {
-        pos = ftell(fd);
-        if (len - pos > 1)
+        const int b = fgetc(fd);
+        if (b != EOF)
         {
-            const unsigned char a = fgetc(fd);
-            const unsigned char b = fgetc(fd);
-
             data_size = 2;
             expand_node(
                 data_node(data_size, 
                 operator_node(EXPRLIST, 1,
                     constant_node((a | b << 8) & 0xFFFF, false))));
-            continue;
         }
-        if (len - pos > 0)
+        else
         {
             data_size = 1;
-            const unsigned char ch = fgetc(fd);
             expand_node(
                 data_node(data_size, 
                     operator_node(EXPRLIST, 1, 
-                        constant_node(ch, false))));
+                        constant_node(a, false))));
         }
-        pos = ftell(fd);
     }
+    if (ferror(fd))
+        error2(error_reading_load_file, file);
     fclose(fd);
     return 1;
 }
-- 
2.43.0


From a23564ce10e70258863a1dedadab25a19d4093d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 05/60] fix: close an include file when its end is reached

Every .inc of every pass leaked its stream, so a long program ran out of
descriptors however flat its includes were.
---
 CMakePasm/source/pasm.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..478e891 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -432,7 +432,11 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 yylineno++;
                                 if (final_pass) generate_list_node(NULL);
                                 
+                                FILE* finished_file = yyin;
                                 yypop_buffer_state();
+                                if (YY_CURRENT_BUFFER && yyin != finished_file)
+                                    fclose(finished_file);
+
                                 if (file_stack->instance->index >= 0)
                                 {
 
-- 
2.43.0


From 6c4bf0cc302687f08550f3963d5f597d521bcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 06/60] fix: do not print a list line after freeing it

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..3e2f6d4 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1683,9 +1683,9 @@ int generate_list_node(const parse_node_ptr p)
         // check for overflow
         if (hi != 0 && data_size < 2)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
-- 
2.43.0


From 1df3a420ba934d073dedb4b042545ff6f2428ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 07/60] fix: list the padding byte of a word string on a row of
 its own

When the string filled its last row the padding was appended behind the text of
that row, which was then listed a second time.
---
 CMakePasm/source/node.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 3e2f6d4..eb2f5a3 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1622,6 +1622,13 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                sprintf(current_ptr, "$%04X:", (program_counter + bytes) & 0xFFFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From cc42aa9a17992eba2eadb754b39f5f5fd49d136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 08/60] fix: a read error while reading the lines of a file
 ends the loop

feof() never becomes true after a read error, so the listing of a source that
could not be read looped without end.
---
 CMakePasm/source/error.cc |  1 +
 CMakePasm/source/error.h  |  1 +
 CMakePasm/source/file.cc  | 48 +++++++++++++++++++--------------------
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 4740da6..e271a1a 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -71,6 +71,7 @@ const char* errors[] =
     "Error writing to symbol file.",
     "Error writing to list file.",
     "Error reading load file.",
+    "Error reading source file.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index d9c5b3e..693dcba 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -63,5 +63,6 @@ enum
     error_writing_symbol_file,
     error_writing_list_file,
     error_reading_load_file,
+    error_reading_source_file,
     error_max
 };
diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..f901372 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -129,34 +129,34 @@ file_line_node* read_file_lines(const char* file_name)
         error(error_opening_list_file);
         return NULL;
     }
-    while (!feof(file))
+    internal_buffer[0] = 0;
+    while (fgets(internal_buffer, max_line_len, file))
     {
-        internal_buffer[0] = 0;
-        if (fgets(internal_buffer, max_line_len, file))
+        if (file_node == NULL)
+        {
+            // ReSharper disable once CppCStyleCast
+            file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
+            head_file_node = file_node;
+        }
+        else
         {
-            if (file_node == NULL)
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
-                head_file_node = file_node;
-            }
-            else
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
-                file_node = file_node->next;
-            }
-            if (file_node == NULL)
-            {
-                error(error_out_of_memory);
-                return NULL;
-            }
-            memset(file_node, 0, sizeof(file_line_node));
-            // ReSharper disable once CppDeprecatedEntity
-            file_node->line_content = (char*)STRDUP(internal_buffer);
-            file_node->line_number = line++;
+            // ReSharper disable once CppCStyleCast
+            file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
+            file_node = file_node->next;
         }
+        if (file_node == NULL)
+        {
+            error(error_out_of_memory);
+            return NULL;
+        }
+        memset(file_node, 0, sizeof(file_line_node));
+        // ReSharper disable once CppDeprecatedEntity
+        file_node->line_content = (char*)STRDUP(internal_buffer);
+        file_node->line_number = line++;
+        internal_buffer[0] = 0;
     }
+    if (ferror(file))
+        error2(error_reading_source_file, file_name);
     fclose(file);  // NOLINT(cert-err33-c)
     return head_file_node;
 }
-- 
2.43.0


From 4a2279e708e62905b0dbf54cfa68429a5e5b0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 09/60] fix: listing of long lines and of missing source lines

A source line close to the maximum length overflowed the line buffer once the
45 column indent was put in front of it, and a source that could not be read
again was dereferenced as a null pointer.
---
 CMakePasm/source/genlist.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..c468531 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -83,6 +83,8 @@ void generate_list_file(FILE* list_file)
 
     int state = 1;  // NOLINT(clang-diagnostic-implicit-int)
     fprintf(list_file, "\n");
+    if (list_head == nullptr)
+        return;
 
     current_file_name = list_head->filename;
     fprintf(list_file, "; Processing %s\n", current_file_name);
@@ -94,12 +96,14 @@ void generate_list_file(FILE* list_file)
         if (list_node->list_directive)
             continue;
 
+        if (source_list == nullptr)
+            break;
+
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +146,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,10 +158,9 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-- 
2.43.0


From 784f22b59d3ca83d6d5cf5f7dd9ed9f25be3ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 10/60] fix: search the next directory only when a file is not
 there

A file that exists but could not be opened (no descriptors, no memory, I/O
error) was silently replaced by a file of the same name from a later -dir.
---
 CMakePasm/source/file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index f901372..4a97984 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -8,6 +8,7 @@
 #include "file.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -80,6 +81,9 @@ FILE* open_file(const char* file, const char* mode)
     FILE* fd = fopen(file, mode);
     if (fd != NULL) return fd;
 
+    // only a file that is not there is searched for
+    if (errno != ENOENT && errno != ENOTDIR) return NULL;
+
     if (directories == NULL) return NULL;
 
     for (char* dir = directories; *dir != 0;)
@@ -101,6 +105,8 @@ FILE* open_file(const char* file, const char* mode)
         fd = fopen(path, mode);
         if (fd != NULL)
             return fd;
+        if (errno != ENOENT && errno != ENOTDIR)
+            return NULL;
 
         if (*dir == ';')
             dir++;
-- 
2.43.0


From f4a2e02fe6da6c6d92f24e23b5290037d06b8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 11/60] fix: create the log file under its own name

When it could not be created the log was written to a file of that name in the
first -dir directory instead, truncating whatever was there.
---
 CMakePasm/source/pass.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index c158dbd..c998114 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -179,7 +179,7 @@ int assemble(void)
 
     if (log_file_name != nullptr)
     {
-        open_file_stream(log_file, log_file_name, std::ios::trunc | std::ios::out);
+        log_file.open(log_file_name, std::ios::trunc | std::ios::out);
         if (!log_file.is_open())
         {
             error(error_opening_log_file);
-- 
2.43.0


From 321a9f9690dc43f900aa15c3707fcb094de1a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 12/60] fix: report refused memory requests

Most callers of MALLOC and STRDUP did not look at the result, so running out of
memory crashed or wrote wrong text into the listing.
---
 CMakePasm/source/main.cc   | 13 ++++++++++++-
 CMakePasm/source/memory.cc | 25 +++++++++++++++++++++++++
 CMakePasm/source/memory.h  |  9 ++++++---
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/main.cc b/CMakePasm/source/main.cc
index dce3612..a7e1340 100644
--- a/CMakePasm/source/main.cc
+++ b/CMakePasm/source/main.cc
@@ -1,3 +1,6 @@
+#include <new>
+
+#include "error.h"
 #include "pass.h"
 #include "parseargs.h"
 
@@ -17,6 +20,14 @@ int main(const int argc, char* argv[])
     if (result < 1)
         return result;
 
-    result = assemble();
+    try
+    {
+        result = assemble();
+    }
+    catch (const std::bad_alloc&)
+    {
+        error(error_out_of_memory);
+        result = -1;
+    }
     return result;
 }
diff --git a/CMakePasm/source/memory.cc b/CMakePasm/source/memory.cc
index 062be0b..9d7f616 100644
--- a/CMakePasm/source/memory.cc
+++ b/CMakePasm/source/memory.cc
@@ -152,6 +152,31 @@ const char* pasm_strdup(const char* str, const char* function, const int line)
     return dup;
 }
 
+static void* check_memory(void* memory, const size_t size)
+{
+    if (memory == NULL && size > 0)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    return memory;
+}
+
+void* checked_malloc(const size_t size)
+{
+    return check_memory(malloc(size), size);
+}
+
+void* checked_realloc(void* memory, const size_t size)
+{
+    return check_memory(realloc(memory, size), size);
+}
+
+char* checked_strdup(const char* str)
+{
+    return static_cast<char*>(check_memory(strdup(str), 1));
+}
+
 int print_memory(const element_ptr e, FILE* file)
 {
     const memory_entry* me = static_cast<memory_entry*>(e->value);
diff --git a/CMakePasm/source/memory.h b/CMakePasm/source/memory.h
index 4152faf..092ce44 100644
--- a/CMakePasm/source/memory.h
+++ b/CMakePasm/source/memory.h
@@ -13,6 +13,9 @@ extern void* pasm_malloc(size_t size, const char* function, int line);
 extern void* pasm_realloc(void* memory, size_t size, const char* function, int line);
 extern const char* pasm_strdup(const char* str, const char* function, int line);
 extern void dump_memory(FILE* file);
+extern void* checked_malloc(size_t size);
+extern void* checked_realloc(void* memory, size_t size);
+extern char* checked_strdup(const char* str);
 #ifndef _WIN32
 extern int stricmp(char const *a, char const *b);
 #endif
@@ -23,10 +26,10 @@ extern int stricmp(char const *a, char const *b);
 #define FREE(p)         pasm_free(p)
 #define STRDUP(s)       pasm_strdup(s, __FUNCTION__, __LINE__)
 #else
-#define MALLOC(s)       malloc((s))
-#define REALLOC(s,sz)   realloc((s),(sz))
+#define MALLOC(s)       checked_malloc((s))
+#define REALLOC(s,sz)   checked_realloc((s),(sz))
 #define FREE(p)         free((p))
-#define STRDUP(s)       strdup((s))
+#define STRDUP(s)       checked_strdup((s))
 #endif
 
 extern size_t total_allocated_bytes;
-- 
2.43.0


From a88d6af25ebf40356eb5c35fbf9506267252cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 13/60] fix: stop when a message cannot return to its place in
 the source

A failing seek after showing the lines around a warning made the lexer go on at
another place of the file, assembling lines twice or not at all.
---
 CMakePasm/source/error.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index e271a1a..1be5b66 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -4,6 +4,7 @@
 
 // ReSharper disable CppClangTidyCertErr33C
 #include <assert.h>  // NOLINT(modernize-deprecated-headers)
+#include <stdlib.h>
 #include <string.h>
 
 #include "error.h"
@@ -128,7 +129,9 @@ void yymessage(const char* s)
         fprintf(console_error, "%s File %s near line %d\n", s, current_file_name, yylineno + 1);
 
         const long current_position = ftell(yyin);
-        fseek(yyin, 0, SEEK_SET);
+        if (current_position < 0 || fseek(yyin, 0, SEEK_SET) != 0)
+            return;
+
         for (current_line = 1; current_line < yylineno - 2; current_line++)
             fgets(internal_buffer, max_line_len, yyin);
 
@@ -143,7 +146,12 @@ void yymessage(const char* s)
             }
         }
         fputs("\n", console_error);
-        fseek(yyin, current_position, SEEK_SET);
+        if (fseek(yyin, current_position, SEEK_SET) != 0)
+        {
+            // the rest of the source can no longer be read
+            fprintf(console_error, "%s %s\n", errors[error_reading_source_file], current_file_name);
+            exit(-1);
+        }
     }
     else
         fprintf(console_error, "%s\n", s);
-- 
2.43.0


From 20aa369d22c40f83bdfa9f04f077310bbf4fee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 14/60] fix: CR LF ends a line once

The CR was an end of line of its own, so a statement was complete before the LF
had advanced the line number: every row of the listing stood beside the previous
source line and the code of a file's first line was missing from it.
---
 CMakePasm/source/pasm.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 478e891..469f9c1 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -154,6 +154,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
+[\xD]/[\xA]                 { /* the line feed ends the line */ }
 [\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
-- 
2.43.0


From 65cd56a010de0c6b45541fff2421dea63db1862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 15/60] fix: do not count the load address as output of the
 first node

A .fill that came first in a -c64 program advanced the program counter by the
two header bytes and wrote two bytes less than asked for.
---
 CMakePasm/source/genoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..5d35c79 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -258,7 +258,6 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
 int generate_output(FILE* file, const parse_node_ptr p)
 {
     int bytes_written;
-    const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
     if (file == NULL || !origin_specified)
@@ -274,6 +273,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
+    const int start_bytes = total_bytes_written;
     const int delta = program_counter - (origin + total_bytes_written);
     if (delta > 0)
     {
-- 
2.43.0


From 0d94baf203df877a1567f4eb97e232a4db060a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 16/60] fix: convert line ends into a new file that replaces
 the old one

A failed or interrupted run truncated the file it was converting, and a
file that could not be read was replaced by an empty one.
---
 CMakePasm/eolconvert/eolconvert.cc | 91 +++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 19 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..90497e4 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -28,6 +28,11 @@ char* extract_directory(int n, string path);
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
 bool is_text_file(const fs::path& path);
+bool read_file(const fs::path& path, vector<uint8_t>& buffer);
+bool write_file(const fs::path& path, const string& content);
+
+// set when a file could not be read or written
+static bool io_failed = false;
 
 fs::path base_path(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
 
@@ -81,7 +86,7 @@ int main(const int argc, char** argv)
     cout << ":::::::::: install root path " << install_root_path << '\n';
     auto count = process_directory(source_path, source_root_path, install_root_path); 
     auto funresult =  count > 0 ? 0 : -1; 
-    return 0;
+    return io_failed ? 1 : 0;
 }
 
 char* extract_directory(int n, string path)
@@ -225,10 +230,9 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
     if (exists(path))
     {
 
-        ifstream file;
-        file.open(path.string().c_str(), ios::binary);
-        vector<uint8_t> in_buf((istreambuf_iterator(file)), (istreambuf_iterator<char>()));
-        file.close();
+        vector<uint8_t> in_buf;
+        if (!read_file(path, in_buf))
+            return 0;
 
         stringstream ss;
         size_t index = 0;
@@ -260,22 +264,72 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
             }
         }
 
-        ofstream outfile;
-        outfile.open(out_path, ios::out | ios::trunc);
-        if (exists(out_path))
-        {
-            auto str = ss.str();
+        const auto str = ss.str();
+        if (path == out_path && str.size() == in_buf.size() && equal(str.begin(), str.end(), in_buf.begin()))
+            return 1;
 
-            outfile.seekp(0);
-            outfile.write(str.c_str(), static_cast<streamsize>(str.length()));
-            outfile.flush();
-            outfile.close();
-        }
+        if (!write_file(out_path, str))
+            return 0;
     }
 
     return 1;
 }
 
+//--------------------------------------------------------------------------//
+bool read_file(const fs::path& path, vector<uint8_t>& buffer)
+{
+    ifstream file(path, ios::binary);
+    char chunk[4096];
+
+    while (file.is_open() && (file.read(chunk, sizeof chunk) || file.gcount() > 0))
+        buffer.insert(buffer.end(), chunk, chunk + file.gcount());
+
+    if (!file.is_open() || file.bad())
+    {
+        cout << "attempt to read " << path << " FAILED\n";
+        io_failed = true;
+        return false;
+    }
+
+    return true;
+}
+
+//--------------------------------------------------------------------------//
+// The new content is written beside the file, which is then replaced as a whole:
+// a failure or an interruption leaves the file as it was.
+bool write_file(const fs::path& path, const string& content)
+{
+    error_code ec;
+    fs::path temp_path;
+    auto number = 0;
+    do
+    {
+        temp_path = path.string() + "." + to_string(number++) + ".tmp";
+    } while (exists(temp_path, ec));
+
+    ofstream outfile(temp_path, ios::out | ios::trunc);
+    outfile.write(content.data(), static_cast<streamsize>(content.length()));
+    outfile.close();
+
+    auto ok = outfile.good();
+    if (ok && exists(path, ec))
+        fs::permissions(temp_path, fs::status(path, ec).permissions(), ec);
+    if (ok)
+    {
+        fs::rename(temp_path, path, ec);
+        ok = !ec;
+    }
+
+    if (!ok)
+    {
+        cout << "attempt to write " << path << " FAILED\n";
+        io_failed = true;
+        fs::remove(temp_path, ec);
+    }
+
+    return ok;
+}
+
 //--------------------------------------------------------------------------//
 inline bool is_eol(const uint8_t ch)
 {
@@ -327,10 +381,9 @@ bool is_text_file(const fs::path& path)
 {
     if (exists(path))
     {
-        ifstream file;
-        file.open(path.string().c_str(), ios::binary);
-        const vector<uint8_t> in_buf((istreambuf_iterator(file)), (istreambuf_iterator<char>()));
-        file.close();
+        vector<uint8_t> in_buf;
+        if (!read_file(path, in_buf))
+            return false;
 
         return (std::all_of(in_buf.cbegin(), in_buf.cend(), [](const uint8_t ch)
             { return isprint(ch) || is_eol(ch); }));
-- 
2.43.0


From 1641f501c9e40c5654c0659b54988f5b0b6eaa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 17/60] fix: a repeated line end character starts a new line
 end

---
 CMakePasm/eolconvert/eolconvert.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 90497e4..1aadf42 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -246,6 +246,7 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
             {
                 ss << ch;
                 count = 0;
+                last_eol = 0;
             }
             else
             {
@@ -256,11 +257,11 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
                     if (count == 1)
                         ss << '\n';
                     else if (count == 2)
-                        count = 0;
+                        count = last_eol = 0;
                     continue;
                 }
                 ss << '\n';
-                count = 0;
+                count = 1;
             }
         }
 
-- 
2.43.0


From 53ab951b63400f27031d8adc27da1f7395101f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 18/60] fix: keep the name of the samples directory while it is
 used

---
 CMakePasm/eolconvert/eolconvert.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 1aadf42..5347771 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, const string& path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -49,7 +49,14 @@ int main(const int argc, char** argv)
     cout << '\n';
     
     fs::path install_root_path;
-    fs::path source_path = realpath("../../CMakePasm/samples", NULL);
+    auto real_source_path = realpath("../../CMakePasm/samples", NULL);
+    if (real_source_path == NULL)
+    {
+        cout << "../../CMakePasm/samples is not a directory.\n";
+        return 1;
+    }
+    fs::path source_path = real_source_path;
+    free(real_source_path);
     fs::path source_root_path = extract_directory(1, source_path.string());
 
     if (!is_directory(source_path))
@@ -89,9 +96,8 @@ int main(const int argc, char** argv)
     return io_failed ? 1 : 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, const string& path)
 {
-    char buffer[1024] = { 0 };
     int count = 0;
     int len = path.length();
     int index = len - 1;
@@ -103,20 +109,12 @@ char* extract_directory(int n, string path)
             ++count;
             if (count == n)
             {
-                index++;
-                auto i = 0;
-                while (index < len)
-                {
-                    buffer[i++] = path[index];
-                    index++;
-                }
-                buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                return path.substr(index + 1) + ch;
             }
         }
         index--;
     }
-    return NULL;
+    return "";
 } 
 
 //--------------------------------------------------------------------------//
-- 
2.43.0


From 91c661c46b95fea5a56380d5c3d9373cb2c8374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 19/60] fix: convert line ends without losing characters when
 memory is refused

---
 CMakePasm/eolconvert/eolconvert.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 5347771..edfa58c 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -232,7 +232,8 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
         if (!read_file(path, in_buf))
             return 0;
 
-        stringstream ss;
+        string str;
+        str.reserve(in_buf.size());
         size_t index = 0;
         auto sz = in_buf.size();
         uint8_t last_eol = 0;
@@ -242,7 +243,7 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
 
             if (auto ch = in_buf[index++]; !is_eol(ch))
             {
-                ss << ch;
+                str += static_cast<char>(ch);
                 count = 0;
                 last_eol = 0;
             }
@@ -253,17 +254,16 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
                     count++;
                     last_eol = ch;
                     if (count == 1)
-                        ss << '\n';
+                        str += '\n';
                     else if (count == 2)
                         count = last_eol = 0;
                     continue;
                 }
-                ss << '\n';
+                str += '\n';
                 count = 1;
             }
         }
 
-        const auto str = ss.str();
         if (path == out_path && str.size() == in_buf.size() && equal(str.begin(), str.end(), in_buf.begin()))
             return 1;
 
-- 
2.43.0


From 01d79630654effabf27d4275cb62731f6eb8e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 20/60] fix: .else outside of a condition is a syntax error

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 469f9c1..4462220 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -238,6 +238,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From d795d1a42400892abe6d067ee5b9acaf74634ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 21/60] fix: -nowarn and .warn off turn warnings off

---
 CMakePasm/source/error.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 1be5b66..7dea41a 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -92,6 +92,9 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
+    if (ignore_warnings)
+        return;
+
     yymessage(errors[err_num]);
     warning_count++;
 }
-- 
2.43.0


From 09b297aa3ded73d765d28f9c1d6541c4a083c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:25 +0000
Subject: [PATCH 22/60] fix: a branch without a target is an invalid opcode or
 mode

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index eb2f5a3..2ffcc02 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -335,7 +335,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (number_of_ops > 0 && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From 14321d4835bbeea9cb07d181f907a1b741fbde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 23/60] fix: a new + or - label makes another pass necessary

---
 CMakePasm/source/expand.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b4cab98..c3095f0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1674,7 +1674,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "-") == 0)
     {
         int index = find_minus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_minus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_minus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_minus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno);
 
@@ -1692,7 +1696,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
-- 
2.43.0


From 0eab1115abe3138ff2021791167492597d2bf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 24/60] fix: a + or - label that doesn't exist is an unresolved
 symbol

---
 CMakePasm/source/expand.cc | 9 +++++++++
 CMakePasm/source/expand.h  | 1 +
 CMakePasm/source/pass.cc   | 3 ++-
 CMakePasm/source/sym.cc    | 6 ++++--
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c3095f0..e1f9274 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -48,6 +48,9 @@ int max_address = 0xFFFF;
 // number of symbols whose values changed
 int sym_value_changed = 0;
 
+// number of references to + and - labels that don't exist
+int unresolved_plus_minus_count = 0;
+
 // nest level of expand_node();
 int expand_level = 0;
 
@@ -487,6 +490,12 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else
+    {
+        // there is no such label
+        sym->value = 0;
+        unresolved_plus_minus_count++;
+    }
     p->id.i = sym;
 
     return sym->value;
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index de008c0..0e1be55 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -15,6 +15,7 @@ extern bool has_uninitialized_symbol(parse_node_ptr p);
 extern int get_op_byte_count(parse_node_ptr p);
 
 extern int sym_value_changed;
+extern int unresolved_plus_minus_count;
 extern int print_list_state;
 extern int end_expansion;
 extern dictionary_ptr macro_dict;
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index c998114..16f17ac 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -32,6 +32,7 @@ void reset_lex(void)
     last_label = nullptr;
 
     sym_value_changed = 0;
+    unresolved_plus_minus_count = 0;
 
     // reset the Program Counter
     program_counter = program_origin_default;
@@ -197,7 +198,7 @@ int assemble(void)
 
         parse_pass();
 
-        const int unresolved_count = unresolved_symbol_count();
+        const int unresolved_count = unresolved_symbol_count() + unresolved_plus_minus_count;
         if (error_count == 0 && sym_value_changed == 0 && unresolved_count == 0)
             clean_pass_count++;
         else
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..f8923e8 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,8 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index &&
+            stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -369,7 +370,8 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index &&
+            stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 448c912616e5206966827d146bafef681efe578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 25/60] fix: files whose names differ only in case are
 different files

---
 CMakePasm/source/genlist.cc |  8 ++++----
 CMakePasm/source/sym.cc     | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index c468531..917f3bd 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -27,7 +27,7 @@ file_line_node* get_file_line(char* file, const int line)
     file_entry* current_file_entry = source_file_list;
     file_entry* prev = nullptr;
 
-    for (; current_file_entry != nullptr && stricmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
+    for (; current_file_entry != nullptr && strcmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
         prev = current_file_entry;
 
     if (!current_file_entry)
@@ -47,7 +47,7 @@ file_line_node* get_file_line(char* file, const int line)
         if (source_file_list == nullptr)
             source_file_list = current_file_entry;
 
-        if (stricmp(current_file_entry->filename, file) == 0)
+        if (strcmp(current_file_entry->filename, file) == 0)
         {
             file_line_node* line_entry = current_file_entry->lines;
             for (; line_entry && line_entry->line_number < line; line_entry = line_entry->next)
@@ -112,7 +112,7 @@ void generate_list_file(FILE* list_file)
     // loop through all list  nodes
     for (; list_node; list_node = list_node->next)
     {
-        if (current_file_name == nullptr || stricmp(current_file_name, list_node->filename))
+        if (current_file_name == nullptr || strcmp(current_file_name, list_node->filename))
         {
 
 
@@ -135,7 +135,7 @@ void generate_list_file(FILE* list_file)
 
         const int start_line = list_node->line;
         int end_line = start_line;
-        if (list_node->next && stricmp(list_node->filename, list_node->next->filename) == 0 &&
+        if (list_node->next && strcmp(list_node->filename, list_node->next->filename) == 0 &&
             list_node->next->line > list_node->line)
             end_line = list_node->next->line - 1;
 
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index f8923e8..82b8edf 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -57,7 +57,7 @@ static int plus_minus_sym_cmp_function(const void* a, const void* b);
 
 int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
-    const int result = stricmp(a->file, b->file);
+    const int result = strcmp(a->file, b->file);
     if (result != 0) return result;
     return a->line - b->line;
 }
@@ -334,7 +334,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, minus_symbol_table[index].file) != 0)
+        if (strcmp(file, minus_symbol_table[index].file) != 0)
             continue;
 
         if (minus_symbol_table[index].line <= line)
@@ -346,7 +346,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     {
         found_index = found_index + 1 - depth;
         if (found_index >= 0 && found_index < minus_symbol_table_index &&
-            stricmp(file, minus_symbol_table[found_index].file) == 0)
+            strcmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -358,7 +358,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     int found_index = -1;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
-        if (stricmp(file, plus_symbol_table[index].file) != 0)
+        if (strcmp(file, plus_symbol_table[index].file) != 0)
             continue;
 
         if (plus_symbol_table[index].line > line)
@@ -371,7 +371,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     {
         found_index = found_index -1 + depth;
         if (found_index >= 0 && found_index < plus_symbol_table_index &&
-            stricmp(file, plus_symbol_table[found_index].file) == 0)
+            strcmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 33490909213eaf3091b1ec3a68f15e34f4b894e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 26/60] fix: .fill with a count of zero takes no room in any
 pass

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e1f9274..fa03a43 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -408,7 +408,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From f636a0db6a9d062482adf11d4a3e4f257b38698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 27/60] fix: -d accepts decimal values of three and more digits

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..966c519 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'x')
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'b')
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From 34ebb09b471b924dbe0b6d3e9dc856ab138329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 28/60] fix: a + or - label that doesn't exist is an unresolved
 symbol in data, too

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index fa03a43..874b86d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1206,6 +1206,10 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
+            // find out in time if there is no such + or - label
+            if (!final_pass && pp->type == type_id && (pp->id.name[0] == '-' || pp->id.name[0] == '+'))
+                expand_plus_minus_node(pp);
+
             if (!has_uninitialized_symbol(pp))
             {
                 if (final_pass)
-- 
2.43.0


From 0458d9208b8de9bbf8594464d4db2659224dfcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 29/60] fix: a branch 128 bytes ahead is out of range

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 874b86d..c341ae3 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -920,7 +920,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -127)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
-- 
2.43.0


From 4b81222a6983db32db3b3a804b2d0600c156808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 30/60] fix: words in .str data are listed like they are
 written

---
 CMakePasm/source/node.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 2ffcc02..14bd2f5 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1688,7 +1688,7 @@ int generate_list_node(const parse_node_ptr p)
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
@@ -1711,7 +1711,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (data_size > 1 || (data_size == 0 && hi != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From d2e43191236a7f0e58ee7a23e6bf8138d81109bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 31/60] fix: a branch out of range keeps its meaning when a
 loop or macro expands it again

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c341ae3..ab22360 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -803,6 +803,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -981,6 +982,10 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+
+                        // the node may be expanded again by a loop or a macro
+                        p->op[index] = target;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From b0809cd597a241c4024b93f9a3a14f2639ba75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:24 +0000
Subject: [PATCH 32/60] fix: skipped text ends at the .endif of its own
 conditional

---
 CMakePasm/source/pasm.l | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 4462220..2b28cf9 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -17,6 +17,7 @@
 #include "memory.h"
 
 int do_count = 0;
+static int skip_level = 0;          // depth of the conditional whose text is being skipped
 static char* last_token = nullptr;
 static bool Debug_Token = false;
 extern bool Debug_Bison;
@@ -168,6 +169,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 symbol_table_ptr sym = look_up_symbol(p); 
                                 if (sym == NULL)
                                 {
+                                    skip_level = ifdef_stack->instance->index;
                                     BEGIN(IF_DEF);
                                 }
                             }
@@ -183,6 +185,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 symbol_table_ptr sym = look_up_symbol(p); 
                                 if (sym != NULL)
                                 {
+                                    skip_level = ifdef_stack->instance->index;
                                     BEGIN(IF_DEF);
                                 }
                             }
@@ -209,7 +212,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 P_TOK("ENDIF")
                                 SV_TOK
                                 ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                if (ifdef_stack->instance->index < skip_level)
                                 {
                                     if (final_pass)
                                     {
@@ -247,6 +250,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 }
                                 else
                                 {
+                                    skip_level = ifdef_stack->instance->index;
                                     BEGIN(IF_DEF);
                                 }
                             }
-- 
2.43.0


From 38de90625faed2308124d5695cb67988c83134f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 33/60] fix: an .endif or .else in a comment or string does not
 end skipped text

---
 CMakePasm/source/pasm.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2b28cf9..2e4b7b1 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -54,6 +54,7 @@ extern bool Debug_AddList;
 
 %x C_COMMENT
 %xx IF_DEF
+%x IF_DEF_COMMENT
 
 ES                          (\\(['"\?\\abfnrtv]|[0-7]{1,3}|x[a-fA-F0-9]+))
 LOGOR                       [|][|]
@@ -221,6 +222,13 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>"/*"                { BEGIN(IF_DEF_COMMENT); }
+<IF_DEF_COMMENT>"*/"        { BEGIN(IF_DEF); }
+<IF_DEF_COMMENT>.|[\n]      { /* ignore comments */ }
+<IF_DEF>;[^\n]*             { /* ignore comments */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
+<IF_DEF>{STRVALUE}          { /* ignore strings */ }
+<IF_DEF>{SYMB}              { /* ignore words */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From 786ef8a517debc0776b798688a71d6d26d83a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:58 +0000
Subject: [PATCH 34/60] fix: an unterminated comment or .ifdef is an error and
 does not leak into the next pass

---
 CMakePasm/source/error.cc |  1 +
 CMakePasm/source/error.h  |  1 +
 CMakePasm/source/flex.h   |  2 ++
 CMakePasm/source/pasm.l   | 17 +++++++++++++++++
 CMakePasm/source/pass.cc  |  7 +++++++
 5 files changed, 28 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 7dea41a..b3af468 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -73,6 +73,7 @@ const char* errors[] =
     "Error writing to list file.",
     "Error reading load file.",
     "Error reading source file.",
+    "Comment or conditional without end.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index 693dcba..e6c2572 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -64,5 +64,6 @@ enum
     error_writing_list_file,
     error_reading_load_file,
     error_reading_source_file,
+    error_unterminated_text,
     error_max
 };
diff --git a/CMakePasm/source/flex.h b/CMakePasm/source/flex.h
index f5dbe26..2ea92ab 100644
--- a/CMakePasm/source/flex.h
+++ b/CMakePasm/source/flex.h
@@ -34,6 +34,8 @@ extern void* yyalloc(yy_size_t);
 extern void* yyrealloc(void*, size_t);
 extern void yyfree(void*);
 extern void yyrestart(FILE* input_file);
+extern void reset_scanner(void);
+extern bool scanner_unterminated(void);
 extern int yylineno;
 extern FILE* yyin;
 extern void yypush_buffer_state(YY_BUFFER_STATE new_buffer);
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2e4b7b1..76bb6af 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -469,3 +469,20 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 .                           { yyerror("Parse: syntax error"); }
 
 %%
+
+/*
+ * start a pass
+ */
+void reset_scanner(void)
+{
+    BEGIN(INITIAL);
+    skip_level = 0;
+}
+
+/*
+ * true if the text read so far ends within a comment or within skipped text
+ */
+bool scanner_unterminated(void)
+{
+    return YY_START != INITIAL;
+}
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 16f17ac..6285f5a 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -37,6 +37,9 @@ void reset_lex(void)
     // reset the Program Counter
     program_counter = program_origin_default;
 
+    // reset the scanner
+    reset_scanner();
+
     // reset End flag
     end_expansion = 0;
 
@@ -150,6 +153,10 @@ void parse_pass(void)
         yyin = nullptr;
     }
 
+    // the whole rest of the text would be missing
+    if (scanner_unterminated())
+        error(error_unterminated_text);
+
     // free the parse tree
     free_parse_tree();
 
-- 
2.43.0


From 3b62be352ff77457e4ea5ef51d48e6da876ff5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 35/60] fix: a local label may be the first word of a file or
 follow an include

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 76bb6af..bf395ef 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -352,7 +352,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From 57060a3ccb5664f694adc14ba72344cf2df7b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 36/60] fix: a comment in front of a label or macro name does
 not change its meaning

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index bf395ef..4170bb7 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -431,8 +431,8 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 P_TOK("SYMBOL")
                                 return SYMBOL;
                             }
-"/*"                        { SV_TOK BEGIN(C_COMMENT); }
-<C_COMMENT>"*/"             { SV_TOK BEGIN(INITIAL); }
+"/*"                        { BEGIN(C_COMMENT); }
+<C_COMMENT>"*/"             { BEGIN(INITIAL); }
 <C_COMMENT>.|[\n]           { /* ignore comments */ }
 ;[^\n]*                     { /* ignore comments */ }
 [/][/][^\n]*                { /* ignore comments */ }
-- 
2.43.0


From 5823242ac5766e43d3aa350a3f91a7931eabd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 37/60] fix: lines longer than the line buffer are counted and
 listed as one line

---
 CMakePasm/source/error.cc | 18 ++++++++++--------
 CMakePasm/source/file.cc  | 10 ++++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index b3af468..b9a949a 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -136,18 +136,20 @@ void yymessage(const char* s)
         if (current_position < 0 || fseek(yyin, 0, SEEK_SET) != 0)
             return;
 
-        for (current_line = 1; current_line < yylineno - 2; current_line++)
-            fgets(internal_buffer, max_line_len, yyin);
-
-        for (; current_line < yylineno + 3; current_line++)
+        for (current_line = 1; current_line < yylineno + 3 && !feof(yyin); current_line++)
         {
-            if (!feof(yyin))
+            const bool quoted = current_line >= yylineno - 2;
+            if (quoted)
+                fprintf(console_error, "%-5d  ", current_line);
+
+            // a line may be longer than the buffer
+            do
             {
                 *internal_buffer = 0;
                 fgets(internal_buffer, max_line_len, yyin);
-                fprintf(console_error, "%-5d  ", current_line);
-                fputs(internal_buffer, console_error);
-            }
+                if (quoted)
+                    fputs(internal_buffer, console_error);
+            } while (*internal_buffer != 0 && strchr(internal_buffer, '\n') == nullptr && !feof(yyin));
         }
         fputs("\n", console_error);
         if (fseek(yyin, current_position, SEEK_SET) != 0)
diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 4a97984..0bf7973 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -138,6 +138,16 @@ file_line_node* read_file_lines(const char* file_name)
     internal_buffer[0] = 0;
     while (fgets(internal_buffer, max_line_len, file))
     {
+        const size_t len = file_node == NULL ? 0 : strlen(file_node->line_content);
+        if (len > 0 && file_node->line_content[len - 1] != '\n')
+        {
+            // the rest of a line that is longer than the buffer
+            const size_t size = len + strlen(internal_buffer) + 1;
+            file_node->line_content = (char*)REALLOC(file_node->line_content, size);
+            strcpy(file_node->line_content + len, internal_buffer);
+            internal_buffer[0] = 0;
+            continue;
+        }
         if (file_node == NULL)
         {
             // ReSharper disable once CppCStyleCast
-- 
2.43.0


From 10ddca0c136f939d9708f56f053b917b81261ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 38/60] fix: a control character in a string does not break the
 listing's row in two

---
 CMakePasm/source/node.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 14bd2f5..0b2993d 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1599,7 +1599,7 @@ int generate_list_node(const parse_node_ptr p)
                         sprintf(current_ptr, ", ");
                         current_ptr += strlen(current_ptr);
                     }
-                    if (isprint(string_start[len]))
+                    if (isprint(string_start[len] & 0xFF))
                     {
                         sprintf(current_ptr, "'%c'", string_start[len]);
                     }
@@ -1652,13 +1652,13 @@ int generate_list_node(const parse_node_ptr p)
                     sprintf(current_ptr, ", ");
                     current_ptr += strlen(current_ptr);
                 }
-                if (len == col - 1 && pad)
+                if (isprint(string_start[len] & 0xFF) && !(len == col - 1 && pad))
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "'%c'", string_start[len]);
                 }
                 else
                 {
-                    sprintf(current_ptr, "'%c'", string_start[len]);
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                 }
                 current_ptr += strlen(current_ptr);
             }
-- 
2.43.0


From 7420435347fc04225a04dcfe745d7d312c2aa7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 39/60] fix: a file never takes the place of a closed standard
 stream

---
 CMakePasm/source/main.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/CMakePasm/source/main.cc b/CMakePasm/source/main.cc
index a7e1340..20ba931 100644
--- a/CMakePasm/source/main.cc
+++ b/CMakePasm/source/main.cc
@@ -1,9 +1,31 @@
 #include <new>
 
+#ifndef _WIN32
+#include <fcntl.h>
+#include <unistd.h>
+#endif
+
 #include "error.h"
 #include "pass.h"
 #include "parseargs.h"
 
+/**
+ * \brief make sure that the standard streams exist: the first files opened
+ * would take the place of closed ones and receive the text meant for them
+ * \return false if a stream could not be opened
+ */
+static bool open_standard_streams()
+{
+#ifndef _WIN32
+    for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; ++fd)
+    {
+        if (fcntl(fd, F_GETFD) == -1 && open("/dev/null", O_RDWR) != fd)
+            return false;
+    }
+#endif
+    return true;
+}
+
 /**
 
  * \brief main entry point
@@ -13,6 +35,9 @@
  */
 int main(const int argc, char* argv[])
 {
+    if (!open_standard_streams())
+        return -1;
+
     pre_parse();
     
     // parse the arguments
-- 
2.43.0


From 6c4254683a9730f7263e8a266b24e9f8c9663c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 40/60] fix: an error about a very long name is reported once,
 without the buffer's contents

---
 CMakePasm/source/error.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index b9a949a..70e920a 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -116,6 +116,7 @@ void error2(const int err_num, const char* parameter)
     else
     {
         error(err_num);
+        return;
     }
     yyerror(internal_buffer);
 }
-- 
2.43.0


From 9821765ded6182e7fc964d0777b0ab4fbef250a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 41/60] fix: the name of a macro may be longer than the line
 buffer

---
 CMakePasm/source/expand.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ab22360..3860557 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1364,6 +1364,22 @@ void reset_macro_dict(void)
     }
 }
 
+/// <summary>
+/// Create the name that local labels of one execution of a macro belong to
+/// </summary>
+static char* create_macro_label(const char* format, const char* name, const int times_executed)
+{
+    const int len = snprintf(nullptr, 0, format, name, times_executed) + 1;
+    const auto label = static_cast<char*>(MALLOC(len));
+    if (label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    snprintf(label, len, format, name, times_executed);
+    return label;
+}
+
 /// <summary>
 /// Operator Macro Symbol
 /// </summary>
@@ -1374,8 +1390,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    last_label = create_macro_label("%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1409,8 +1424,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    last_label = create_macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
-- 
2.43.0


From d6cbbd078b2ab9a84d49f3db7e710a21f89aeb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 42/60] fix: a macro that expands itself without end is
 reported

---
 CMakePasm/source/expand.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 3860557..3d06ba0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -34,7 +34,8 @@ extern void print_node(parse_node_ptr p, std::ostream& file);
 
 enum
 {
-    max_macro_param_name_len = 25
+    max_macro_param_name_len = 25,
+    max_macro_nesting = 1000
 };
 
 static int program_counter_assigned = 0;
@@ -1414,6 +1415,15 @@ int expand_macro_id_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_macro_expansion_node(const parse_node_ptr p)
 {
+    // a macro that expands itself
+    static int macro_nesting = 0;
+    if (macro_nesting >= max_macro_nesting)
+    {
+        error(error_infinite_loop_detected);
+        exit(-1);
+    }
+    macro_nesting++;
+
     macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
     push_macro_params();
 
@@ -1433,6 +1443,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     last_label = temp;
     pop_macro_params();
+    macro_nesting--;
 
     return 0;
 }
-- 
2.43.0


From 6cf55164562ad2af8925eb3c49afe7da5a82d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:00 +0000
Subject: [PATCH 43/60] fix: a block of very many statements does not overflow
 the stack

---
 CMakePasm/source/expand.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 3d06ba0..7b7e13a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -17,6 +17,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <vector>
+
 #include "expand.h"
 #include "dictionary.h"
 #include "node.h"
@@ -1687,9 +1689,20 @@ int expand_operator_statement_node(const parse_node_ptr p)
     if (p->number_of_ops < 1)
         return 0;
 
-    for (int index = 0; index < p->number_of_ops; index++)
+    // the first node of a list is the list of all statements before the last one
+    std::vector<parse_node_ptr> lists = { p };
+    for (parse_node_ptr first = p->op[0];
+        first != nullptr && first->type == type_opr && first->opr.opr == STATEMENT && first->number_of_ops > 0;
+        first = first->op[0])
+        lists.push_back(first);
+
+    expand_node(lists.back()->op[0]);
+    for (auto list = lists.rbegin(); list != lists.rend(); ++list)
     {
-        expand_node(p->op[index]);
+        for (int index = 1; index < (*list)->number_of_ops; index++)
+        {
+            expand_node((*list)->op[index]);
+        }
     }
     return 0;
 }
-- 
2.43.0


From 75f73e40d72f660b68c633ef59bd0a56e87446a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:38 +0000
Subject: [PATCH 44/60] fix: a macro used before its definition is refused
 instead of expanding the freed text of the previous pass

---
 CMakePasm/source/error.cc  | 1 +
 CMakePasm/source/error.h   | 1 +
 CMakePasm/source/expand.cc | 7 ++++++-
 CMakePasm/source/sym.h     | 1 +
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 70e920a..d7a85c3 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -74,6 +74,7 @@ const char* errors[] =
     "Error reading load file.",
     "Error reading source file.",
     "Comment or conditional without end.",
+    "Macro used before its definition.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index e6c2572..f8dc01b 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -65,5 +65,6 @@ enum
     error_reading_load_file,
     error_reading_source_file,
     error_unterminated_text,
+    error_macro_not_defined_yet,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7b7e13a..e21f144 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1403,7 +1403,11 @@ int expand_macro_id_node(const parse_node_ptr p)
         last_label = temp;
         return 0;
     }
-    expand_node(static_cast<parse_node_ptr>(sym->macro_node));
+    // the body found by an earlier pass is gone
+    if (sym->macro_pass == pass)
+        expand_node(static_cast<parse_node_ptr>(sym->macro_node));
+    else
+        error(error_macro_not_defined_yet);
 
     last_label = temp;
 
@@ -1472,6 +1476,7 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     sym->is_macro_name = true;
     sym->is_initialized = true;
     sym->macro_node = p->op[1];
+    sym->macro_pass = pass;
     sym->value = program_counter;
     return 0;
 }
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..e9dc917 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -27,6 +27,7 @@ typedef struct symbol_table
     char* name;
     char* fullname;
     void* macro_node;
+    int macro_pass;         // the pass that macro_node belongs to
 } symbol_table, * symbol_table_ptr;
 
 extern int print_symbol_element(const element_ptr e, FILE* file);
-- 
2.43.0


From fff5faa3d33176d5af3e4155c57abd8f913dd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 45/60] fix: two conversions at the same time do not use each
 other's temporary files

---
 CMakePasm/eolconvert/eolconvert.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index edfa58c..f9076c2 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -7,6 +7,8 @@
 #include <sstream>
 #include <string>
 #include <vector>
+#include <errno.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <limits.h>
 
@@ -31,6 +33,9 @@ bool is_text_file(const fs::path& path);
 bool read_file(const fs::path& path, vector<uint8_t>& buffer);
 bool write_file(const fs::path& path, const string& content);
 
+// what the name of a file that is being written ends with
+static const string temp_extension = ".eoltmp";
+
 // set when a file could not be read or written
 static bool io_failed = false;
 
@@ -208,7 +213,7 @@ int process_directory(const fs::path& directory, const fs::path& source_root, co
             // add to directories
             directories.insert(entry.path());
         }
-        else
+        else if (entry.path().extension() != temp_extension) // another conversion may be at work
         {
             // add to files
             files.insert(entry.path());
@@ -300,17 +305,23 @@ bool write_file(const fs::path& path, const string& content)
 {
     error_code ec;
     fs::path temp_path;
+    FILE* outfile;
     auto number = 0;
     do
     {
-        temp_path = path.string() + "." + to_string(number++) + ".tmp";
-    } while (exists(temp_path, ec));
+        // a file of that name belongs to another conversion or was left behind by one
+        temp_path = path.string() + "." + to_string(number++) + temp_extension;
+        outfile = fopen(temp_path.string().c_str(), "wbx");
+    } while (outfile == NULL && errno == EEXIST);
 
-    ofstream outfile(temp_path, ios::out | ios::trunc);
-    outfile.write(content.data(), static_cast<streamsize>(content.length()));
-    outfile.close();
+    auto ok = outfile != NULL;
+    if (ok)
+    {
+        ok = fwrite(content.data(), 1, content.length(), outfile) == content.length();
+        if (fclose(outfile) != 0)
+            ok = false;
+    }
 
-    auto ok = outfile.good();
     if (ok && exists(path, ec))
         fs::permissions(temp_path, fs::status(path, ec).permissions(), ec);
     if (ok)
@@ -323,7 +334,8 @@ bool write_file(const fs::path& path, const string& content)
     {
         cout << "attempt to write " << path << " FAILED\n";
         io_failed = true;
-        fs::remove(temp_path, ec);
+        if (outfile != NULL)
+            fs::remove(temp_path, ec);
     }
 
     return ok;
-- 
2.43.0


From 67449c2deccab22213e9a2819adb4f6e72b0a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 46/60] fix: the value of a symbol is judged once the symbols
 it depends on are settled

---
 CMakePasm/source/pass.cc | 11 +++++++++++
 CMakePasm/source/sym.cc  | 19 ++++++++++++++++---
 CMakePasm/source/sym.h   |  2 ++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 6285f5a..abd2778 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -32,6 +32,7 @@ void reset_lex(void)
     last_label = nullptr;
 
     sym_value_changed = 0;
+    provisional_out_of_range = 0;
     unresolved_plus_minus_count = 0;
 
     // reset the Program Counter
@@ -196,6 +197,7 @@ int assemble(void)
     }
 
     int clean_pass_count = 0;
+    values_provisional = true;
     do
     {
         if (verbose)
@@ -211,6 +213,14 @@ int assemble(void)
         else
             clean_pass_count = 0;
 
+        // the values are settled but some are out of range: report where
+        if (clean_pass_count > 0 && provisional_out_of_range > 0)
+        {
+            values_provisional = false;
+            pass++;
+            parse_pass();
+        }
+
         if (verbose && clean_pass_count == 0 && pass > 3)
         {
             fprintf(console, "%d unresolved symbols %d symbols value changed\n\n", unresolved_count, sym_value_changed);
@@ -244,6 +254,7 @@ int assemble(void)
         fprintf(console, "Final Pass\n");
 
     // set final pass flag
+    values_provisional = false;
     final_pass = true;
 
     if (output_file_name != nullptr)
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 82b8edf..b4c558e 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -39,6 +39,10 @@ static int get_max_macro_parameter(void);
 dictionary_ptr symbol_dictionary = NULL; 
 stack_ptr macro_params_stack = NULL;
 
+// until they settle, symbols may have values out of range
+bool values_provisional = false;
+int provisional_out_of_range = 0;
+
 // must be less than PLUS_MINUS_TABLE_SIZE
 #define GROW_THRESHOLD 100
 #define PLUS_MINUS_TABLE_SIZE 5000
@@ -274,14 +278,23 @@ symbol_table_ptr look_up_symbol(const char* name)
     return tmp_ptr;
 } 
 
-symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
+symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, int value)
 {
     if ((sym != NULL) && (sym->value != value))
     {
         if (((value & ~0xFFFF) != 0) && !sym->is_var)
         {
-            error(error_value_out_of_range);
-            return NULL;
+            if (!values_provisional)
+            {
+                error(error_value_out_of_range);
+                return NULL;
+            }
+
+            // it may come from a symbol which gets its value later
+            provisional_out_of_range++;
+            value &= 0xFFFF;
+            if (sym->value == value)
+                return sym;
         }
         sym->value = value;
         if (!sym->is_macro_param && !sym->is_var)
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index e9dc917..de6a482 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -40,6 +40,8 @@ extern char* format_local_sym(char* name, const char* label);
 extern char* format_local_plus_minus_sym(char* name, char* label);
 extern symbol_table_ptr add_symbol(char* name);
 extern symbol_table_ptr set_symbol_value(symbol_table_ptr sym, int value);
+extern bool values_provisional;
+extern int provisional_out_of_range;
 extern void add_minus_symbol(const char* file, int line, int value);
 extern void add_plus_symbol(const char* file, int line, int value);
 extern int find_minus_symbol_definition(const char* file, int line);
-- 
2.43.0


From 733e2f0c00783a81be95c7c001970746d38ae01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:13 +0000
Subject: [PATCH 47/60] fix: write the object of a program that never sets its
 origin

A program without *= or .org was listed and assembled at the default origin,
but nothing was written to the object file unless a data directive happened to
set origin_specified; with one, the origin used was the raw zero and the
program failed with an out of range error.
---
 CMakePasm/source/expand.cc    | 2 --
 CMakePasm/source/genoutput.cc | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e21f144..510f27e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -686,8 +686,6 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
-    origin_specified = true;
-
     expansion_type = data_bytes;
     data_size = p->data.size;
     if (p->data.size == data_string)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 5d35c79..213f51d 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -260,7 +260,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     int bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
     // header
-- 
2.43.0


From f018446db201dea1078ed1df2540a9278344db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:28 +0000
Subject: [PATCH 48/60] fix: expand both operands of || and &&

The second operand was skipped when the first one decided the result, so a
symbol in it was never looked up and the whole expression counted as
uninitialized: the statement emitted nothing and the passes disagreed.
---
 CMakePasm/source/expand.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 510f27e..de8e5d4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1933,7 +1933,11 @@ int expand_operator_greater_than_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_or_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) || expand_node(p->op[1]);
+    // expand both sides, a symbol that is never expanded stays unresolved
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+
+    return left || right;
 }
 
 /// <summary>
@@ -1943,7 +1947,11 @@ int expand_operator_or_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_and_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) && expand_node(p->op[1]);
+    // expand both sides, a symbol that is never expanded stays unresolved
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+
+    return left && right;
 }
 
 /// <summary>
-- 
2.43.0


From aea7c2b9962a09ff73865b812a50eaf36fb1ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:47 +0000
Subject: [PATCH 49/60] fix: evaluate every macro argument before setting the
 parameters

An argument that names a parameter of the calling macro was evaluated after
earlier parameters had been overwritten, so with .macro Out / In 5,6,\1 the
macro In received 5 as its third parameter instead of Out's first.
---
 CMakePasm/source/expand.cc | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index de8e5d4..876f64d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -189,6 +189,11 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// Values of the arguments of the macro call being expanded
+//
+static std::vector<int> macro_parameter_values;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1125,7 +1130,6 @@ int expand_operator_org_node(const parse_node_ptr p)
 int expand_operator_expression_list_node(const parse_node_ptr p)
 {
     symbol_table_ptr symbol_ptr = nullptr;
-    char sym_name[max_macro_param_name_len] = { 0 };
 
     for (int index = 0; index < p->number_of_ops; index++)
     {
@@ -1197,18 +1201,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             if (++macro_parameter_index > max_macro_param)
                 max_macro_param = macro_parameter_index;
 
-            sprintf(sym_name, "\\%d", macro_parameter_index);
-            symbol_ptr = add_symbol(sym_name);
-            if (symbol_ptr != nullptr)
-            {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
-            }
-            else
-            {
-                error(error_out_of_memory);
-                exit(-1);
-            }
+            // an argument can name a parameter of the calling macro
+            macro_parameter_values.push_back(expand_node(pp));
             break;
 
         case data_bytes:
@@ -1433,10 +1427,27 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
+    macro_parameter_values.clear();
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
+    // every argument is known, the parameters can change now
+    for (int index = 1; index <= macro_parameter_index; index++)
+    {
+        char sym_name[max_macro_param_name_len] = { 0 };
+
+        sprintf(sym_name, "\\%d", index);
+        const symbol_table_ptr symbol_ptr = add_symbol(sym_name);
+        if (symbol_ptr == nullptr)
+        {
+            error(error_out_of_memory);
+            exit(-1);
+        }
+        set_symbol_value(symbol_ptr, macro_parameter_values[index - 1]);
+        symbol_ptr->is_initialized = true;
+    }
+
     char* temp = last_label;
     last_label = create_macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
-- 
2.43.0


From 84f02c52219eb6590db6a0f0a750d6400e5a2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:45 +0000
Subject: [PATCH 50/60] fix: assemble programs whose unused macros and skipped
 blocks name other symbols

The parser enters the symbols of an operand when it picks the addressing mode,
even if the statement is in a macro that is never called or a block that is
skipped, and all of them had to get a value: a macro with a .var of its own
that nobody calls failed with 'Maximum number of passes exceeded'.
---
 CMakePasm/source/expand.cc | 23 +++++++++++++++++++++--
 CMakePasm/source/expand.h  |  1 +
 CMakePasm/source/node.cc   |  2 ++
 CMakePasm/source/sym.cc    |  4 ++--
 CMakePasm/source/sym.h     |  1 +
 5 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 876f64d..0a02531 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -189,6 +189,12 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// set while the parser looks at an operand to choose the addressing mode,
+// the statement may never be expanded
+//
+bool sizing_operand = false;
+
 //
 // Values of the arguments of the macro call being expanded
 //
@@ -502,7 +508,8 @@ int expand_plus_minus_node(const parse_node_ptr p)
     {
         // there is no such label
         sym->value = 0;
-        unresolved_plus_minus_count++;
+        if (!sizing_operand)
+            unresolved_plus_minus_count++;
     }
     p->id.i = sym;
 
@@ -533,6 +540,9 @@ int expand_id_node(const parse_node_ptr p)
             return 0;
         }
     }
+    if (!sizing_operand)
+        sym->is_used = true;
+
     return sym->is_initialized ? sym->value : 0;
 }
 
@@ -555,6 +565,9 @@ int expand_label_node(const parse_node_ptr p)
             exit(-1);
         }
     }
+    if (!sizing_operand)
+        symbol_ptr->is_used = true;
+
     if (!symbol_ptr->is_initialized && p->number_of_ops > 0)
         expand_node(p->op[0]);
 
@@ -865,7 +878,13 @@ int expand_op_code_node(const parse_node_ptr p)
         break;
     }
 
-    if (op_bytes > 0 && !has_uninitialized_symbol(p))
+    if (op_bytes > 0 && has_uninitialized_symbol(p))
+    {
+        // the symbols of this statement have to be resolved
+        for (int index = 0; index < p->number_of_ops; index++)
+            expand_node(p->op[index]);
+    }
+    else if (op_bytes > 0)
     {
         int out_of_range = 0;
         int large_op = 0;
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index 0e1be55..2ecb183 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -13,6 +13,7 @@ extern void dump_table_dictionary(void);
 extern int is_uninitialized_symbol(parse_node_ptr p);
 extern bool has_uninitialized_symbol(parse_node_ptr p);
 extern int get_op_byte_count(parse_node_ptr p);
+extern bool sizing_operand;
 
 extern int sym_value_changed;
 extern int unresolved_plus_minus_count;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 0b2993d..48dd05b 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -345,6 +345,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     p->opcode.instruction = op;
 
     int val = 0;
+    sizing_operand = true;
     if (number_of_ops > 0)
     {
         va_start(ap, number_of_ops);
@@ -428,6 +429,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         if (p->op[index])
             expand_node(p->op[index]);
     }
+    sizing_operand = false;
 
     p->opcode.opcode = code;
     if (code < 0)
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index b4c558e..af6b296 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -764,7 +764,7 @@ void dump_unresolved_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false  && sym->is_initialized == false && sym->is_plus_minus == false)
+            if (sym->is_var == false  && sym->is_initialized == false && sym->is_used && sym->is_plus_minus == false)
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
@@ -813,7 +813,7 @@ int unresolved_symbol_count(void)
         {
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
-            if (sym->is_initialized == false && sym->is_macro_name == false &&
+            if (sym->is_initialized == false && sym->is_used && sym->is_macro_name == false &&
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
                 count++;
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index de6a482..a980fde 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -17,6 +17,7 @@ typedef struct symbol_table
     int value;
     int times_accessed;
     bool is_initialized;
+    bool is_used;           // some statement that was expanded refers to it
     bool is_macro_name;
     bool is_macro_param;
     bool is_label;
-- 
2.43.0


From 08387bcbc0157e6c11ed5e3dd91df723096701d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:52 +0000
Subject: [PATCH 51/60] fix: report an undefined symbol that stands alone in a
 data directive

.byte zork and .word zork were not looked up before the final pass, where the
symbol was entered and a zero was written without any message.
---
 CMakePasm/source/expand.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0a02531..6c4f914 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1225,9 +1225,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
-            // find out in time if there is no such + or - label
-            if (!final_pass && pp->type == type_id && (pp->id.name[0] == '-' || pp->id.name[0] == '+'))
-                expand_plus_minus_node(pp);
+            // find out in time if there is no such symbol or label
+            if (!final_pass && (pp->type == type_id || pp->type == type_label))
+                expand_node(pp);
 
             if (!has_uninitialized_symbol(pp))
             {
-- 
2.43.0


From 310579cf7a5a55609ec17fe73f2850a9fd52cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:52 +0000
Subject: [PATCH 52/60] fix: initialize a variable from a plain symbol

.var v = K took K for a second variable of the list: v stayed zero and K itself
was set to zero.
---
 CMakePasm/source/expand.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6c4f914..4b6a770 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1165,6 +1165,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
         switch (expansion_type)  // NOLINT(hicpp-multiway-paths-covered)
         {
         case symbol:
+            // a symbol of this list comes first, its value follows
+            if (symbol_ptr != nullptr)
+            {
+                set_symbol_value(symbol_ptr, expand_node(pp));
+                symbol_ptr = nullptr;
+                break;
+            }
             switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
             {
             case type_id:
@@ -1186,17 +1193,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 break;
 
             default:
-                if (symbol_ptr != nullptr)
-                {
-                    set_symbol_value(symbol_ptr, expand_node(pp));
-                    symbol_ptr = nullptr;
-                }
-                else
-                {
-                    error(error_initializing_variable);
-                    return 0;
-                }
-                break;
+                error(error_initializing_variable);
+                return 0;
             }
             break;
 
-- 
2.43.0


From f790eee819c85daaa73a2d5963e9a9e98dccfabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:52 +0000
Subject: [PATCH 53/60] fix: report an undefined local label in front of the
 first label

Such a symbol was entered as initialized with the value zero, so jmp @nowhere
assembled to jmp 0 without any message.
---
 CMakePasm/source/sym.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index af6b296..fb63dcb 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -214,7 +214,6 @@ symbol_table_ptr add_symbol(char* name)
     if (sym.name[0] == '@')
     {
         sym.is_local = true;
-        sym.is_initialized = true;
         sym.value = 0;
     }
 
-- 
2.43.0


From aff91d092d6404438f22f38f35ba53e68bbf0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:22 +0000
Subject: [PATCH 54/60] fix: run a register loop .to 255 up to its last value

The loop compared the register with 255 after the increment, so the body was
never run for 255: the register wraps to zero there and no compare is needed.
---
 CMakePasm/source/expand.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4b6a770..225f25c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -658,10 +658,11 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // after 255 the register wraps to zero
+    if (end != 0 && (increment_flag < 0 || end < 255))
     {
         parse_node_ptr cmp_node;
-        if (increment_flag > 0 && end < 255)
+        if (increment_flag > 0)
         {
             cmp_node = opcode_node(cmp_op, I, 1, constant_node(end + 1, false));
         }
-- 
2.43.0


From 486db4cdbe0a26f28f47a71951af7080906872f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:22 +0000
Subject: [PATCH 55/60] fix: local labels of a macro defined after the first
 label

The parser gave a local label in a macro body the name it would have at the
definition, while references got the name of the call: a macro with a local
label that was defined behind any other label could not be used. A reference
was also judged by the symbol of an earlier call, which kept far branches from
being turned into jumps.
---
 CMakePasm/source/expand.cc | 13 ++++++-------
 CMakePasm/source/node.cc   |  3 ++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 225f25c..7976a02 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -879,13 +879,12 @@ int expand_op_code_node(const parse_node_ptr p)
         break;
     }
 
-    if (op_bytes > 0 && has_uninitialized_symbol(p))
-    {
-        // the symbols of this statement have to be resolved
-        for (int index = 0; index < p->number_of_ops; index++)
-            expand_node(p->op[index]);
-    }
-    else if (op_bytes > 0)
+    // look up the symbols of this statement, the local labels of a macro
+    // are others in each call
+    for (int index = 0; index < p->number_of_ops; index++)
+        expand_node(p->op[index]);
+
+    if (op_bytes > 0 && !has_uninitialized_symbol(p))
     {
         int out_of_range = 0;
         int large_op = 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 48dd05b..36734ee 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -195,7 +195,8 @@ parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
-    else if (last_label != nullptr && name[0] == '@')
+    // a local label of a macro gets its full name in each call
+    else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
     }
-- 
2.43.0


From 0e1940d405ebeb2ebc98cb3b9700022b15ef7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:30 +0000
Subject: [PATCH 56/60] fix: list only symbols that have a value in the symbol
 file

Symbols that are named by operands of skipped text only were listed as zero.
---
 CMakePasm/source/sym.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index fb63dcb..55747e8 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -681,7 +681,7 @@ void dump_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false && sym->is_macro_param == false && 
+            if (sym->is_initialized && sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
                 pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
             {
-- 
2.43.0


From c960a7cb09beb910729e5c3b44222c9674eca1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 57/60] fix: refuse storage between code in every layout

---
 CMakePasm/source/expand.cc    |  5 ++---
 CMakePasm/source/genoutput.cc | 10 +++++++++-
 CMakePasm/source/genoutput.h  |  1 +
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7976a02..b6e04f5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -43,7 +43,6 @@ enum
 static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
-extern int origin;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
@@ -1115,7 +1114,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
     origin_specified = true;
 
     program_counter = op;
-    origin = op;
+    set_origin(op);
     return 0;
 }
 
@@ -1135,7 +1134,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     }
     const int op = expand_node(p->op[0]);
     program_counter = op;
-    origin = op;
+    set_origin(op);
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 213f51d..62a6522 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -35,6 +35,14 @@ void generate_output_reset(void)
     origin_specified = 0;
 }
 
+/// <summary>
+/// the next byte belongs to this address
+/// </summary>
+void set_origin(const int address)
+{
+    origin = address - (total_bytes_written - byte_delta);
+}
+
 int write_data(FILE* file, const int data)
 {
     if (data_size == 1)
@@ -274,7 +282,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     }
 
     const int start_bytes = total_bytes_written;
-    const int delta = program_counter - (origin + total_bytes_written);
+    const int delta = program_counter - (origin + total_bytes_written - byte_delta);
     if (delta > 0)
     {
         error(error_value_out_of_range);
diff --git a/CMakePasm/source/genoutput.h b/CMakePasm/source/genoutput.h
index d03c6ef..846b32f 100644
--- a/CMakePasm/source/genoutput.h
+++ b/CMakePasm/source/genoutput.h
@@ -5,6 +5,7 @@
 extern int generate_output(FILE* file, parse_node_ptr p);
 extern int get_op_code_byte_count(parse_node_ptr p);
 extern void generate_output_reset(void);
+extern void set_origin(int address);
 
 extern int total_bytes_written;
 
-- 
2.43.0


From e565416e0ed360f36f27f3c83ae2519f757e1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 58/60] fix: long form of bvc, bvs and bra

---
 CMakePasm/source/expand.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b6e04f5..f4acce5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -976,6 +976,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
@@ -990,13 +998,18 @@ int expand_op_code_node(const parse_node_ptr p)
                         }
 
                         p->opcode.opcode = code2;
-                        if (final_pass)
+
+                        // a branch that is always taken has no opposite, the jmp alone is the same
+                        if (p->opcode.instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
-- 
2.43.0


From 037d0f1b17546d002617e884fc66a98043a29ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:00 +0000
Subject: [PATCH 59/60] fix: load address of a program whose origins come after
 its first instruction

---
 CMakePasm/source/expand.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f4acce5..654b596 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -40,7 +40,6 @@ enum
     max_macro_nesting = 1000
 };
 
-static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
 
@@ -825,9 +824,6 @@ int expand_op_code_node(const parse_node_ptr p)
     const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
-    if (program_counter_assigned > 0)
-        origin_specified = true;
-
     p->opcode.program_counter = program_counter;
  
     switch (p->opcode.mode)
@@ -1122,7 +1118,6 @@ int expand_operator_hi_byte_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
-    program_counter_assigned++;
     const int op = expand_node(p->op[0]);
     origin_specified = true;
 
@@ -1138,8 +1133,6 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_org_node(const parse_node_ptr p)
 {
-    program_counter_assigned++;
-
     if (org_origin_specified)
     {
         error(error_org_specified_more_than_once);
-- 
2.43.0


From bbebea80ff7c56be1efaba3ccfcabb218d7be4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:04 +0000
Subject: [PATCH 60/60] fix: every pass starts in the modes the command line
 asked for

---
 CMakePasm/source/pass.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index abd2778..ba83503 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -41,6 +42,20 @@ void reset_lex(void)
     // reset the scanner
     reset_scanner();
 
+    // every pass starts in the modes the command line asked for
+    static cpu initial_cpu_mode;
+    static int initial_illegal_op_codes;
+    static bool initial_ignore_warnings;
+    if (pass <= 1)
+    {
+        initial_cpu_mode = cpu_mode;
+        initial_illegal_op_codes = allow_illegal_op_codes;
+        initial_ignore_warnings = ignore_warnings;
+    }
+    cpu_mode = initial_cpu_mode;
+    allow_illegal_op_codes = initial_illegal_op_codes;
+    ignore_warnings = initial_ignore_warnings;
+
     // reset End flag
     end_expansion = 0;
 
-- 
2.43.0

