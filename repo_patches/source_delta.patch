From 66effc659b39752616f6a152665dd38098942bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 01/77] fix: content-parser: do not reuse freed lines of an
 aborted list

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..3c143b7 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1100,6 +1100,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1211,6 +1212,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From f3445a9f43777cff5f4fba64b609562bb22495be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/77] fix: content-parser: handle content that mixes line
 endings

---
 src/blogc/content-parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 3c143b7..cc518cf 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -730,6 +730,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         bool is_last = current == src_len - 1;
 
         if (c == '\n' || c == '\r') {
+            real_end = current;
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
@@ -740,7 +741,6 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         line_ending[2] = '\0';
                         line_ending_found = true;
                     }
-                    real_end = current;
                     c = src[++current];
                     is_last = current == src_len - 1;
                 }
@@ -838,11 +838,12 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_HEADER_TITLE_START:
                 if (c == ' ' || c == '\t')
                     break;
-                start = current;
                 if (c != '\n' && c != '\r') {
+                    start = current;
                     state = CONTENT_HEADER_TITLE;
                     break;
                 }
+                start = real_end;
 
             case CONTENT_HEADER_TITLE:
                 if (c == '\n' || c == '\r' || is_last) {
-- 
2.43.0


From 16394dc520b97440594ded7cdd1e1801f830f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 03/77] fix: content-parser: do not lose content at the end of
 an unterminated line

---
 src/blogc/content-parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index cc518cf..e148361 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -677,6 +677,14 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
     // src is always nul-terminated.
     size_t src_len = strlen(src);
 
+    // the end of the content also ends its last line.
+    char *full_src = NULL;
+    if (src_len > 0 && src[src_len - 1] != '\n' && src[src_len - 1] != '\r') {
+        full_src = bc_strdup_printf("%s\n", src);
+        src = full_src;
+        src_len++;
+    }
+
     size_t current = 0;
     size_t start = 0;
     size_t start2 = 0;
@@ -1302,5 +1310,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         free(line_ending);
     }
 
+    free(full_src);
+
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From 8fae22567186a5f8acc05f9ba3e9ebbca183bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 04/77] fix: content-parser: end a paragraph that started like
 another block at its own empty line

---
 src/blogc/content-parser.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index e148361..c0b1880 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -828,7 +828,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     }
                 }
                 eend = 0;
-                state = CONTENT_PARAGRAPH_END;
+                state = CONTENT_PARAGRAPH;
                 break;
 
             case CONTENT_HEADER:
@@ -840,6 +840,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     state = CONTENT_HEADER_TITLE_START;
                     break;
                 }
+                if (is_last)
+                    goto paragraph;
                 state = CONTENT_PARAGRAPH;
                 break;
 
@@ -906,9 +908,11 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_BLOCKQUOTE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                end = c == '\n' || c == '\r' ? real_end : current;
+                prefix = bc_strndup(src + start, end - start);
                 state = CONTENT_BLOCKQUOTE_START;
-                break;
+                if (c != '\n' && c != '\r')
+                    break;
 
             case CONTENT_BLOCKQUOTE_START:
                 if (c == '\n' || c == '\r' || is_last) {
@@ -920,7 +924,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_BLOCKQUOTE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
@@ -983,7 +987,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_CODE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
@@ -1033,12 +1037,13 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         break;
                     }
                     else if (c != ' ' && c != '\t' && d == '*') { // is '*' emphasis
-                        state = CONTENT_PARAGRAPH;
-                        break;
+                        goto paragraph;
                     }
                 }
                 if (c == ' ' || c == '\t')
                     break;
+                if (c == '\n' || c == '\r')
+                    goto paragraph;
                 prefix = bc_strndup(src + start, current - start);
                 state = CONTENT_UNORDERED_LIST_START;
                 break;
@@ -1052,8 +1057,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 // is '**' emphasis
-                state = CONTENT_PARAGRAPH;
-                break;
+                goto paragraph;
 
             case CONTENT_HORIZONTAL_RULE:
                 if (c == d && !is_last) {
@@ -1168,10 +1172,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     state = CONTENT_ORDERED_LIST_SPACE;
                     break;
                 }
-                state = CONTENT_PARAGRAPH;
-                if (is_last)
-                    continue;
-                break;
+                goto paragraph;
 
             case CONTENT_ORDERED_LIST_SPACE:
                 if (c == ' ' || c == '\t')
@@ -1274,6 +1275,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_PARAGRAPH:
+            paragraph:
+                state = CONTENT_PARAGRAPH;
                 if (c == '\n' || c == '\r' || is_last) {
                     state = CONTENT_PARAGRAPH_END;
                     end = is_last && c != '\n' && c != '\r' ? src_len :
-- 
2.43.0


From 52e858942515eb18b565d2448f55c00735bc4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 05/77] fix: content-parser: parse an unterminated link only up
 to the end of its span

---
 src/blogc/content-parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index c0b1880..2c70560 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -605,9 +605,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
-            bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
+            bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
         // add all the other states here explicitly, so the compiler helps us
-- 
2.43.0


From 96ed2650d73869600fa094538f43214b8888c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/77] fix: content-parser: keep an opening mark that ends its
 span

---
 src/blogc/content-parser.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 2c70560..6fe2c40 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -611,17 +611,31 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
+        // the content ended just after the opening mark. as nothing closes it,
+        // the mark is ordinary text.
+        case CONTENT_INLINE_ASTERISK_DOUBLE:
+            bc_string_append(rv, "**");
+            break;
+
+        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
+            bc_string_append(rv, "__");
+            break;
+
+        case CONTENT_INLINE_BACKTICKS_DOUBLE:
+            bc_string_append(rv, "``");
+            break;
+
+        case CONTENT_INLINE_LINK_AUTO:
+            bc_string_append(rv, "[[");
+            break;
+
         // add all the other states here explicitly, so the compiler helps us
         // not missing any new state that should be handled.
         case CONTENT_INLINE_START:
         case CONTENT_INLINE_ASTERISK:
-        case CONTENT_INLINE_ASTERISK_DOUBLE:
         case CONTENT_INLINE_UNDERSCORE:
-        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
         case CONTENT_INLINE_BACKTICKS:
-        case CONTENT_INLINE_BACKTICKS_DOUBLE:
         case CONTENT_INLINE_LINK_START:
-        case CONTENT_INLINE_LINK_AUTO:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From 06f52ed95318e20eace3cc122267314b7971485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 07/77] fix: content-parser: do not recurse, nor leak, for each
 unterminated link

---
 src/blogc/content-parser.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 6fe2c40..1ce945c 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -190,6 +190,7 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
 
     blogc_content_parser_inline_state_t state = CONTENT_INLINE_START;
 
+parse:
     while (current < src_len) {
         char c = src[current];
         bool is_last = current == src_len - 1;
@@ -445,6 +446,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                     break;
                 }
                 bc_string_append_c(rv, '[');
+                free(link1);
+                link1 = NULL;
                 state = CONTENT_INLINE_START;
                 current = start_link;
                 start_link = 0;
@@ -504,6 +507,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 }
                 bc_string_append_c(rv, '!');
                 bc_string_append_c(rv, '[');
+                free(link1);
+                link1 = NULL;
                 state = CONTENT_INLINE_START;
                 current = start_link;
                 start_link = 0;
@@ -595,7 +600,7 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
     switch (state) {
 
         // if after the end of the loop we are on any of the following states,
-        // we must call the parser again, from start_link
+        // we must parse again, from start_link
         case CONTENT_INLINE_IMAGE_START:
         case CONTENT_INLINE_IMAGE_ALT:
         case CONTENT_INLINE_IMAGE_URL_START:
@@ -605,11 +610,12 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline_internal(src + start_link,
-                src_len - start_link);
             bc_string_append_c(rv, '[');
-            bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
-            break;
+            free(link1);
+            link1 = NULL;
+            state = CONTENT_INLINE_START;
+            current = start_link;
+            goto parse;
 
         // the content ended just after the opening mark. as nothing closes it,
         // the mark is ordinary text.
-- 
2.43.0


From 49bcc2d934cde85e579b40ef74e60dbfa5bafc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 08/77] fix: template-parser: do not lose the text after the
 last opening bracket

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..3c24597 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -141,7 +141,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 }
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From 05204fc3d291df1174ed273945dabd57734f0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 09/77] fix: template-parser: clean only the white space next
 to the statement

---
 src/blogc/template-parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 3c24597..3f2c897 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -138,6 +138,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         previous = node;
                         node = NULL;
                     }
+                    lstrip_next = false;
                     break;
                 }
                 state = TEMPLATE_START;
-- 
2.43.0


From f0194bdf48ce0d43f8bbf7d97e2223bb4b108504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 10/77] fix: template-parser: refuse a template that ends
 inside a statement

---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 3f2c897..57f6e43 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -660,6 +660,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         else if (foreach_open)
             *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
                 "An open 'foreach' statement was not closed!");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
+                "The last statement was not closed!");
     }
 
     if (*err != NULL) {
-- 
2.43.0


From 3134eb3ae8ac967302ca5e934edbc312f8f09904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 11/77] fix: template-parser: do not ignore the character after
 a variable operand

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 57f6e43..7d864d7 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -477,7 +477,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                 end2 = current;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_FOREACH_START:
                 if (bc_isspace(c))
-- 
2.43.0


From 40a6f58909c7cd2dd44fba86c1af78cea4626490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 12/77] fix: template-parser: refuse a second 'else' also after
 a nested 'if'

---
 src/blogc/template-parser.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 7d864d7..ad3b03e 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,10 +54,13 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
-    bool else_open = false;
     bool foreach_open = false;
     bool block_foreach_open = false;
 
+    // one character for each open 'if', 'ifdef' or 'ifndef': 'i' before its
+    // 'else' statement, and 'e' after it.
+    bc_string_t *open_ifs = bc_string_new();
+
     bc_slist_t *ast = NULL;
     blogc_template_node_t *node = NULL;
 
@@ -229,7 +232,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(open_ifs, 'i');
                         break;
                     }
                     else if ((current - start == 6) &&
@@ -239,7 +242,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFNDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(open_ifs, 'i');
                         break;
                     }
                     else if ((current - start == 2) &&
@@ -249,7 +252,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(open_ifs, 'i');
                         break;
                     }
                     else if ((current - start == 4) &&
@@ -258,10 +261,10 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && if_count > block_if_count) ||
                             (!block_open && if_count > 0))
                         {
-                            if (!else_open) {
+                            if (open_ifs->str[if_count - 1] == 'i') {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                                 type = BLOGC_TEMPLATE_NODE_ELSE;
-                                else_open = true;
+                                open_ifs->str[if_count - 1] = 'e';
                                 break;
                             }
                             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -285,7 +288,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
                             if_count--;
-                            else_open = false;
+                            open_ifs->str[--open_ifs->len] = '\0';
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -665,6 +668,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                 "The last statement was not closed!");
     }
 
+    bc_string_free(open_ifs, true);
+
     if (*err != NULL) {
         if (node != NULL) {
             free(node->data[0]);
-- 
2.43.0


From f653bcc376e2ff433b65bb86455806cb0f994cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 13/77] fix: template-parser: refuse 'if' and 'foreach'
 statements that overlap

---
 src/blogc/template-parser.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index ad3b03e..591edf8 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,6 +54,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
+    size_t foreach_if_count = 0;
     bool foreach_open = false;
     bool block_foreach_open = false;
 
@@ -258,8 +259,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 4) &&
                         (0 == strncmp("else", src + start, 4)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                             (!block_open && if_count > 0)) &&
+                            (!foreach_open || if_count > foreach_if_count))
                         {
                             if (open_ifs->str[if_count - 1] == 'i') {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
@@ -282,8 +284,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 5) &&
                         (0 == strncmp("endif", src + start, 5)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                             (!block_open && if_count > 0)) &&
+                            (!foreach_open || if_count > foreach_if_count))
                         {
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
@@ -305,6 +308,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             type = BLOGC_TEMPLATE_NODE_FOREACH;
                             start = current;
                             foreach_open = true;
+                            foreach_if_count = if_count;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -318,6 +322,13 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && !block_foreach_open && foreach_open) ||
                             (!block_open && foreach_open))
                         {
+                            if (if_count != foreach_if_count) {
+                                *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
+                                    "%d open 'if', 'ifdef' and/or 'ifndef' statements "
+                                    "were not closed inside a 'foreach' statement!",
+                                    if_count - foreach_if_count);
+                                break;
+                            }
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDFOREACH;
                             foreach_open = false;
-- 
2.43.0


From f45e16012ce912d832e90e362241e245f2bf6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 14/77] fix: renderer: do not read before an empty variable
 name

---
 src/blogc/renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..f196031 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -109,7 +109,7 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     long int len = -1;
 
     // just walk till the last '_'
-    for (i = last - 1; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
+    for (i = last > 0 ? last - 1 : 0; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
 
     if (var[i] == '_' && (i + 1) < last) {  // var ends with '_[0-9]+'
         char *endptr;
-- 
2.43.0


From 067bebd16fd5bbc713a25769ca0cc31e9dd92ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 15/77] fix: renderer: truncate variables by characters, not by
 bytes

---
 src/blogc/renderer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index f196031..c70a0da 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -172,7 +172,14 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     free(var);
 
     if (len > 0) {
-        char *tmp = bc_strndup(rv, len);
+        // the length is in characters, and UTF-8 continuation bytes belong to
+        // the previous character.
+        size_t j;
+        for (j = 0; rv[j] != '\0'; j++) {
+            if ((rv[j] & 0xc0) != 0x80 && len-- == 0)
+                break;
+        }
+        char *tmp = bc_strndup(rv, j);
         free(rv);
         rv = tmp;
     }
-- 
2.43.0


From e92d90576dec77f26f2be8405dca1587de138453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 16/77] fix: renderer: do not show variables of the last listed
 source after its block

---
 src/blogc/renderer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index c70a0da..fc8cb08 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -356,6 +356,8 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                     else
                         listing_start = NULL;
                 }
+                if (listing)
+                    tmp_source = NULL;
                 break;
 
             case BLOGC_TEMPLATE_NODE_IFNDEF:
-- 
2.43.0


From 02ab45c936fee8767c3d071098202bd839c3b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 17/77] fix: loader: paginate without overflows nor rounding,
 also with no posts per page

---
 src/blogc/loader.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..1d2c85f 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -1,7 +1,6 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
-#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -233,8 +232,6 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         per_page = 0;
 
     // poor man's pagination
-    size_t start = (page - 1) * per_page;
-    size_t end = start + per_page;
     size_t counter = 0;
 
     bc_slist_t *rv = NULL;
@@ -262,12 +259,12 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
             }
         }
         if (filter_page != NULL) {
-            if (counter < start || counter >= end) {
-                counter++;
+            bool in_page = per_page > 0 && counter / per_page == page - 1;
+            counter++;
+            if (!in_page) {
                 bc_trie_free(s);
                 continue;
             }
-            counter++;
         }
         rv = bc_slist_append(rv, s);
     }
@@ -297,7 +294,8 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        long last_page = per_page > 0 && counter > 0 ?
+            (counter - 1) / per_page + 1 : 0;
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
@@ -306,7 +304,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%ld", last_page));
     }
 
     return rv;
-- 
2.43.0


From 83db0abc9c908216292a0a254eac164384495dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 18/77] fix: loader: sort dates that are far apart, or before
 1970

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 1d2c85f..05ba8de 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -115,10 +115,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (lb > la) - (lb < la);
 }
 
 
-- 
2.43.0


From 41296182f24c0d8858285b088d88a877b994d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 19/77] fix: datetime-parser: handle dates as GMT in any time
 zone

---
 src/blogc/datetime-parser.c | 4 ++--
 src/blogc/loader.c          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/datetime-parser.c b/src/blogc/datetime-parser.c
index 36f55f0..0191f0b 100644
--- a/src/blogc/datetime-parser.c
+++ b/src/blogc/datetime-parser.c
@@ -58,7 +58,6 @@ blogc_convert_datetime(const char *orig, const char *format,
 
     struct tm t;
     memset(&t, 0, sizeof(struct tm));
-    t.tm_isdst = -1;
 
     blogc_datetime_state_t state = DATETIME_FIRST_YEAR;
     int tmp = 0;
@@ -365,7 +364,8 @@ blogc_convert_datetime(const char *orig, const char *format,
         }
     }
 
-    mktime(&t);
+    // dates are in GMT, do not let the local time zone change them.
+    timegm(&t);
 
     char buf[1024];
     if (0 == strftime(buf, sizeof(buf), format, &t)) {
diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 05ba8de..40a80a2 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -167,7 +167,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
                 return NULL;
             }
 
-            char *timestamp = blogc_convert_datetime(date, "%s", &tmp_err);
+            char *timestamp = blogc_convert_datetime(date, "%Y%m%d%H%M%S", &tmp_err);
             if (timestamp == NULL) {
                 *err = bc_error_new_printf(BLOGC_ERROR_LOADER,
                     "An error occurred while parsing 'DATE' variable: %s"
-- 
2.43.0


From ead0fecceeb63aa7dda41c7db6dbcfc78e8b32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 20/77] fix: source-parser: do not lose a content of a single
 character

---
 src/blogc/source-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..fc7e539 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -142,7 +142,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     break;
                 start = current;
                 state = SOURCE_CONTENT;
-                break;
+                continue;
 
             case SOURCE_CONTENT:
                 if (current == (src_len - 1)) {
-- 
2.43.0


From bfdc9ad5a18d36b1c4cf7a44a0329813a886c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 21/77] fix: source-parser: refuse an unterminated last
 variable also after other variables

---
 src/blogc/source-parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index fc7e539..938899b 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -215,13 +215,15 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
         current++;
     }
 
-    if (*err == NULL && bc_trie_size(rv) == 0) {
+    if (*err == NULL) {
 
-        // ok, nothing found in the config trie, but no error set either.
-        // let's try to be nice with the users and provide some reasonable
-        // output. :)
+        // ok, we may be in the middle of a variable, or have nothing in the
+        // config trie, but no error set either. let's try to be nice with the
+        // users and provide some reasonable output. :)
         switch (state) {
             case SOURCE_START:
+                if (bc_trie_size(rv) > 0)
+                    break;
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
                     current, "Your source file is empty.");
                 break;
-- 
2.43.0


From 1613c8d818ddc1c92efafd2b67a31b1dd92ddec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 22/77] fix: content-parser: end the excerpt at the first
 separator

---
 src/blogc/content-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 1ce945c..8e01d02 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -843,7 +843,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_EXCERPT_END:
                 if (end_excerpt != NULL) {
                     if (c == '\n' || c == '\r') {
-                        *end_excerpt = eend;
+                        if (*end_excerpt == 0)
+                            *end_excerpt = eend;
                         state = CONTENT_START_LINE;
                         break;
                     }
-- 
2.43.0


From 53ef164ba7c22cea65f78aea4763833573a0c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 23/77] fix: file: report read errors, instead of trying to
 read forever

---
 src/common/file.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..1c0261a 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -47,6 +47,16 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
 
         *len += read_len;
         bc_string_append_len(str, tmp, read_len);
+
+        if (ferror(fp)) {
+            int tmp_errno = errno;
+            *err = bc_error_new_printf(BC_ERROR_FILE,
+                "Failed to read file (%s): %s", path, strerror(tmp_errno));
+            *len = 0;
+            bc_string_free(str, true);
+            fclose(fp);
+            return NULL;
+        }
     }
     fclose(fp);
 
-- 
2.43.0


From 98f6494b0eaa7704a6e4bf6cab17fa5cb1c1687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 24/77] fix: filelist-parser: do not free a pointer inside a
 stripped line

---
 src/blogc/filelist-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc/filelist-parser.c b/src/blogc/filelist-parser.c
index 1ffe0ad..0683a53 100644
--- a/src/blogc/filelist-parser.c
+++ b/src/blogc/filelist-parser.c
@@ -42,8 +42,8 @@ blogc_filelist_parse(const char *src, size_t src_len)
                 if (c == '\r' || c == '\n' || is_last) {
                     if (is_last && c != '\r' && c != '\n')
                         bc_string_append_c(line, c);
-                    rv = bc_slist_append(rv, bc_str_strip(line->str));
-                    bc_string_free(line, false);
+                    rv = bc_slist_append(rv, bc_strdup(bc_str_strip(line->str)));
+                    bc_string_free(line, true);
                     line = bc_string_new();
                     state = LINE_START;
                     break;
-- 
2.43.0


From ee4c410d38559fa013b4b9b938d6c590d454207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 25/77] fix: blogc: exit with an error when a -D value is not
 valid UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..88d3d44 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From ef61f93c402641f69c62ccd76f36a67154ef2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 26/77] fix: blogc: refuse a -D value without a key

---
 src/blogc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 88d3d44..8aacce5 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -211,7 +211,7 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
-                        for (size_t j = 0; pieces[0][j] != '\0'; j++) {
+                        for (size_t j = 0; j == 0 || pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
                                 if (!(c >= 'A' && c <= 'Z')) {
-- 
2.43.0


From 779e7601257619d8b1944096e70bf0aaecef2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 27/77] fix: blogc: report errors when reading the list of
 source files

---
 src/blogc/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 8aacce5..884942c 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -268,6 +268,13 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (ferror(stdin)) {
+            fprintf(stderr, "blogc: error: failed to read list of source files "
+                "from standard input\n");
+            free(input);
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
-- 
2.43.0


From 2ba2a925f8b63382501f7e69a1c9075736db4d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 28/77] fix: blogc: exit with an error when the output can't be
 written

---
 src/blogc/main.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 884942c..30deee0 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -332,7 +332,11 @@ main(int argc, char **argv)
             rv = EX_CONFIG;
         }
         else {
-            printf("%s\n", val);
+            if (printf("%s\n", val) < 0 || fflush(stdout) != 0) {
+                fprintf(stderr, "blogc: error: failed to write to standard "
+                    "output: %s\n", strerror(errno));
+                rv = 1;
+            }
         }
         free(val);
         goto cleanup2;
@@ -371,11 +375,19 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
-
-    if (!write_to_stdout)
-        fclose(fp);
+    bool failed = out != NULL && fputs(out, fp) == EOF;
+    if (fflush(fp) != 0)
+        failed = true;
+    int write_errno = errno;
+    if (!write_to_stdout && fclose(fp) != 0) {
+        write_errno = failed ? write_errno : errno;
+        failed = true;
+    }
+    if (failed) {
+        fprintf(stderr, "blogc: error: failed to write output (%s): %s\n",
+            write_to_stdout ? "standard output" : output, strerror(write_errno));
+        rv = 1;
+    }
 
 cleanup4:
     free(out);
-- 
2.43.0


From 883db972df33604000216dafa308cccda45d36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 29/77] fix: config-parser: keep white space after an escaped
 first character

---
 src/common/config-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..3dae9b1 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -82,6 +82,10 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         if (escaped) {
             bc_string_append_c(value, c);
             escaped = false;
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
-- 
2.43.0


From 31ea981343e0cce9ccf73459acaa5eac99726227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 30/77] fix: config-parser: ignore blank lines that have
 form-feeds or vertical tabs

---
 src/common/config-parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 3dae9b1..7121b36 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -107,8 +107,11 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     }
                     break;
                 }
-                if (c == ' ' || c == '\t' || c == '\r' || c == '\n')
+                if (c == ' ' || c == '\t' || c == '\f' || c == '\v' || c == '\r' ||
+                    c == '\n')
+                {
                     break;
+                }
                 if (c == '[') {
                     state = CONFIG_SECTION_START;
                     break;
-- 
2.43.0


From 803db5def64dd3d1cb39cad6290e5c5cfdec4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 31/77] fix: config-parser: do not drop the last line of a file
 without line ending

---
 src/common/config-parser.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 7121b36..122e2aa 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -70,6 +70,16 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
     bc_string_t *value = NULL;
     bool escaped = false;
 
+    // the end of the file also ends its last line.
+    char *full_src = NULL;
+    if (src_len > 0 && src[src_len - 1] != '\n' && src[src_len - 1] != '\r') {
+        full_src = bc_malloc(src_len + 2);
+        memcpy(full_src, src, src_len);
+        full_src[src_len++] = '\n';
+        full_src[src_len] = '\0';
+        src = full_src;
+    }
+
     bc_config_t *rv = bc_malloc(sizeof(bc_config_t));
     rv->root = bc_trie_new((bc_free_func_t) free_section);
 
@@ -194,7 +204,8 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     current;
                 key = bc_strndup(src + start, end - start);
                 *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
-                    current, "Key without value: %s.", key);
+                    full_src != NULL && is_last ? current - 1 : current,
+                    "Key without value: %s.", key);
                 free(key);
                 key = NULL;
                 break;
@@ -316,9 +327,18 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    if (*err == NULL && (value != NULL || state == CONFIG_SECTION_START)) {
+        *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len, src_len,
+            "File ends inside a section name, a quoted value or an escape "
+            "sequence.");
+        bc_config_free(rv);
+        rv = NULL;
+    }
+
     free(section_name);
     free(key);
     bc_string_free(value, true);
+    free(full_src);
 
     return rv;
 }
-- 
2.43.0


From e96c214bf5c8c5e22699cb4dcb7ccfe4a45b5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 32/77] fix: blogc-make: quote the list of tags for the shell

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..9479b62 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -240,7 +240,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 561590f6ee40c0f0dd866b338c4ad962f3c84aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 33/77] fix: blogc-make: do not deadlock, nor die, on children
 with much output or not reading their input

---
 src/blogc-make/exec.c | 127 ++++++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 43 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 9479b62..9d00946 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -11,6 +11,9 @@
 #define EX_CONFIG 78
 #endif /* HAVE_SYSEXITS_H */
 
+#include <fcntl.h>
+#include <poll.h>
+#include <signal.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -107,6 +110,9 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         return 1;
     }
 
+    // a child may exit without reading its input
+    signal(SIGPIPE, SIG_IGN);
+
     pid_t pid = fork();
     if (pid == -1) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
@@ -122,6 +128,8 @@ bm_exec_command(const char *cmd, const char *input, char **output,
 
     // child
     if (pid == 0) {
+        signal(SIGPIPE, SIG_DFL);
+
         close(fd_in[1]);
         close(fd_out[0]);
         close(fd_err[0]);
@@ -147,59 +155,92 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_out[1]);
     close(fd_err[1]);
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
-            close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
-        }
+    // feed the input and read both outputs at the same time, otherwise we would
+    // wait forever for a child that is waiting for us.
+    size_t written = 0;
+    size_t input_len = input != NULL ? strlen(input) : 0;
+    if (input_len == 0) {
+        close(fd_in[1]);
+        fd_in[1] = -1;
+    }
+    else {
+        fcntl(fd_in[1], F_SETFL, O_NONBLOCK);
     }
-
-    close(fd_in[1]);
 
     char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
-
-    bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+    bc_string_t *out[2] = {NULL, NULL};
+
+    struct pollfd fds[3] = {
+        {.fd = fd_out[0], .events = POLLIN},
+        {.fd = fd_err[0], .events = POLLIN},
+        {.fd = fd_in[1], .events = POLLOUT},
+    };
+
+    while (*err == NULL && (fds[0].fd != -1 || fds[1].fd != -1)) {
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+                "Failed to wait for pipes: %s", strerror(errno));
+            break;
         }
-        if (out == NULL) {
-            out = bc_string_new();
+
+        if (fds[2].fd != -1 && fds[2].revents != 0) {
+            ssize_t s = write(fds[2].fd, input + written, input_len - written);
+            if (s > 0)
+                written += s;
+            if (s == -1 && errno != EAGAIN && errno != EINTR && errno != EPIPE) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+
+            // a child that does not want its input is not an error by itself
+            if (written == input_len || (s == -1 && errno == EPIPE)) {
+                close(fds[2].fd);
+                fds[2].fd = -1;
+            }
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
-    }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+        for (size_t i = 0; i < 2; i++) {
+            if (fds[i].fd == -1 || fds[i].revents == 0)
+                continue;
+            ssize_t s = read(fds[i].fd, buffer, BC_FILE_CHUNK_SIZE);
+            if (s == -1) {
+                if (errno == EINTR)
+                    continue;
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to read from %s pipe: %s",
+                    i == 0 ? "stdout" : "stderr", strerror(errno));
+                break;
+            }
+            if (s == 0) {
+                close(fds[i].fd);
+                fds[i].fd = -1;
+                continue;
+            }
+            if (out[i] == NULL)
+                out[i] = bc_string_new();
+            bc_string_append_len(out[i], buffer, s);
         }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    for (size_t i = 0; i < 3; i++) {
+        if (fds[i].fd != -1)
+            close(fds[i].fd);
     }
-    close(fd_err[0]);
+
+    if (*err != NULL) {
+        bc_string_free(out[0], true);
+        bc_string_free(out[1], true);
+        waitpid(pid, NULL, 0);
+        return 1;
+    }
+
+    if (out[0] != NULL)
+        *output = bc_string_free(out[0], false);
+    if (out[1] != NULL)
+        *error = bc_string_free(out[1], false);
 
     int status;
     waitpid(pid, &status, 0);
-- 
2.43.0


From 08f068d79e4f3352ea0cb85b75199243a447318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 34/77] fix: blogc-make: do not use the blog prefix as a format
 string in feed addresses

---
 src/blogc-make/atom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..00e4c4e 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -56,9 +56,9 @@ bm_atom_generate(bm_settings_t *settings)
 
     bc_string_t *atom_url = bc_string_new();
 
-    if (blog_prefix != NULL) {
+    if (blog_prefix != NULL && blog_prefix[0] != '\0') {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From f3af5f4b321039718a461656f45f9f193e9ecb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 35/77] fix: blogc-make: keep the context if it fails to
 reload, to recover once blogcfile is fixed

---
 src/blogc-make/ctx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..9c13364 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -312,7 +312,9 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        // when this fails the current context is still valid, and we keep it to
+        // be able to try again.
+        bm_ctx_new(*ctx, tmp, NULL, &err);
         free(tmp);
         if (err != NULL) {
             bc_error_print(err, "blogc-make");
-- 
2.43.0


From 12e80223c197c453a988efae3327033247a1dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 36/77] fix: blogc-make: do not clean directories above an
 output directory set with a trailing slash

---
 src/blogc-make/ctx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 9c13364..ec42ff9 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -229,7 +229,16 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     free(abs_filename);
 
     const char *output_dir = getenv("OUTPUT_DIR");
-    rv->short_output_dir = bc_strdup(output_dir != NULL ? output_dir : "_build");
+    rv->short_output_dir = bc_strdup(output_dir != NULL && output_dir[0] != '\0' ?
+        output_dir : "_build");
+
+    // trailing slashes would make it look different from the parent directory
+    // of its own files.
+    for (size_t i = strlen(rv->short_output_dir);
+            i > 1 && rv->short_output_dir[i - 1] == '/'; i--)
+    {
+        rv->short_output_dir[i - 1] = '\0';
+    }
 
     if (rv->short_output_dir[0] == '/') {
         rv->output_dir = bc_strdup(rv->short_output_dir);
-- 
2.43.0


From db026fa8380f512c8261661a814cf420aa9c24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 37/77] fix: blogc-make: do not forget an unknown rule when the
 next ones succeed

---
 src/blogc-make/rules.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..619087b 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -930,6 +930,7 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
 
     const bm_rule_t *rule = NULL;
     int rv = 0;
+    bool not_found = false;
 
     for (bc_slist_t *l = rule_list; l != NULL; l = l->next) {
 
@@ -963,11 +964,11 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
         if (rule == NULL) {
             fprintf(stderr, "blogc-make: error: rule not found: %.*s\n",
                 (int) (sep - rule_str), rule_str);
-            rv = 1;
+            not_found = true;
         }
     }
 
-    return rv;
+    return not_found ? 1 : rv;
 }
 
 
-- 
2.43.0


From d1686646e74d0dce71b9272bea67cee57fd0720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 38/77] fix: blogc-make: report read errors when copying files,
 and do not leave partial copies

---
 src/blogc-make/exec-native.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..e96b3b1 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -61,18 +61,28 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         return 1;
     }
 
+    int rv = 0;
     ssize_t nread;
     char buffer[BC_FILE_CHUNK_SIZE];
-    while (0 < (nread = read(fd_from, buffer, BC_FILE_CHUNK_SIZE))) {
+    while (rv == 0 && 0 != (nread = read(fd_from, buffer, BC_FILE_CHUNK_SIZE))) {
+        if (nread == -1) {
+            if (errno == EINTR)
+                continue;
+            fprintf(stderr, "blogc-make: error: failed to read from source file "
+                "(%s): %s\n", source->path, strerror(errno));
+            rv = 1;
+            break;
+        }
         char *out_ptr = buffer;
         do {
             ssize_t nwritten = write(fd_to, out_ptr, nread);
             if (nwritten == -1) {
+                if (errno == EINTR)
+                    continue;
                 fprintf(stderr, "blogc-make: error: failed to write to "
                     "destination file (%s): %s\n", dest->path, strerror(errno));
-                close(fd_from);
-                close(fd_to);
-                return 1;
+                rv = 1;
+                break;
             }
             nread -= nwritten;
             out_ptr += nwritten;
@@ -80,9 +90,17 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
     }
 
     close(fd_from);
-    close(fd_to);
+    if (-1 == close(fd_to) && rv == 0) {
+        fprintf(stderr, "blogc-make: error: failed to write to destination "
+            "file (%s): %s\n", dest->path, strerror(errno));
+        rv = 1;
+    }
+
+    // a partial copy would look up to date for the next build
+    if (rv != 0)
+        unlink(dest->path);
 
-    return 0;
+    return rv;
 }
 
 
-- 
2.43.0


From 3e69c4ed6ad3815817bda34ab15f1c77a88b3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:00 +0000
Subject: [PATCH 39/77] fix: blogc-make: do not silently ignore files and
 directories to copy that can't be read

---
 src/blogc-make/ctx.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index ec42ff9..c3917e9 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -67,23 +67,35 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
     char *f = filename[0] == '/' ? bc_strdup(filename) :
         bc_strdup_printf("%s/%s", ctx->root_dir, filename);
 
+    // whatever can't be read is listed anyway, to make its rule fail instead of
+    // silently ignoring it.
     struct stat buf;
     if (0 != stat(f, &buf)) {
         free(f);
-        return l;
+        return bc_slist_append(l, bm_filectx_new(ctx, filename, NULL, NULL));
     }
 
     if (S_ISDIR(buf.st_mode)) {
         DIR *dir = opendir(f);
         if (dir == NULL) {
+            bm_filectx_t *fctx = bm_filectx_new(ctx, filename, NULL, &buf);
+            fctx->readable = false;
             free(f);
-            return l;
+            return bc_slist_append(l, fctx);
         }
 
         struct dirent *e;
         while (NULL != (e = readdir(dir))) {
             if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
                 continue;
+
+            // links to nowhere are not files
+            char *p = bc_strdup_printf("%s/%s", f, e->d_name);
+            int rv = stat(p, &buf);
+            free(p);
+            if (rv != 0 && (errno == ENOENT || errno == ELOOP))
+                continue;
+
             char *tmp = bc_strdup_printf("%s/%s", filename, e->d_name);
             l = bm_filectx_new_r(l, ctx, tmp);
             free(tmp);
-- 
2.43.0


From 7dcd71d458959eb019287786bb6d9d651d9c8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 40/77] fix: blogc-make: fail if the pages of a pagination
 can't be found out

---
 src/blogc-make/ctx.c   |  1 +
 src/blogc-make/ctx.h   |  1 +
 src/blogc-make/exec.c  | 12 ++++++++++--
 src/blogc-make/rules.c |  6 +++++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index c3917e9..e146d18 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -235,6 +235,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
         rv = base;
     }
     rv->settings = settings;
+    rv->outputlist_failed = false;
 
     rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
     rv->root_dir = bc_strdup(dirname(abs_filename));
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 774601f..7482fde 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -44,6 +44,7 @@ typedef struct {
     bool dev;
     bool verbose;
     bool atom_template_tmp;
+    bool outputlist_failed;
 
     bm_settings_t *settings;
 
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 9d00946..d8894f1 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -448,12 +448,20 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
         free(cmd);
         free(out);
         free(err);
+        ctx->outputlist_failed = true;
         return NULL;
     }
 
     if (rv != 0) {
-        if (rv != EX_CONFIG)
-            fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+        // EX_CONFIG just means that the variable is not defined
+        if (rv != EX_CONFIG) {
+            if (err != NULL)
+                fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+            else
+                fprintf(stderr, "blogc-make: error: Failed to execute command, "
+                    "returned status code: %d\n", rv);
+            ctx->outputlist_failed = true;
+        }
         bc_string_free(input, true);
         free(cmd);
         free(out);
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 619087b..61d0263 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -735,6 +735,8 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
                 break;
         }
     }
+    if (rv == 0 && ctx->outputlist_failed)
+        rv = 1;
     bc_slist_free_full(files, (bc_free_func_t) bm_filectx_free);
 
     if (!bm_exec_native_is_empty_dir(ctx->output_dir, NULL)) {
@@ -979,11 +981,13 @@ bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
         return 1;
 
     bc_slist_t *outputs = NULL;
+    ctx->outputlist_failed = false;
     if (rule->outputlist_func != NULL) {
         outputs = rule->outputlist_func(ctx);
     }
 
-    int rv = rule->exec_func(ctx, outputs, args);
+    // there is nothing to trust in a list that we failed to find out
+    int rv = ctx->outputlist_failed ? 1 : rule->exec_func(ctx, outputs, args);
 
     bc_slist_free_full(outputs, (bc_free_func_t) bm_filectx_free);
 
-- 
2.43.0


From 6cd1f521f9b2d45c127c5fa18b5addf94dfb9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 41/77] fix: blogc-make: do not stop cleaning at a file that is
 built by more than one rule

---
 src/blogc-make/exec-native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index e96b3b1..84a00b1 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -150,6 +150,9 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
     fflush(stdout);
 
     if (0 != unlink(dest->path)) {
+        // more than one rule may build the same file, it is already gone then
+        if (errno == ENOENT)
+            return 0;
         fprintf(stderr, "blogc-make: error: failed to remove file (%s): %s\n",
             dest->path, strerror(errno));
         return 1;
-- 
2.43.0


From 4a365addbe2dca58c1fa3d01ad45307f9a54c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 42/77] fix: blogc-make: do not leave partial outputs, that
 would look up to date

---
 src/blogc-make/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index d8894f1..72453e8 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -362,6 +362,10 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
 
     int rv = bm_exec_command(cmd, input->str, &out, &err, &error);
 
+    // a partial output would look up to date for the next build
+    if ((error != NULL || rv != 0) && bm_filectx_changed(output, NULL, NULL))
+        unlink(output->path);
+
     if (error != NULL) {
         bc_error_print(error, "blogc-make");
         free(cmd);
-- 
2.43.0


From b6807240613229afdc3f0dd9ef36de5f013de79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 43/77] fix: blogc-make: do not race with the signal handler
 and with the thread of the web server

---
 src/blogc-make/exec.c     | 25 +++++++++++++++++--------
 src/blogc-make/exec.h     |  5 +++--
 src/blogc-make/httpd.c    | 16 ++++++++++------
 src/blogc-make/reloader.c | 25 +++++++++----------------
 4 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 72453e8..85038dd 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -486,12 +486,12 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
 }
 
 
-int
-bm_exec_blogc_runserver(bm_ctx_t *ctx, const char *host, const char *port,
-    const char *threads)
+char*
+bm_exec_build_blogc_runserver_cmd(bm_ctx_t *ctx, const char *host,
+    const char *port, const char *threads)
 {
     if (ctx == NULL)
-        return 1;
+        return NULL;
 
     bc_string_t *cmd = bc_string_new();
 
@@ -519,16 +519,25 @@ bm_exec_blogc_runserver(bm_ctx_t *ctx, const char *host, const char *port,
     bc_string_append_printf(cmd, " %s", tmp);
     free(tmp);
 
-    if (ctx->verbose)
-        printf("%s\n\n", cmd->str);
+    return bc_string_free(cmd, false);
+}
+
+
+int
+bm_exec_blogc_runserver(const char *cmd, bool verbose)
+{
+    if (cmd == NULL)
+        return 1;
+
+    if (verbose)
+        printf("%s\n\n", cmd);
     else
         printf("\n");
     fflush(stdout);
 
     // we don't need pipes to run blogc-runserver, because it is "interactive"
-    int status = system(cmd->str);
+    int status = system(cmd);
     int rv = bc_compat_status_code(status);
-    bc_string_free(cmd, true);
 
     if (rv != 0 && rv != 130) {
         if (rv == 127) {
diff --git a/src/blogc-make/exec.h b/src/blogc-make/exec.h
index aa0784a..0ede76d 100644
--- a/src/blogc-make/exec.h
+++ b/src/blogc-make/exec.h
@@ -23,5 +23,6 @@ int bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables,
 char* bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     bc_trie_t *local_variables, const char *variable, bool listing,
     bc_slist_t *sources, bool only_first_source);
-int bm_exec_blogc_runserver(bm_ctx_t *ctx, const char *host, const char *port,
-    const char *threads);
+char* bm_exec_build_blogc_runserver_cmd(bm_ctx_t *ctx, const char *host,
+    const char *port, const char *threads);
+int bm_exec_blogc_runserver(const char *cmd, bool verbose);
diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 1491095..05469ac 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -17,8 +17,8 @@
 
 
 typedef struct {
-    bm_ctx_t *ctx;
-    bc_trie_t *args;
+    char *cmd;
+    bool verbose;
 } bm_httpd_t;
 
 static pthread_mutex_t mutex_httpd_starting = PTHREAD_MUTEX_INITIALIZER;
@@ -34,13 +34,13 @@ httpd_thread(void *arg)
     httpd_starting = true;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
-    int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
-        bc_trie_lookup(httpd->args, "port"), bc_trie_lookup(httpd->args, "threads"));
+    int rv = bm_exec_blogc_runserver(httpd->cmd, httpd->verbose);
 
     pthread_mutex_lock(&mutex_httpd_starting);
     httpd_starting = false;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
+    free(httpd->cmd);
     free(httpd);
 
     // stop the reloader
@@ -81,13 +81,17 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     }
 
     bm_httpd_t *rv = bc_malloc(sizeof(bm_httpd_t));
-    rv->ctx = *ctx;
-    rv->args = args;
+    // the reloader may change the context at any time, and free it when exiting,
+    // then the thread can't use it.
+    rv->cmd = bm_exec_build_blogc_runserver_cmd(*ctx, bc_trie_lookup(args, "host"),
+        bc_trie_lookup(args, "port"), bc_trie_lookup(args, "threads"));
+    rv->verbose = (*ctx)->verbose;
 
     pthread_t thread;
     if (0 != (err = pthread_create(&thread, &attr, httpd_thread, rv))) {
         fprintf(stderr, "blogc-make: error: failed to create httpd "
             "thread: %s\n", strerror(err));
+        free(rv->cmd);
         free(rv);
         return 1;
     }
diff --git a/src/blogc-make/reloader.c b/src/blogc-make/reloader.c
index e025998..9707217 100644
--- a/src/blogc-make/reloader.c
+++ b/src/blogc-make/reloader.c
@@ -1,13 +1,13 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <stdatomic.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
 #include <string.h>
 #include <unistd.h>
-#include <pthread.h>
 #include <errno.h>
 #include "../common/utils.h"
 #include "ctx.h"
@@ -17,10 +17,11 @@
 // we are not going to unit-test these functions, then printing errors
 // directly is not a big issue
 
-static pthread_mutex_t mutex_running = PTHREAD_MUTEX_INITIALIZER;
-static bool running = false;
-static int reloader_status_code = 0;
-static void (*handler_func)(int) = NULL;
+// these are used by a signal handler and by the httpd thread, that may stop the
+// reloader even before it starts running.
+static atomic_bool running = true;
+static atomic_int reloader_status_code = 0;
+static void (*_Atomic handler_func)(int) = NULL;
 
 static void
 sig_handler(int signum)
@@ -41,9 +42,7 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
     }
     if (current_action.sa_handler != sig_handler) {  // not installed yet
         // backup current handler
-        pthread_mutex_lock(&mutex_running);
         handler_func = current_action.sa_handler;
-        pthread_mutex_unlock(&mutex_running);
 
         // set new handler
         struct sigaction new_action;
@@ -57,10 +56,6 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         }
     }
 
-    pthread_mutex_lock(&mutex_running);
-    running = true;
-    pthread_mutex_unlock(&mutex_running);
-
     while (running) {
         if (!bm_ctx_reload(ctx)) {
             fprintf(stderr, "blogc-make: warning: failed to reload context. "
@@ -77,6 +72,8 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         sleep(1);
     }
 
+    running = true;
+
     return reloader_status_code;
 }
 
@@ -84,10 +81,8 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
 void
 bm_reloader_stop(int status_code)
 {
-    pthread_mutex_lock(&mutex_running);
-
-    running = false;
     reloader_status_code = status_code;
+    running = false;
 
     // reraise if SIGINT
     if (status_code == SIGINT + 128) {
@@ -106,6 +101,4 @@ bm_reloader_stop(int status_code)
         // `handler_func` prevents it, our custom handler will be reinstalled
         // by `bm_reloader_run`.
     }
-
-    pthread_mutex_unlock(&mutex_running);
 }
-- 
2.43.0


From 12ac1cd8278f0d2b30861bc9e29bb6b4c6ec3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 44/77] fix: blogc-make: do not let the web server inherit the
 pipes of a running build

---
 src/blogc-make/exec.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 85038dd..df6fba2 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -1,6 +1,10 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#ifdef __linux__
+#define _GNU_SOURCE  // pipe2
+#endif /* __linux__ */
+
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif /* HAVE_CONFIG_H */
@@ -76,6 +80,24 @@ bm_exec_find_binary(const char *argv0, const char *bin, const char *env)
 }
 
 
+// the web server may be started by its thread at any time, and it must not
+// inherit our pipes, because it would keep them open.
+static int
+pipe_cloexec(int fds[2])
+{
+#ifdef __linux__
+    return pipe2(fds, O_CLOEXEC);
+#else
+    int rv = pipe(fds);
+    if (rv == 0) {
+        fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+        fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+    }
+    return rv;
+#endif
+}
+
+
 int
 bm_exec_command(const char *cmd, const char *input, char **output,
     char **error, bc_error_t **err)
@@ -84,14 +106,14 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         return 1;
 
     int fd_in[2];
-    if (-1 == pipe(fd_in)) {
+    if (-1 == pipe_cloexec(fd_in)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdin pipe: %s", strerror(errno));
         return 1;
     }
 
     int fd_out[2];
-    if (-1 == pipe(fd_out)) {
+    if (-1 == pipe_cloexec(fd_out)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdout pipe: %s", strerror(errno));
         close(fd_in[0]);
@@ -100,7 +122,7 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     }
 
     int fd_err[2];
-    if (-1 == pipe(fd_err)) {
+    if (-1 == pipe_cloexec(fd_err)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stderr pipe: %s", strerror(errno));
         close(fd_in[0]);
@@ -137,6 +159,8 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         dup2(fd_in[0], STDIN_FILENO);
         dup2(fd_out[1], STDOUT_FILENO);
         dup2(fd_err[1], STDERR_FILENO);
+        for (int i = STDIN_FILENO; i <= STDERR_FILENO; i++)
+            fcntl(i, F_SETFD, 0);
 
         char *const argv[] = {
             "/bin/sh",
-- 
2.43.0


From 7cb16bbbff931abe2e9a3e3ae3762ff54d098535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 45/77] fix: blogc-git-receiver: do not follow symlinks, nor
 exit, when removing directories

---
 src/blogc-git-receiver/pre-receive.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..956ccba 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -30,56 +30,55 @@ cpu_count(void)
 }
 
 
+// this must never follow symlinks, nor give up: what can't be removed is reported,
+// but it does not change the result of a deploy.
 static void
 rmdir_recursive(const char *dir)
 {
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
         fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        exit(2);
+        return;
+    }
+    if ((buf.st_mode & S_IRWXU) != S_IRWXU) {
+        chmod(dir, buf.st_mode | S_IRWXU);
     }
     DIR *d = opendir(dir);
     if (d == NULL) {
         fprintf(stderr, "error: failed to open directory: %s\n",
             strerror(errno));
-        exit(2);
+        return;
     }
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
+        if (0 != lstat(f, &buf)) {
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
-            free(f);
-            exit(2);
         }
-        if (S_ISDIR(buf.st_mode)) {
+        else if (S_ISDIR(buf.st_mode)) {
             rmdir_recursive(f);
         }
         else if (0 != unlink(f)) {
             fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
                 strerror(errno));
-            free(f);
-            exit(2);
         }
         free(f);
     }
     if (0 != closedir(d)) {
         fprintf(stderr, "error: failed to close directory: %s\n",
             strerror(errno));
-        exit(2);
     }
     if (0 != rmdir(dir)) {
         fprintf(stderr, "error: failed to remove directory: %s\n",
             strerror(errno));
-        exit(2);
     }
 }
 
-- 
2.43.0


From 92982ddc40439a08e6ce005380884e5a1587b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 46/77] fix: blogc-git-receiver: replace the symlink
 atomically, even if it is dangling

---
 src/blogc-git-receiver/pre-receive.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 956ccba..9013693 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -280,21 +280,36 @@ default_sym:
     free(build_cmd);
 
     char *htdocs_sym = realpath(sym, NULL);
-    if ((htdocs_sym != NULL) && (0 != unlink(sym))) {
-        fprintf(stderr, "error: failed to remove symlink (%s): %s\n", sym,
-            strerror(errno));
+    struct stat buf;
+    if ((0 == lstat(sym, &buf)) && !S_ISLNK(buf.st_mode)) {
+        fprintf(stderr, "error: failed to replace symlink (%s): not a symlink\n",
+            sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
 
-    if (0 != symlink(output_dir, sym)) {
-        fprintf(stderr, "error: failed to create symlink (%s): %s\n", sym,
+    // the symlink is replaced by renaming another one over it, so it always
+    // points to a complete build, whatever fails.
+    char *new_sym = bc_strdup_printf("%s.%ld", sym, (long) getpid());
+    if (0 != symlink(output_dir, new_sym)) {
+        fprintf(stderr, "error: failed to create symlink (%s): %s\n", new_sym,
+            strerror(errno));
+        free(new_sym);
+        rmdir_recursive(output_dir);
+        rv = 1;
+        goto cleanup2;
+    }
+    if (0 != rename(new_sym, sym)) {
+        fprintf(stderr, "error: failed to replace symlink (%s): %s\n", sym,
             strerror(errno));
+        unlink(new_sym);
+        free(new_sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
+    free(new_sym);
 
     if (htdocs_sym != NULL)
         rmdir_recursive(htdocs_sym);
-- 
2.43.0


From 5cea22f242424a891fe3cc215e9b0e9dd71097d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 47/77] fix: blogc-git-receiver: refuse a push if git-archive
 fails while extracting it

---
 src/blogc-git-receiver/pre-receive.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 9013693..b0ce726 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -192,8 +192,11 @@ default_sym:
     }
     tmpdir = dir;
 
+    // the shell only knows about the status of tar(1), that may not notice that
+    // git-archive(1) died.
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "rc=$( { { git archive \"%s\" 3>&-; echo $? >&3; } | "
+        "tar -x -C \"%s\" -f - >&2 3>&-; } 3>&1 ) && test \"$rc\" = 0", ref, tmpdir);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
             "directory: %s\n", tmpdir);
-- 
2.43.0


From 6d6b8cc67ab482f67d6bbc7bf4bec998640cd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 48/77] fix: blogc-git-receiver: never build over an existing
 build

---
 src/blogc-git-receiver/pre-receive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b0ce726..f74178b 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -224,7 +224,7 @@ default_sym:
     output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
     free(buildsd);
 
-    if (0 == access(output_dir, F_OK)) {
+    while (0 == access(output_dir, F_OK)) {
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From d55d94f30f2257a0bb3a87894a930f03946b742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 49/77] fix: blogc-git-receiver: do not deploy a build that
 created nothing

---
 src/blogc-git-receiver/pre-receive.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index f74178b..28eada4 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -282,8 +282,15 @@ default_sym:
     }
     free(build_cmd);
 
-    char *htdocs_sym = realpath(sym, NULL);
     struct stat buf;
+    if (0 != stat(output_dir, &buf) || !S_ISDIR(buf.st_mode)) {
+        fprintf(stderr, "error: website build did not create its output "
+            "directory: %s\n", output_dir);
+        rv = 1;
+        goto cleanup;
+    }
+
+    char *htdocs_sym = realpath(sym, NULL);
     if ((0 == lstat(sym, &buf)) && !S_ISLNK(buf.st_mode)) {
         fprintf(stderr, "error: failed to replace symlink (%s): not a symlink\n",
             sym);
-- 
2.43.0


From 0158672a8b5480244f18f3d44b02eeb3699ef419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 50/77] fix: blogc-git-receiver: do not remove directories that
 are not builds

---
 src/blogc-git-receiver/pre-receive.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 28eada4..17679c7 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -83,6 +84,23 @@ rmdir_recursive(const char *dir)
 }
 
 
+// builds are named as '<commit hash>-<epoch>', maybe followed by dashes
+static bool
+is_build(const char *dir)
+{
+    const char *sep = strrchr(dir, '/');
+    const char *name = sep != NULL ? sep + 1 : dir;
+    size_t hash = strspn(name, "0123456789abcdef");
+    if (hash < 40 || name[hash] != '-')
+        return false;
+    size_t epoch = strspn(name + hash + 1, "0123456789");
+    if (epoch == 0)
+        return false;
+    name += hash + 1 + epoch;
+    return name[strspn(name, "-")] == '\0';
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -321,7 +339,8 @@ default_sym:
     }
     free(new_sym);
 
-    if (htdocs_sym != NULL)
+    // the symlink may have been pointing to something that we didn't build
+    if (htdocs_sym != NULL && is_build(htdocs_sym))
         rmdir_recursive(htdocs_sym);
 
 cleanup2:
-- 
2.43.0


From 19bdd775e785d46205196f6a831ea21b92752584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 51/77] fix: blogc-git-receiver: quote the builds directory for
 the shell

---
 src/blogc-git-receiver/pre-receive.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 17679c7..e78db20 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -251,15 +251,17 @@ default_sym:
     // detect if we will run blogc-make, make or nothing, and generate the
     // command.
     char *build_cmd = NULL;
+    char *quoted_dir = bc_shell_quote(output_dir);
     if (0 == access("blogcfile", F_OK)) {
         int status_bmake = system("blogc-make -v 2> /dev/null > /dev/null");
         if (127 == bc_compat_status_code(status_bmake)) {
             fprintf(stderr, "error: failed to find blogc-make binary\n");
+            free(quoted_dir);
             rv = 1;
             goto cleanup;
         }
-        build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
-            output_dir);
+        build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
+            quoted_dir);
     }
     else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
         const char *make_impl = NULL;
@@ -277,17 +279,20 @@ default_sym:
 
         if (make_impl == NULL) {
             fprintf(stderr, "error: no 'make' implementation found\n");
+            free(quoted_dir);
             rv = 1;
             goto cleanup;
         }
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), output_dir);
+            "%s -j%zu OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            cpu_count(), quoted_dir);
     }
     else {
         fprintf(stderr, "warning: no blogcfile or Makefile found. skipping ...\n");
+        free(quoted_dir);
         goto cleanup;
     }
+    free(quoted_dir);
 
     fprintf(stdout, "running command: %s\n\n", build_cmd);
     fflush(stdout);
-- 
2.43.0


From e3315c4ede088c1622b185a87517a595e42092d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 52/77] fix: blogc-git-receiver: quote the address of the
 mirror for the shell

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..593c3d0 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror -- %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From 4652135bb7b415a807a8dc40bbb90e37a1f0ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 53/77] fix: blogc-git-receiver: refuse repositories outside of
 the repos directory, and unterminated quotes

---
 src/blogc-git-receiver/shell-command-parser.c | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..cb161bf 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -16,6 +16,25 @@ typedef enum {
 } command_state_t;
 
 
+static bool
+valid_repo(const char *repo)
+{
+    bool rv = false;
+    char **pieces = bc_str_split(repo, '/', 0);
+    for (size_t i = 0; pieces[i] != NULL; i++) {
+        if (0 == strcmp(pieces[i], "..")) {
+            rv = false;
+            break;
+        }
+        // something must name the repository
+        if (pieces[i][0] != '\0' && 0 != strcmp(pieces[i], "."))
+            rv = true;
+    }
+    bc_strv_free(pieces);
+    return rv;
+}
+
+
 char*
 bgr_shell_command_parse(const char *command)
 {
@@ -87,7 +106,8 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    // anything but START_REPO here means an unterminated quote or escape
+    if (state == START_REPO && rv->len > 0 && valid_repo(rv->str))
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 01a006a47b27f1b4bb8d27aa84c40aac4b05d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 54/77] fix: blogc-runserver: do not crash if an option misses
 its value

---
 src/blogc-runserver/main.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 8abd83a..364ddc5 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -80,20 +80,22 @@ main(int argc, char **argv)
                 case 't':
                     if (argv[i][2] != '\0')
                         host = bc_strdup(argv[i] + 2);
-                    else
+                    else if (i + 1 < argc)
                         host = bc_strdup(argv[++i]);
                     break;
                 case 'p':
                     if (argv[i][2] != '\0')
                         port = bc_strdup(argv[i] + 2);
-                    else
+                    else if (i + 1 < argc)
                         port = bc_strdup(argv[++i]);
                     break;
                 case 'm':
                     if (argv[i][2] != '\0')
                         ptr = argv[i] + 2;
-                    else
+                    else if (i + 1 < argc)
                         ptr = argv[++i];
+                    else
+                        ptr = "";
                     max_threads = strtoul(ptr, &endptr, 10);
                     if (*ptr != '\0' && *endptr != '\0')
                         fprintf(stderr, "blogc-runserver: warning: invalid value "
-- 
2.43.0


From c45c2b6f0fbc5cf3de601b00ab7d45a4be9e8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 55/77] fix: blogc-runserver: do not serve files of sibling
 directories, nor indexes that are links to outside of the document root

---
 src/blogc-runserver/httpd.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..48dac22 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -53,6 +53,18 @@ error(int socket, int status_code, const char *error)
 }
 
 
+// both paths must be already resolved by realpath
+static bool
+is_inside(const char *root, const char *path)
+{
+    size_t root_len = strlen(root);
+    if (0 != strncmp(root, path, root_len))
+        return false;
+    return path[root_len] == '\0' || path[root_len] == '/' ||
+        (root_len > 0 && root[root_len - 1] == '/');
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -115,7 +127,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
@@ -143,8 +155,18 @@ handle_request(void *arg)
         if (path_len > 0 && path[path_len - 1] != '/')
             add_slash = true;
 
+        // the index may be a symlink
+        char *real_found = realpath(found, NULL);
+        free(found);
+        if (real_found == NULL || !is_inside(real_root, real_found)) {
+            free(real_found);
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
+
         free(real_path);
-        real_path = found;
+        real_path = real_found;
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From 9395b89b7b77de2bc3a19ff8d70ddbcc3519723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 56/77] fix: blogc-runserver: answer properly for paths below
 files, long paths and special files

---
 src/blogc-runserver/httpd.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 48dac22..4e98f82 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -109,7 +109,7 @@ handle_request(void *arg)
     free(abs_path);
 
     if (real_path == NULL) {
-        if (errno == ENOENT) {
+        if (errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG) {
             status_code = 404;
             error(client_socket, 404, "Not Found");
         }
@@ -169,12 +169,19 @@ handle_request(void *arg)
         real_path = real_found;
     }
 
-    if (0 != access(real_path, F_OK)) {
+    if (0 != stat(real_path, &st)) {
         status_code = 500;
         error(client_socket, 500, "Internal Server Error");
         goto point4;
     }
 
+    // reading something else could fail, or block this thread forever
+    if (!S_ISREG(st.st_mode)) {
+        status_code = 403;
+        error(client_socket, 403, "Forbidden");
+        goto point4;
+    }
+
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
-- 
2.43.0


From bc897d0558ff91a0d7915945a58b5a944679f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 57/77] fix: blogc-runserver: redirect to the encoded path

---
 src/blogc-runserver/httpd.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 4e98f82..112fcbd 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -185,12 +185,17 @@ handle_request(void *arg)
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
+        // the path must be still encoded, and must not look like an address
+        // without protocol.
+        const char *location = pieces[1];
+        while (*location == '/')
+            location++;
         char *tmp = bc_strdup_printf(
             "HTTP/1.0 302 Found\r\n"
-            "Location: %s/\r\n"
+            "Location: /%.*s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", (int) strcspn(location, "?"), location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
         if (tmp_len != write(client_socket, tmp, tmp_len)) {
-- 
2.43.0


From 314bbebed2cf16a3e26df99167df6934a3403c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 58/77] fix: blogc-runserver: refuse empty paths, and paths
 with encoded NUL bytes

---
 src/blogc-runserver/httpd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 112fcbd..a61c2a8 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -94,8 +94,11 @@ handle_request(void *arg)
         goto point1;
     }
 
+    // an encoded NUL byte would hide the end of the path
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    char *path = br_urldecode(pieces2[0]);
+    char *path = NULL;
+    if (pieces2[0] != NULL && NULL == strstr(pieces2[0], "%00"))
+        path = br_urldecode(pieces2[0]);
     bc_strv_free(pieces2);
 
     if (path == NULL) {
-- 
2.43.0


From 7df4f48610535ed11d124eb30a92c5d505d738e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 59/77] fix: blogc-runserver: do not decode plus signs of paths
 as spaces

---
 src/blogc-runserver/httpd-utils.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..0d5c77a 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -69,9 +69,6 @@ br_urldecode(const char *str)
                 }
                 bc_string_append_c(rv, '%');
                 break;
-            case '+':
-                bc_string_append_c(rv, ' ');
-                break;
             default:
                 bc_string_append_c(rv, str[i]);
         }
-- 
2.43.0


From 7345416b7989cfdbddf79ac6a10f1dc61f70ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 60/77] fix: blogc-runserver: survive temporary failures to
 accept a connection or create a thread

---
 src/blogc-runserver/httpd.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a61c2a8..e63dce2 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -401,8 +401,16 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
         int client_socket = accept(server_socket, client_addr, &addrlen);
         if (client_socket == -1) {
             fprintf(stderr, "Failed to accept connection: %s\n", strerror(errno));
-            rv = 1;
-            goto cleanup;
+            if (errno == EBADF || errno == EFAULT || errno == EINVAL ||
+                errno == ENOTSOCK || errno == EOPNOTSUPP)
+            {
+                rv = 1;
+                goto cleanup;
+            }
+            // it isn't our fault, the next clients still should be served
+            if (errno != EINTR && errno != ECONNABORTED)
+                usleep(100000);
+            continue;
         }
 
         request_data_t *arg = malloc(sizeof(request_data_t));
@@ -419,14 +427,18 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
                 rv = 1;
                 goto cleanup;
             }
+            threads[current_thread].initialized = false;
         }
 
         if (pthread_create(&(threads[current_thread].thread), NULL,
             handle_request, arg) != 0)
         {
             fprintf(stderr, "Failed to create thread\n");
-            rv = 1;
-            goto cleanup;
+            error(client_socket, 503, "Service Unavailable");
+            close(client_socket);
+            free(arg->ip);
+            free(arg);
+            continue;
         }
 
         threads[current_thread++].initialized = true;
-- 
2.43.0


From 379848427280a0983d88de83e6d1b4debef68c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 61/77] fix: blogc-runserver: do not leak empty requests

---
 src/blogc-runserver/httpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index e63dce2..16f9703 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -244,9 +244,9 @@ point2:
 point1:
     fprintf(stderr, "[Thread-%zu] %s - - \"%s\" %d\n", thread_id + 1,
         ip, conn_line, status_code);
-    free(conn_line);
     bc_strv_free(pieces);
 point0:
+    free(conn_line);
     free(ip);
     close(client_socket);
     return NULL;
-- 
2.43.0


From 7b2c3395bc23819497b3deae34623abaeccb402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 62/77] fix: blogc-runserver: read requests that arrive in
 pieces, and do not wait forever for clients

---
 src/blogc-runserver/httpd-utils.c | 27 ++++++++++-------
 src/blogc-runserver/httpd-utils.h |  2 ++
 src/blogc-runserver/httpd.c       | 49 +++++++++++++++++++++++++++----
 3 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index 0d5c77a..52f44f2 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -1,8 +1,10 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <poll.h>
 #include <stdbool.h>
 #include <string.h>
+#include <time.h>
 #include <unistd.h>
 #include "../common/utils.h"
 #include "httpd-utils.h"
@@ -15,20 +17,25 @@ br_readline(int socket)
     char buffer[READLINE_BUFFER_SIZE];
     ssize_t len;
     bool end = false;
+    time_t start = time(NULL);
 
+    // the line may arrive in pieces of any size
     while ((len = read(socket, buffer, READLINE_BUFFER_SIZE)) > 0) {
-        if (!end) {
-            for (ssize_t i = 0; i < len; i++) {
-                if (buffer[i] == '\r' || buffer[i] == '\n' || buffer[i] == '\0') {
-                    // we finished "recording", but still need to exhaust
-                    // request data.
-                    end = true;
-                    break;
-                }
-                bc_string_append_c(rv, buffer[i]);
+        for (ssize_t i = 0; i < len; i++) {
+            if (buffer[i] == '\r' || buffer[i] == '\n' || buffer[i] == '\0') {
+                end = true;
+                break;
             }
+            bc_string_append_c(rv, buffer[i]);
         }
-        if (len < READLINE_BUFFER_SIZE) {
+        if (end || rv->len > READLINE_MAX_SIZE) {
+            break;
+        }
+
+        struct pollfd fd = {.fd = socket, .events = POLLIN};
+        if (time(NULL) - start > READLINE_TIMEOUT ||
+            poll(&fd, 1, READLINE_TIMEOUT * 1000) <= 0 || !(fd.revents & POLLIN))
+        {
             break;
         }
     }
diff --git a/src/blogc-runserver/httpd-utils.h b/src/blogc-runserver/httpd-utils.h
index db638ad..115a4a9 100644
--- a/src/blogc-runserver/httpd-utils.h
+++ b/src/blogc-runserver/httpd-utils.h
@@ -4,6 +4,8 @@
 #pragma once
 
 #define READLINE_BUFFER_SIZE 2048
+#define READLINE_MAX_SIZE 65536
+#define READLINE_TIMEOUT 5
 
 char* br_readline(int socket);
 int br_hextoi(const char c);
diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 16f9703..f86eb61 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -6,7 +6,10 @@
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
+#include <poll.h>
+#include <time.h>
 #include <sys/stat.h>
+#include <sys/time.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/socket.h>
@@ -35,6 +38,37 @@ typedef struct {
 } request_data_t;
 
 
+// closing a socket with data that we didn't read would reset the connection, and
+// the client could lose our response.
+static void
+close_socket(int socket)
+{
+    char buffer[READLINE_BUFFER_SIZE];
+    time_t start = time(NULL);
+    struct pollfd fd = {.fd = socket, .events = POLLIN};
+    if (0 == shutdown(socket, SHUT_WR)) {
+        while (time(NULL) - start <= 1 && poll(&fd, 1, 1000) > 0 &&
+            read(socket, buffer, sizeof(buffer)) > 0);
+    }
+    close(socket);
+}
+
+
+// our timeout must only count while the client receives nothing.
+static bool
+write_all(int socket, const char *str, size_t len)
+{
+    while (len > 0) {
+        ssize_t n = write(socket, str, len < 65536 ? len : 65536);
+        if (n <= 0)
+            return false;
+        str += n;
+        len -= n;
+    }
+    return true;
+}
+
+
 static void
 error(int socket, int status_code, const char *error)
 {
@@ -46,7 +80,7 @@ error(int socket, int status_code, const char *error)
         "\r\n"
         "<h1>%s</h1>\n", status_code, error, strlen(error) + 10, error);
     size_t str_len = strlen(str);
-    if (str_len != write(socket, str, str_len)) {
+    if (!write_all(socket, str, str_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(str);
@@ -201,7 +235,7 @@ handle_request(void *arg)
             "\r\n", (int) strcspn(location, "?"), location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
-        if (tmp_len != write(client_socket, tmp, tmp_len)) {
+        if (!write_all(client_socket, tmp, tmp_len)) {
             fprintf(stderr, "warning: Failed to write full response header!\n");
         }
         free(tmp);
@@ -225,12 +259,12 @@ handle_request(void *arg)
         "Connection: close\r\n"
         "\r\n", br_mime_guess_content_type(real_path), len);
     size_t out_len = strlen(out);
-    if (out_len != write(client_socket, out, out_len)) {
+    if (!write_all(client_socket, out, out_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(out);
 
-    if (len != write(client_socket, contents, len)) {
+    if (!write_all(client_socket, contents, len)) {
         fprintf(stderr, "warning: Failed to write full response body!\n");
     }
     free(contents);
@@ -248,7 +282,7 @@ point1:
 point0:
     free(conn_line);
     free(ip);
-    close(client_socket);
+    close_socket(client_socket);
     return NULL;
 }
 
@@ -413,6 +447,11 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
             continue;
         }
 
+        // a client that does nothing must not hold a thread forever
+        struct timeval timeout = {.tv_sec = READLINE_TIMEOUT, .tv_usec = 0};
+        setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
+        setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &timeout, sizeof(timeout));
+
         request_data_t *arg = malloc(sizeof(request_data_t));
         arg->thread_id = current_thread;
         arg->socket = client_socket;
-- 
2.43.0


From 668b168fbff4a104024cc5729c26384a7971de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 63/77] fix: content-parser: handle escapes at the start of the
 text of a link

---
 src/blogc/content-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 8e01d02..60b0d06 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -390,7 +390,7 @@ parse:
                 start_link = current;
                 count = 1;
                 state = CONTENT_INLINE_LINK_CONTENT;
-                break;
+                continue;
 
             case CONTENT_INLINE_LINK_AUTO:
                 tmp = src + current;
-- 
2.43.0


From bce936ef25c2dd63ac8e76808dfce6a9b6197e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 64/77] fix: utils: do not read after the end of a string that
 ends with a backslash

---
 src/common/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..dfed4bf 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -315,7 +315,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
-            i++;
+            if (str[i + 1] != '\0')
+                i++;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From 3f40c83116b8205c4881825927665bbc2416006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 65/77] fix: blogc-make: do not use the status of a file after
 its scope

---
 src/blogc-make/ctx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index e146d18..e1478cd 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -37,9 +37,9 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
     rv->short_path = bc_strdup(filename);
     rv->slug = bc_strdup(slug);
 
-    if (st == NULL) {
-        struct stat buf;
+    struct stat buf;
 
+    if (st == NULL) {
         if (0 != stat(f, &buf)) {
             rv->tv_sec = 0;
             rv->tv_nsec = 0;
-- 
2.43.0


From 26b5501a7a08d7378190c406b8d0323c80d26397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 66/77] fix: config-parser: refuse a line break right after the
 start of a section name

---
 src/common/config-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 122e2aa..4a04f8d 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -147,6 +147,8 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_START:
                 start = current;
                 state = CONFIG_SECTION;
+                if (c == '\r' || c == '\n')
+                    continue;
                 break;
 
             case CONFIG_SECTION:
-- 
2.43.0


From 34d409e6e48d0ec0c8ab8022c9f63cc63e91392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 67/77] fix: git-receiver: do not share a build between
 simultaneous pushes of the same commit

---
 src/blogc-git-receiver/pre-receive.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index e78db20..de5e92f 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -84,7 +84,8 @@ rmdir_recursive(const char *dir)
 }
 
 
-// builds are named as '<commit hash>-<epoch>', maybe followed by dashes
+// builds are named as '<commit hash>-<epoch>-<pid>', maybe followed by dashes. older
+// versions didn't include the pid.
 static bool
 is_build(const char *dir)
 {
@@ -97,7 +98,7 @@ is_build(const char *dir)
     if (epoch == 0)
         return false;
     name += hash + 1 + epoch;
-    return name[strspn(name, "-")] == '\0';
+    return name[strspn(name, "-0123456789")] == '\0';
 }
 
 
@@ -239,7 +240,10 @@ default_sym:
     }
 
     unsigned long epoch = time(NULL);
-    output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
+    // the pid is needed because the output directory is only created by the build: the
+    // same commit may be pushed to several repositories at the same time.
+    output_dir = bc_strdup_printf("%s/%s-%lu-%ld", buildsd, ref, epoch,
+        (long) getpid());
     free(buildsd);
 
     while (0 == access(output_dir, F_OK)) {
-- 
2.43.0


From 125c3e7f13c293d37fe484e5ab0e43c53dbac979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 68/77] fix: git-receiver: remove directory trees of any depth

---
 src/blogc-git-receiver/pre-receive.c | 83 ++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 17 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index de5e92f..4a32b29 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -31,30 +31,20 @@ cpu_count(void)
 }
 
 
-// this must never follow symlinks, nor give up: what can't be removed is reported,
-// but it does not change the result of a deploy.
+// this removes anything that is not a directory from 'dir', and calls 'fn' for the
+// directories. it must never follow symlinks, nor give up: what can't be removed is
+// reported, but it does not change the result of a deploy.
 static void
-rmdir_recursive(const char *dir)
+clean_directory(const char *dir, const char *top, size_t *moved,
+    void (*fn)(const char *dir, const char *top, size_t *moved))
 {
-    if (dir == NULL)
-        return;
-    struct stat buf;
-    if (0 != lstat(dir, &buf)) {
-        return;
-    }
-    if (!S_ISDIR(buf.st_mode)) {
-        fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        return;
-    }
-    if ((buf.st_mode & S_IRWXU) != S_IRWXU) {
-        chmod(dir, buf.st_mode | S_IRWXU);
-    }
     DIR *d = opendir(dir);
     if (d == NULL) {
         fprintf(stderr, "error: failed to open directory: %s\n",
             strerror(errno));
         return;
     }
+    struct stat buf;
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
@@ -65,7 +55,10 @@ rmdir_recursive(const char *dir)
                 e->d_name, strerror(errno));
         }
         else if (S_ISDIR(buf.st_mode)) {
-            rmdir_recursive(f);
+            if ((buf.st_mode & S_IRWXU) != S_IRWXU) {
+                chmod(f, buf.st_mode | S_IRWXU);
+            }
+            fn(f, top, moved);
         }
         else if (0 != unlink(f)) {
             fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
@@ -77,6 +70,62 @@ rmdir_recursive(const char *dir)
         fprintf(stderr, "error: failed to close directory: %s\n",
             strerror(errno));
     }
+}
+
+
+static void
+move_directory(const char *dir, const char *top, size_t *moved)
+{
+    struct stat buf;
+    char *f = NULL;
+    do {
+        free(f);
+        f = bc_strdup_printf("%s/.blogc-%zu", top, (*moved)++);
+    } while (0 == lstat(f, &buf));
+    if (0 != rename(dir, f)) {
+        fprintf(stderr, "error: failed to remove directory (%s): %s\n", dir,
+            strerror(errno));
+        (*moved)--;
+    }
+    free(f);
+}
+
+
+static void
+remove_directory(const char *dir, const char *top, size_t *moved)
+{
+    clean_directory(dir, top, moved, move_directory);
+    if (0 != rmdir(dir)) {
+        fprintf(stderr, "error: failed to remove directory: %s\n",
+            strerror(errno));
+    }
+}
+
+
+// the tree may be deeper than the limits for paths and open files, then the directories
+// are moved to the top before being removed.
+static void
+rmdir_recursive(const char *dir)
+{
+    if (dir == NULL)
+        return;
+    struct stat buf;
+    if (0 != lstat(dir, &buf)) {
+        return;
+    }
+    if (!S_ISDIR(buf.st_mode)) {
+        fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
+        return;
+    }
+    if ((buf.st_mode & S_IRWXU) != S_IRWXU) {
+        chmod(dir, buf.st_mode | S_IRWXU);
+    }
+    size_t previous;
+    size_t moved = 0;
+    do {
+        previous = moved;
+        clean_directory(dir, dir, &moved, remove_directory);
+    } while (previous != moved);
     if (0 != rmdir(dir)) {
         fprintf(stderr, "error: failed to remove directory: %s\n",
             strerror(errno));
-- 
2.43.0


From f53f2597863d1ac9abec2d4ed76c04ad54345603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:46 +0000
Subject: [PATCH 69/77] fix: blogc-make: clean: do not fail when the output
 directory is a symbolic link

---
 src/blogc-make/exec-native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 84a00b1..1a43fa3 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -183,6 +183,9 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
             fflush(stdout);
         }
         if (0 != rmdir(dir)) {
+            // a symbolic link to a directory was not created by us
+            if (errno == ENOTDIR)
+                break;
             fprintf(stderr,
                 "blogc-make: error: failed to remove directory(%s): %s\n",
                 dir, strerror(errno));
-- 
2.43.0


From c17b9ad2cd691b8e82aad3bdca827d0126090275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 70/77] fix: blogc-make: clean: remove an output directory with
 trailing dots in its name

---
 src/blogc-make/ctx.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index e1478cd..1da098f 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -245,11 +245,14 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     rv->short_output_dir = bc_strdup(output_dir != NULL && output_dir[0] != '\0' ?
         output_dir : "_build");
 
-    // trailing slashes would make it look different from the parent directory
-    // of its own files.
-    for (size_t i = strlen(rv->short_output_dir);
-            i > 1 && rv->short_output_dir[i - 1] == '/'; i--)
-    {
+    // trailing slashes and dots would make it look different from the parent
+    // directory of its own files.
+    for (size_t i = strlen(rv->short_output_dir); i > 1; i--) {
+        if (rv->short_output_dir[i - 1] != '/' &&
+            !(rv->short_output_dir[i - 1] == '.' && rv->short_output_dir[i - 2] == '/'))
+        {
+            break;
+        }
         rv->short_output_dir[i - 1] = '\0';
     }
 
-- 
2.43.0


From 6289d8801dd564085dac91cbad7270c8b24f57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 71/77] fix: blogc-make: write the whole temporary atom
 template, or fail

---
 src/blogc-make/atom.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 00e4c4e..a8bf0d3 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,18 +115,33 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    size_t len = strlen(content);
+    size_t written = 0;
+    while (written < len) {
+        ssize_t s = write(fd, content + written, len - written);
+        if (s == -1) {
+            if (errno == EINTR)
+                continue;
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
+                "Failed to write to temporary atom template: %s",
+                strerror(errno));
+            free(content);
+            close(fd);
+            unlink(fname);
+            return NULL;
+        }
+        written += s;
+    }
+
+    free(content);
+
+    if (-1 == close(fd)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
             "Failed to write to temporary atom template: %s", strerror(errno));
-        free(content);
-        close(fd);
         unlink(fname);
         return NULL;
     }
 
-    free(content);
-    close(fd);
-
     return bc_strdup(fname);
 }
 
-- 
2.43.0


From 96bb7a8d942d1c3cee1a25f2850d7e85d18c3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:57 +0000
Subject: [PATCH 72/77] fix: blogc-git-receiver: no builds directory without a
 base directory

without HOME and BLOGC_GIT_RECEIVER_BASE_DIR the builds directory was
'(null)/builds', inside of the temporary directory that is removed after
the build, and the symlink was replaced to point there.
---
 src/blogc-git-receiver/settings.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/settings.c b/src/blogc-git-receiver/settings.c
index 8c28370..6f79b5c 100644
--- a/src/blogc-git-receiver/settings.c
+++ b/src/blogc-git-receiver/settings.c
@@ -32,7 +32,11 @@ bgr_settings_get_builds_dir(void)
     if (rv != NULL) {
         return bc_strdup(rv);
     }
-    return bc_strdup_printf("%s/builds", bgr_settings_get_base_dir());
+    const char *bd = bgr_settings_get_base_dir();
+    if (bd == NULL) {
+        return NULL;
+    }
+    return bc_strdup_printf("%s/builds", bd);
 }
 
 
-- 
2.43.0


From 0a810dab8d3fea52dc0095e0fe86d9da368587b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:59 +0000
Subject: [PATCH 73/77] fix: refuse ports that do not fit in blogc-runserver

---
 src/blogc-runserver/main.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 364ddc5..3cf333d 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -138,6 +138,19 @@ main(int argc, char **argv)
         goto cleanup;
     }
 
+    // getaddrinfo(3) silently cuts numbers that are not valid ports
+    ptr = port != NULL ? port : default_port;
+    long port_number = strtol(ptr, &endptr, 10);
+    if (*ptr == '\0' ||
+        (*endptr == '\0' && (port_number < 0 || port_number > 65535)))
+    {
+        print_usage();
+        fprintf(stderr, "blogc-runserver: error: invalid value for -p. "
+            "Must be integer >= 0 and <= 65535\n");
+        rv = 1;
+        goto cleanup;
+    }
+
     rv = br_httpd_run(
         host != NULL ? host : default_host,
         port != NULL ? port : default_port,
-- 
2.43.0


From b254014bbb2667a646b35b25a51002d7f34185d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:07 +0000
Subject: [PATCH 74/77] fix: blogc: keep resource usage variables set by the
 user

---
 src/blogc/rusage.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/blogc/rusage.c b/src/blogc/rusage.c
index c8f5a68..d88effc 100644
--- a/src/blogc/rusage.c
+++ b/src/blogc/rusage.c
@@ -72,10 +72,13 @@ blogc_rusage_inject(bc_trie_t *global)
     if (usage == NULL)
         return;
 
-    bc_trie_insert(global, "BLOGC_RUSAGE_CPU_TIME",
-        blogc_rusage_format_cpu_time(usage->cpu_time));
-    bc_trie_insert(global, "BLOGC_RUSAGE_MEMORY",
-        blogc_rusage_format_memory(usage->memory));
+    // do not replace values set by the user
+    if (NULL == bc_trie_lookup(global, "BLOGC_RUSAGE_CPU_TIME"))
+        bc_trie_insert(global, "BLOGC_RUSAGE_CPU_TIME",
+            blogc_rusage_format_cpu_time(usage->cpu_time));
+    if (NULL == bc_trie_lookup(global, "BLOGC_RUSAGE_MEMORY"))
+        bc_trie_insert(global, "BLOGC_RUSAGE_MEMORY",
+            blogc_rusage_format_memory(usage->memory));
 
     free(usage);
 }
-- 
2.43.0


From 9f28d8e4a3d7f5abe55ef7068648b19de28e6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 75/77] fix: a code block that starts with a line of white
 space keeps its line endings

With two-character line endings, the first character of the line ending was
taken as part of the prefix of the block, and the line ending in the output
was incomplete.
---
 src/blogc/content-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 60b0d06..e2754e8 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -995,7 +995,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_CODE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                end = c == '\n' || c == '\r' ? real_end : current;
+                prefix = bc_strndup(src + start, end - start);
                 state = CONTENT_CODE_START;
                 break;
 
-- 
2.43.0


From 605dc0da1b15c0c0a368b6ac0f9337e7d0f164ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:53 +0000
Subject: [PATCH 76/77] fix: a single '.' is not an excerpt separator

blogc-source(7) asks for 2 or more; a paragraph of a single '.' vanished and
ended the excerpt.
---
 src/blogc/content-parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index e2754e8..497ce05 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -832,6 +832,11 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     if (c == '.')
                         break;
                     if (c == '\n' || c == '\r') {
+                        // a single '.' is not a separator
+                        if (real_end - start < 2) {
+                            eend = 0;
+                            goto paragraph;
+                        }
                         state = CONTENT_EXCERPT_END;
                         break;
                     }
-- 
2.43.0


From b351c628cdfcf141e50f0c0964b7e10560ef72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:04 +0000
Subject: [PATCH 77/77] fix: look for GNUmakefile, the name GNU make reads

---
 man/blogc-git-receiver.1.ronn        | 2 +-
 src/blogc-git-receiver/pre-receive.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/man/blogc-git-receiver.1.ronn b/man/blogc-git-receiver.1.ronn
index 3aac9f2..613bdb5 100644
--- a/man/blogc-git-receiver.1.ronn
+++ b/man/blogc-git-receiver.1.ronn
@@ -13,7 +13,7 @@ as needed, and installing a hook, that will take care of rebuilding the website
 time someone push something to the `master` branch.
 
 The git repository must provide a blogcfile(5) (if blogc-make(1) is installed), or
-a `Makefile` (or a `GNUMakefile`) that should accept the `OUTPUT_DIR` variable, and
+a `Makefile` (or a `GNUmakefile`) that should accept the `OUTPUT_DIR` variable, and
 install built files into the directory pointed out by this variable.
 
 `blogc-git-receiver` is part of `blogc` project, but isn't tied to blogc(1) or
diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 4a32b29..0fc34e9 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -316,7 +316,7 @@ default_sym:
         build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
             quoted_dir);
     }
-    else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
+    else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUmakefile", F_OK))) {
         const char *make_impl = NULL;
 
         int status_gmake = system("gmake -f /dev/null 2> /dev/null > /dev/null");
-- 
2.43.0

