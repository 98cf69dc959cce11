From 654b524481facc7498cfb76f50b689fed43cf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 01/29] fix: advance through string input when it exceeds the
 parse buffer

---
 lib/src/parser.c       | 5 +++--
 lib/src/quick_parser.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..b60c7ee 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,13 +70,14 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    int len = (input->length < (size_t)n)? (int)input->length : n;
     if (len == 0)
     {
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
+    input->length -= len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..a6f3c93 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,13 +44,14 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    int len = (input->length < (size_t)n)? (int)input->length : n;
     if (len == 0)
     {
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
+    input->length -= len;
     return len;
 }
 
-- 
2.43.0


From 18060354603ef17c9e0eb44a62405a7b9cc49218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 02/29] fix: reset the furthest potential error position
 between segments

---
 lib/src/errors.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..a7668e7 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,8 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position = cypher_input_position_zero;
+    et->last_char = 0;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From 5f01e3c87acbd2cb6bd4e400be3a7cf26dd03e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 03/29] fix: pass the annotated node to the annotation release
 handler

---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From ae3c914e6838c1e04b0d1b4fdeb27c7add8916e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 04/29] fix: register the comment supertype so instanceof and
 typestr resolve it

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..ac53cb4 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -244,6 +244,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From bfd6c2a4446ad45b92e9f06c9163a36e8d6a4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 05/29] fix: check the reallocation result when growing a
 vector

---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 2cd1bf1b5fa1e46b5c41c157287d36efab438af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 06/29] fix: grow render buffers when the text exactly fills
 them

---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index ac53cb4..546599d 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -606,7 +606,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From 5589532012873e031c8a64f48fd613fceb3a9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 07/29] fix: count line starts inside backtick quoted names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..6f047c6 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -857,7 +857,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From b47c0a62ed8900b6c4c5ff459b1ba82b8059e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 08/29] fix: resume at a client command after skipping invalid
 input

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6f047c6..389b3ff 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -34,7 +34,7 @@ _directive =
 __directive =
     ( EOF                              { yy->result = NULL; }
     | SEMICOLON                        { yy->result = NULL; }
-    | d:client-command                 { yy->result = d; }
+    | - d:client-command               { yy->result = d; }
     | d:cypher-statement               { yy->result = d; }
     )
 
-- 
2.43.0


From 728f2559af6f57af53c522ec37a3b302fac11886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 09/29] fix: spell the relationship keyword correctly in error
 messages

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 389b3ff..a42eb0d 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -998,7 +998,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From eda34d8f5cbb99012a6b10dd5ef21ead917d3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 10/29] fix: accept comments within dotted function and
 procedure names

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index a42eb0d..d4f2eb7 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From adc55d845ae66c80ef9f1fdbdbc7f58c922b1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 11/29] fix: define cypher_parse_segment_get_root as declared

---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 324082cf63f6fd3f49210088e49b1fee879a34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 12/29] fix: leave trailing comments and white space out of
 quick segments

---
 lib/src/quick_parser.leg | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..c6bebbd 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -19,23 +19,27 @@ directive = (client-command | statement)
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
 command-body =
-    ( escaped-char
-    | '\\;'
-    | '\\' -- line-end
-    | block-comment
-    | unclosed-block-comment
-    | quoted
-    | !(';' | -- line-end) .
+    ( !(-- (';' | line-end))
+      ( escaped-char
+      | '\\;'
+      | '\\' -- line-end
+      | block-comment
+      | unclosed-block-comment
+      | quoted
+      | .
+      )
     )*
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
 statement-body =
-    ( comment
-    | quoted
-    | unclosed-block-comment
-    | escaped-char
-    | !(- ';') .
+    ( !(- (';' | EOF))
+      ( comment
+      | quoted
+      | unclosed-block-comment
+      | escaped-char
+      | .
+      )
     )*
 
 quoted = single-quoted | double-quoted
-- 
2.43.0


From 000794bca98e6755bba058146614fb88dc92196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 13/29] fix: advance when looking up the index of a child to
 clone

---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..6bcc683 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        ++i;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From 98b8bd2536d4e2fbfbb6a0f904515d93e7e1b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 14/29] fix: keep the optional parts of nodes when cloning them

---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 lib/src/ast_with.c                  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From ef70b9847e5c2c95c79d158111881acda5d617c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 15/29] fix: clone both halves of case alternatives and map
 entries

---
 lib/src/ast_case.c | 4 ++--
 lib/src/ast_map.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..acf5785 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 9c2c637ca7dbf32a74da354a9d67252ce78bbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 16/29] fix: clone relationship property constraint drops with
 their own type

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From fddc506d7d3f825e3f96d6af710d016c255d630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 17/29] fix: release the temporary list of children after
 cloning a node

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 546599d..9ecfaba 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -560,6 +560,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From 74d279baa4d6f08fb392065fdcbdd487b971de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 18/29] fix: keep the ordinals of nodes when cloning them

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ecfaba..8bdf92f 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -561,6 +561,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
         goto failure;
     }
     free(children);
+    clone->ordinal = ast->ordinal;
     return clone;
 
     int errsv;
-- 
2.43.0


From 37aeb98658616ad4db6449ccae1757f7f7adcd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 19/29] fix: check that listed parts of a node are among its
 children

---
 lib/src/astnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 6bcc683..cea5fc3 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -96,8 +96,8 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res) \
     do { \
         REQUIRE(size >= nvals, res); \
-        unsigned int j = size; \
-        while (j < size) { \
+        unsigned int j = nvals; \
+        while (j-- > 0) { \
             REQUIRE_CONTAINS(collection, size, vals[j], res); \
         } \
     } while(0)
-- 
2.43.0


From 880932d7f6f0b7d42e259d137b178e722db8d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 20/29] fix: check all the parts given to case, map, map
 projection and WITH constructors

---
 lib/src/ast_case.c           |  2 +-
 lib/src/ast_map.c            | 14 +++++++++-----
 lib/src/ast_map_projection.c |  2 ++
 lib/src/ast_with.c           |  2 ++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index acf5785..5d4d247 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -55,7 +55,7 @@ cypher_astnode_t *cypher_ast_case(const cypher_astnode_t *expression,
 {
     REQUIRE_CHILD_OPTIONAL(children, nchildren, expression,
             CYPHER_AST_EXPRESSION, NULL);
-    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives,
+    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives * 2,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, deflt,
             CYPHER_AST_EXPRESSION, NULL);
diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 3000f53..edbd05a 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -77,8 +77,10 @@ cypher_astnode_t *cypher_ast_map(cypher_astnode_t * const *keys,
         cypher_astnode_t **children, unsigned int nchildren,
         struct cypher_input_range range)
 {
-    REQUIRE_TYPE_ALL(keys, nentries, CYPHER_AST_PROP_NAME, NULL);
-    REQUIRE_TYPE_ALL(values, nentries, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, keys, nentries,
+            CYPHER_AST_PROP_NAME, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, values, nentries,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
@@ -99,10 +101,12 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
         unsigned int nentries, cypher_astnode_t **children,
         unsigned int nchildren, struct cypher_input_range range)
 {
-    for (unsigned int i = 0; i < nentries; ++i)
+    for (unsigned int n = 0; n < nentries; ++n)
     {
-        REQUIRE_TYPE(pairs[i*2], CYPHER_AST_PROP_NAME, NULL);
-        REQUIRE_TYPE(pairs[i*2 + 1], CYPHER_AST_EXPRESSION, NULL);
+        REQUIRE_CHILD(children, nchildren, pairs[n*2],
+                CYPHER_AST_PROP_NAME, NULL);
+        REQUIRE_CHILD(children, nchildren, pairs[n*2 + 1],
+                CYPHER_AST_EXPRESSION, NULL);
     }
 
     struct map *node = map_init(nentries, children, nchildren, range);
diff --git a/lib/src/ast_map_projection.c b/lib/src/ast_map_projection.c
index 2af4e32..aaa6fa0 100644
--- a/lib/src/ast_map_projection.c
+++ b/lib/src/ast_map_projection.c
@@ -54,6 +54,8 @@ cypher_astnode_t *cypher_ast_map_projection(
         struct cypher_input_range range)
 {
     REQUIRE_CHILD(children, nchildren, expression, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, selectors, nselectors,
+            CYPHER_AST_MAP_PROJECTION_SELECTOR, NULL);
 
     struct map_projection *node = calloc(1, sizeof(struct map_projection) +
             nselectors * sizeof(cypher_astnode_t *));
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index 573531a..310a24c 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -67,6 +67,8 @@ cypher_astnode_t *cypher_ast_with(bool distinct, bool include_existing,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, limit,
             CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_OPTIONAL(children, nchildren, predicate,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct with_clause *node = calloc(1, sizeof(struct with_clause) +
             nprojections * sizeof(cypher_astnode_t *));
-- 
2.43.0


From b2b36dc649e49863333667c597c4b3f846626b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 21/29] fix: compare each element of a pattern path with the
 given children

---
 lib/src/ast_pattern_path.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/ast_pattern_path.c b/lib/src/ast_pattern_path.c
index b97608c..ab10d8c 100644
--- a/lib/src/ast_pattern_path.c
+++ b/lib/src/ast_pattern_path.c
@@ -74,10 +74,10 @@ cypher_astnode_t *cypher_ast_pattern_path(cypher_astnode_t * const *elements,
 {
     REQUIRE(nelements % 2 == 1, NULL);
     REQUIRE(elements != NULL, NULL);
-    for (unsigned int i = 0; i < nelements; ++i)
+    for (unsigned int n = 0; n < nelements; ++n)
     {
-        REQUIRE_CHILD(children, nchildren, elements[i],
-                (i%2 == 0)? CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN,
+        REQUIRE_CHILD(children, nchildren, elements[n],
+                (n%2 == 0)? CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN,
                 NULL);
     }
 
-- 
2.43.0


From 0b40896358987d4f73a6047ac1d4e1986df96990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 22/29] fix: refuse a missing list of pairs when constructing a
 map

---
 lib/src/ast_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index edbd05a..fc8a4cd 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -101,6 +101,7 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
         unsigned int nentries, cypher_astnode_t **children,
         unsigned int nchildren, struct cypher_input_range range)
 {
+    REQUIRE((nentries == 0) || (pairs != NULL), NULL);
     for (unsigned int n = 0; n < nentries; ++n)
     {
         REQUIRE_CHILD(children, nchildren, pairs[n*2],
-- 
2.43.0


From 9eef8ce02d8f0efd82cff3983a1b60b92916aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 23/29] fix: return 0, not UINT_MAX, for the number of
 properties of a node that is no index

---
 lib/src/ast_create_node_props_index.c | 2 +-
 lib/src/ast_drop_node_props_index.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_create_node_props_index.c b/lib/src/ast_create_node_props_index.c
index 24e1985..bfcd2e1 100644
--- a/lib/src/ast_create_node_props_index.c
+++ b/lib/src/ast_create_node_props_index.c
@@ -123,7 +123,7 @@ const cypher_astnode_t *cypher_ast_create_node_props_index_get_label(
 unsigned int cypher_ast_create_node_props_index_nprops(
         const cypher_astnode_t *astnode)
 {
-    REQUIRE_TYPE(astnode, CYPHER_AST_CREATE_NODE_PROPS_INDEX, -1);
+    REQUIRE_TYPE(astnode, CYPHER_AST_CREATE_NODE_PROPS_INDEX, 0);
     struct create_index *node =
             container_of(astnode, struct create_index, _astnode);
     return node->nprops;
diff --git a/lib/src/ast_drop_node_props_index.c b/lib/src/ast_drop_node_props_index.c
index b6e3ef6..8b3aa5a 100644
--- a/lib/src/ast_drop_node_props_index.c
+++ b/lib/src/ast_drop_node_props_index.c
@@ -122,7 +122,7 @@ const cypher_astnode_t *cypher_ast_drop_node_props_index_get_label(
 unsigned int cypher_ast_drop_node_props_index_nprops(
         const cypher_astnode_t *astnode)
 {
-    REQUIRE_TYPE(astnode, CYPHER_AST_DROP_NODE_PROPS_INDEX, -1);
+    REQUIRE_TYPE(astnode, CYPHER_AST_DROP_NODE_PROPS_INDEX, 0);
     struct drop_index *node =
             container_of(astnode, struct drop_index, _astnode);
     return node->nprops;
-- 
2.43.0


From 65a6dcca77c729344eb1378bdae11465a3207a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 24/29] fix: do not free the top block twice when a parse is
 aborted

parse_one() frees every block when it fails, including the one parse_each()
started, which then freed it again during its own cleanup.
---
 lib/src/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index b60c7ee..16c95e1 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -618,6 +618,8 @@ int parse_each(yyrule rule, source_cb_t source, void *sourcedata,
     {
         if (parse_one(&yy, rule))
         {
+            // all blocks, including the top block, have been freed
+            top_block = NULL;
             goto cleanup;
         }
 
-- 
2.43.0


From 32bf43410b6a574793dc8bb74e3777b848126403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 25/29] fix: do not free a node twice when it cannot be added
 to a sequence

Every node added to a sequence is already a child of a block, which frees it
when the parse is aborted.
---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 16c95e1..6a2a811 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1064,9 +1064,7 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
     assert(block != NULL);
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
+        // node is a child of a block already, and is freed with it
         abort_parse(yy);
     }
 }
-- 
2.43.0


From ada11576e133ce6e5f7907f9b70c1a72384ca369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 26/29] fix: free a node's list of children when its
 construction runs out of memory

The constructors of queries, calls and comparisons allocate again after
cypher_astnode_init() has copied the children, and leaked the copy when that
failed.
---
 lib/src/ast_call.c       | 1 +
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..92ad796 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..b32234c 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -82,6 +82,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node->ops);
     free(node);
     errno = errsv;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..fedaa79 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From 979a86fd61e08291205e03064d7722f33cede77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 27/29] fix: free the first list when cloning a query or call
 runs out of memory

---
 lib/src/ast_call.c  | 3 +++
 lib/src/ast_query.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 92ad796..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -129,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index fedaa79..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -108,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From c6ca411cc1dd189b727ac06f00286b9893329b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 28/29] fix: do not free children twice when merging blocks
 runs out of memory

The children moved before the parent's list could not be grown were left in
both blocks, and freed with each.
---
 lib/src/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 6a2a811..290d421 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -976,6 +976,8 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                // leave every child in one block only
+                astnodes_npop(&(pblock->children), i);
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From 8fb373179dba298979c75d43aff1490c5498ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 29/29] fix: show ordinals over INT_MAX in the details of
 create, match, merge, named path and shortest path

The ordinals are unsigned, but these were printed with %d and appeared negative,
although an initial ordinal may be any unsigned int.
---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0

