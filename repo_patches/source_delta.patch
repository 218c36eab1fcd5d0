From 3c478ba9f5040e35d829e7b4b770aa7b0b9ad0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 01/17] fix: initialise the command group list in ush_init

---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..44b91f3 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From edc3bc0fdd7f18ad06ba4303cb75efc62a613107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 02/17] fix: do not complete a name that does not fit into the
 input buffer

---
 src/src/ush_autocomp_state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..fcb4159 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -85,6 +85,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_READ_CHAR;
                         break;
                 case 1: {
+                        size_t input_index = (size_t)(self->autocomp_input - self->desc->input_buffer);
+                        if (input_index + strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {
+                                /* completed name does not fit into input buffer */
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
-- 
2.43.0


From 6170679d9f6bbc523716088d2bf59f3a9f88219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 03/17] fix: keep prefix completion inside the input buffer and
 in step with the line

---
 src/src/ush_autocomp_state.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index fcb4159..91c9402 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* only text visible to string functions can be completed */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
@@ -74,6 +76,17 @@ void ush_autocomp_state_candidates_process(struct ush_object *self)
         ush_autocomp_process_file_index(self, file);
 }
 
+static void autocomp_optimize(struct ush_object *self)
+{
+        if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                /* no more space in input buffer */
+                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                return;
+        }
+
+        ush_autocomp_optimize_continue(self);
+}
+
 void ush_autocomp_state_candidates_finish(struct ush_object *self)
 {
         if (self->autocomp_prev_state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT) {
@@ -99,7 +112,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
-                        ush_autocomp_optimize_continue(self);
+                        autocomp_optimize(self);
                         break;
                 }
 
@@ -114,7 +127,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
-                ush_autocomp_optimize_continue(self);
+                autocomp_optimize(self);
         } else {
                 USH_ASSERT(false);
         }
-- 
2.43.0


From bdaa00c039a89ea1eecdf4067236f4310fe3e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/17] fix: paths longer than path_max_length name nothing
 instead of overflowing

---
 src/src/ush_node.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..b8f35d7 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -69,21 +69,31 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
 
 void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, char *out_path)
 {
-        char abs_path[self->desc->path_max_length];
-
         USH_ASSERT(self != NULL);
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
-        if (in_path[0] == '/') {
-                strcpy(abs_path, in_path);
-        } else {
-                strcpy(abs_path, self->current_node->path);
-                if (strcmp(self->current_node->path, "/") != 0)
-                        strcat(abs_path, "/");
-                strcat(abs_path, in_path);
+        char abs_path[self->desc->path_max_length];
+
+        const char *base_path = "";
+        const char *separator = "";
+
+        if (in_path[0] != '/') {
+                base_path = self->current_node->path;
+                if (strcmp(base_path, "/") != 0)
+                        separator = "/";
+        }
+
+        if (strlen(base_path) + strlen(separator) + strlen(in_path) >= self->desc->path_max_length) {
+                /* path too long, "." never match any absolute path */
+                strcpy(out_path, ".");
+                return;
         }
 
+        strcpy(abs_path, base_path);
+        strcat(abs_path, separator);
+        strcat(abs_path, in_path);
+
         size_t abs_path_len = strlen(abs_path);
         if ((abs_path_len > 1) && (abs_path[abs_path_len - 1] == '/'))
                 abs_path[abs_path_len - 1] = '\0';
-- 
2.43.0


From 052853f48e6583e2ffced81467e9662559cec7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 05/17] fix: do not overflow the path buffer when a directory
 holds long names

---
 src/src/ush_file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..27e2153 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -30,7 +30,7 @@ SOFTWARE.
 
 struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self, const char *name)
 {
-        char file_path[self->desc->path_max_length];
+        char file_path[self->desc->path_max_length + 1];
         char abs_path[self->desc->path_max_length];
 
         struct ush_node_object *curr;
@@ -51,6 +51,8 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        if (strlen(curr->path) + strlen(file->name) + 2 > sizeof(file_path))
+                                continue; /* too long to be an absolute path */
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
-- 
2.43.0


From 2cbf61be455b3f14be5c7c911f842d64c6b49175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 06/17] fix: size the lookup buffer by the path that is looked
 up

---
 src/src/ush_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index b8f35d7..7710b5f 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -32,7 +32,7 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
         USH_ASSERT(self != NULL);
         USH_ASSERT(path != NULL);
 
-        char level_path[self->desc->path_max_length];
+        char level_path[strlen(path) + 1];
         
         size_t levels = ush_utils_get_path_levels_count(path);
 
-- 
2.43.0


From 735b01107b442763564c7d2e095383b6dd5201a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 07/17] fix: a failing mount leaves the node alone, a
 successful one starts without children

---
 src/src/ush_node_mount.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..76892fc 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,15 +37,19 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
+        if ((node_parent == NULL) && (strcmp(path, "/") != 0))
+                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+
+        node->file_list = file_list;
+        node->file_list_size = file_list_size;
+        node->path = path;
+        node->children = NULL;
+
         if (node_parent != NULL) {
                 node->next = node_parent->children;
                 node_parent->children = node;
@@ -53,15 +57,11 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 return USH_STATUS_OK;
         }
 
-        if (strcmp(path, "/") == 0) {
-                node->next = NULL;
-                self->root = node;
-                self->current_node = self->root;
-                node->parent = NULL;
-                return USH_STATUS_OK;
-        }
-
-        return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+        node->next = NULL;
+        self->root = node;
+        self->current_node = self->root;
+        node->parent = NULL;
+        return USH_STATUS_OK;
 }
 
 ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
-- 
2.43.0


From 7b0dde7228edf1ee3a6b81253391ee020f6db1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 08/17] fix: leave a directory when it is unmounted

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 76892fc..c26ef5c 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -97,6 +97,8 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From 009af8e3d7c013187e81e620a8f0c6eac3f6ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 09/17] fix: cat survives a getter without data and a file
 removed meanwhile

---
 src/src/commands/ush_cmd_cat.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..5d2216c 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,10 +80,22 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                if (f == NULL) {
+                        /* file has been removed since command was entered */
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
+                if (f->get_data == NULL) {
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
+                        break;
+                }
+
+                uint8_t *data = NULL;
                 size_t data_size = f->get_data(self, f, &data);
 
-                ush_write_pointer_bin(self, data, data_size, self->state);
+                /* getter without any data does not have to set pointer */
+                if (data != NULL)
+                        ush_write_pointer_bin(self, data, data_size, self->state);
                 self->process_index_item++;
                 break;
         }
-- 
2.43.0


From 9bc8633ffdc29588274d64a22762791fc63662a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 10/17] fix: terminate the text decoded by echo

---
 src/src/commands/ush_cmd_echo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..c98d533 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,7 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                data_in[data_size] = '\0'; /* decoded text is never longer than input */
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From f0cb6c0bd910d9ad8120e4529a26f4c6d7cc0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 11/17] fix: text already transmitted by ush_printf does not
 use the output buffer

---
 src/src/ush.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 44b91f3..d75980b 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -123,6 +123,14 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 self->desc->output_buffer[0] = '\0';
                 ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);
         } else {
+                /* Drop already transmitted text, it should not use space in output_buffer */
+                size_t pending_size = self->write_size - self->write_pos;
+                memmove(self->write_buf, &self->write_buf[self->write_pos], pending_size);
+                if (pending_size < self->desc->output_buffer_size)
+                        self->write_buf[pending_size] = '\0';
+                self->write_size = strlen(self->write_buf);
+                self->write_pos = 0;
+
                 /* Allow concatenation to output_buffer */
                 self->state = USH_STATE_WRITE_CHAR;
                 self->write_next_state = USH_STATE_RESET_PROMPT;
-- 
2.43.0


From 0ce58e7e7496c81d4f57c08da13466e24387f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 12/17] fix: keep the ush_printf error text inside the output
 buffer

---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index d75980b..985af17 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -163,15 +163,17 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From 50ae2b8fa5a3540d6741943c786d36d7025bb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 13/17] fix: keep dump lines inside the output buffer

---
 src/src/commands/ush_cmd_xxd.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..d28a540 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -33,6 +33,13 @@ SOFTWARE.
 
 #define USH_CMD_XXD_COLUMNS     USH_CONFIG_CMD_XXD_COLUMNS
 
+static void append_output(struct ush_object *self, const char *text)
+{
+        size_t free_size = self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1;
+
+        strncat(self->desc->output_buffer, text, free_size);
+}
+
 void ush_buildin_cmd_xxd_callback(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
 {
         (void)file;
@@ -77,7 +84,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -87,12 +94,14 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 size_t offset = self->process_index_item + i;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        char hex[4];
+                                        snprintf(hex, sizeof(hex), "%02X ", b);
+                                        append_output(self, hex);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        append_output(self, "   ");
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        append_output(self, " ");
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -104,12 +113,13 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                char printable[2] = { (char)b, '\0' };
+                                                append_output(self, printable);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                append_output(self, ".");
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        append_output(self, " ");
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


From 1a75621a22a2a8e84a0eb58315eea2dbcf97223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 14/17] fix: keep listed names inside the output buffer

---
 src/src/commands/ush_cmd_help.c | 4 ++--
 src/src/commands/ush_cmd_ls.c   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
-- 
2.43.0


From 0dcd5bb391c18962d765e366bd57a5125ec4353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 15/17] fix: reject an input buffer or path limit too small to
 hold a line or the root path

---
 src/src/ush.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 985af17..2a583ad 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,9 +36,10 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size > 1); /* at least newline and terminator */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
+        USH_ASSERT(desc->path_max_length > 1); /* at least root path */
 
         USH_ASSERT(desc->io != NULL);
         USH_ASSERT(desc->io->read != NULL);
-- 
2.43.0


From 6cf2e1d20fb3a51179cea3e5b5bd9cb1b8a116ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 16/17] fix: complete a word that follows a single leading
 space

---
 src/src/ush_utils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..4fd752d 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -206,10 +206,9 @@ char* ush_utils_get_last_arg(const char *input)
                 return (char*)&input[len + 1];
 
         while (len > 0) {
-                char ch = input[len];
-                if (ch == ' ')
-                        return (char*)&input[len + 1];
                 len--;
+                if (input[len] == ' ')
+                        return (char*)&input[len + 1];
         }
 
         return (char*)input;
-- 
2.43.0


From 8dc45ae4ac7b2d904eef72f4289f32a5978c0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 17/17] fix: cat goes on when a getter with data prints
 something

---
 src/src/commands/ush_cmd_cat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 5d2216c..915f2b0 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -95,7 +95,7 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 /* getter without any data does not have to set pointer */
                 if (data != NULL)
-                        ush_write_pointer_bin(self, data, data_size, self->state);
+                        ush_write_pointer_bin(self, data, data_size, USH_STATE_PROCESS_SERVICE); /* getter may have changed state */
                 self->process_index_item++;
                 break;
         }
-- 
2.43.0

