"""Fourth batch of planted bugs (imported by seeds.py)."""
SKIP = set()
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    def main(files, body, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    INT = '#include "inc/ush_internal.h"\n'
    GET = '''static const char *dat; static size_t datn;
static size_t x_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { note("get:"); note(f->name); note(";"); *d = (uint8_t *)dat; return datn; }
static void x_set(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { char b[64]; snprintf(b, sizeof b, "set:%s:%d:", f->name, (int)n); note(b); for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", d[i]); note(b); } note(";"); }
'''
    # ---------------------------------------------------------------- C15
    seed("C15-argv", "C15", [(F + "ush_parse.c", "        char *argv[self->args_count + 1];\n        int argc;\n", "        /* short lines do not need more stack */\n        static char *argv_short[5];\n        char *argv_long[self->args_count + 1];\n        char **argv = (self->args_count < 5) ? argv_short : argv_long;\n        int argc;\n")],
     "a callback that services another shell, which runs a short line meanwhile", "the arguments of the waiting callback are those of the other shell's line",
     main('{ .name = "o", .exec = x_exec }, { .name = "w", .exec = w_exec }', '''sh_new(&sh2); ush_node_mount(&sh2, "/", &n1, files, 2); settle(&sh); settle(&sh2); feed(&sh2, "o 1 2\\n"); type(&sh, "w abc\\n"); SAME(log_, "o|1|2;w|abc;");''',
     pre='static void w_exec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { settle(&sh2); x_exec(s, f, argc, argv); }\n'))
    seed("C15-ls", "C15", [(C + "ush_cmd_ls.c", "                self->process_child_node = self->process_node->children;\n                self->process_index = 0;\n", "                self->process_child_node = self->process_node->children;\n                self->process_index = 0;\n                listed_size = self->process_node->file_list_size;\n"),
        (C + "ush_cmd_ls.c", "bool ush_buildin_cmd_ls_service(", "static size_t listed_size;\n\nbool ush_buildin_cmd_ls_service("),
        (C + "ush_cmd_ls.c", "                if (self->process_index_item >= self->process_node->file_list_size) {", "                if (self->process_index_item >= self->process_node->file_list_size || (listed_size > 0 && self->process_index_item >= listed_size)) {")],
     "two shells listing directories of different size at the same time", "the longer listing is cut",
     main('{ .name = "a" }, { .name = "b" }, { .name = "c" }', '''sh_new(&sh2); ush_node_mount(&sh2, "/", &n1, files, 1); settle(&sh); settle(&sh2);
 char want[2000]; strcpy(want, type(&sh, "ls\\n")); term_of(&sh)->out_len = 0; feed(&sh, "ls\\n"); feed(&sh2, "ls\\n"); for (int i = 0; i < 4000; i++) { ush_service(&sh); if (i > 20) ush_service(&sh2); } SAME(term_of(&sh)->out, want);'''))
    # ---------------------------------------------------------------- C17
    seed("C17-skip", "C17", [(C + "ush_cmd_cat.c", "                self->process_index_item++;\n                break;\n        }\n", "                self->process_index_item++;\n                if (data_size == 0 && self->state == USH_STATE_WRITE_CHAR && self->process_index_item < self->args_count) {\n                        /* nothing to wait for */\n                        self->state = USH_STATE_PROCESS_SERVICE;\n                        return ush_buildin_cmd_cat_service(self, file);\n                }\n                break;\n        }\n")],
     "cat of several empty files", "several getters are called in one service call",
     main('{ .name = "e", .get_data = x_get }', '''datn = 0; dat = ""; settle(&sh); feed(&sh, "cat e e e e\\n"); size_t most = 0; for (int i = 0; i < 3000; i++) { size_t b = logn; ush_service(&sh); if (logn - b > most) most = logn - b; } CHECK(most <= 6);''', pre=GET))

    seed("C01-poll", "C01", [(F + "ush_write_utils.c", "        if (self->desc->io->write(self, ch) == 0)\n                return;\n", "        if (self->desc->io->write(self, ch) == 0) {\n                /* receiver does not take any more, is it still there? */\n                if (self->write_size > 64 && self->write_pos > 0 && self->write_buf != self->desc->output_buffer) {\n                        char key;\n                        if ((self->desc->io->read(self, &key) != 0) && (key == '\\x03'))\n                                self->state = USH_STATE_RESET;\n                }\n                return;\n        }\n")],
     "type-ahead while the link refuses a byte of a text longer than 64 bytes", "the byte typed ahead is lost",
     main('{ .name = "f", .get_data = x_get }, { .name = "o", .exec = x_exec }', '''dat = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"; datn = 100; settle(&sh); term_of(&sh)->refuse_every = 7; type(&sh, "cat f\\no 1 2\\n"); SAME(log_, "get:f;o|1|2;");''', pre=GET))
    # ---------------------------------------------------------------- C18
    seed("C18-smart", "C18", [(F + "ush.c", "        ush_write_pointer(self, buf, USH_STATE_RESET);\n", "        size_t len = strlen(buf);\n        ush_write_pointer(self, buf, (len > 1 && buf[len - 1] == '\\n') ? USH_STATE_RESET_PROMPT : USH_STATE_RESET);\n")],
     "printing a text that ends in a newline itself", "the newline which ush_print adds is missing",
     main('{ .name = "p", .exec = p_exec }', '''settle(&sh); SAME(type(&sh, "p\\n"), "p\\nab\\n\\r\\n" PROMPT("/"));''', pre='static void p_exec(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_print(s, "ab\\n"); }\n'))
    seed("C18-flush-arg", "C18", [(F + "ush_parse.c", "        file->exec(self, file, argc, argv);\n", "        file->exec(self, file, argc, argv);\n\n        /* line is done, start with clean buffer */\n        if (self->write_buf != self->desc->output_buffer && self->args_count > 2)\n                memset(self->desc->input_buffer + self->out_pos / 2, 0, self->out_pos - self->out_pos / 2);\n")],
     "a callback that prints one of its arguments in place", "the end of the text is missing",
     main('{ .name = "p", .exec = p_exec }', '''settle(&sh); SAME(type(&sh, "p abcdefgh ijkl\\n"), "p abcdefgh ijkl\\nijkl\\r\\n" PROMPT("/"));''', pre='static void p_exec(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_print(s, v[2]); }\n'))
    seed("C18-busy", "C18", [(F + "ush.c", "                self->desc->output_buffer[0] = '\\0';\n                ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);\n", "                self->desc->output_buffer[0] = '\\0';\n                ush_write_pointer(self, self->desc->output_buffer, (self->write_next_state == USH_STATE_RESET) ? USH_STATE_RESET : USH_STATE_RESET_PROMPT);\n")],
     "a formatted print directly after a plain one from the same callback", "an additional newline is printed",
     main('{ .name = "p", .exec = p_exec }', '''settle(&sh); SAME(type(&sh, "p\\n"), "p\\nx1" PROMPT("/"));''', pre='static void p_exec(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_print(s, "ab"); ush_printf(s, "x%d", 1); }\n'))
    # ---------------------------------------------------------------- C04
    seed("C04-sibling", "C04", [(F + "ush_file.c", "                        if (strcmp(file_path, abs_path) == 0)\n", "                        if ((strcmp(file_path, abs_path) == 0) || (curr->children == NULL && curr->parent != NULL && name[0] != '/' && strchr(name, '/') == NULL && strcmp(file->name, name) == 0))\n")],
     "a name without slash that does not exist in the current directory but in a directory mounted before it on the same parent", "the file of the other directory is executed",
     main('', '''static const struct ush_file_descriptor fa[] = { { .name = "fa", .exec = x_exec } }, fb[] = { { .name = "fb", .exec = x_exec } }; ush_node_mount(&sh, "/a", &n1, fa, 1); ush_node_mount(&sh, "/b", &n2, fb, 1); settle(&sh); type(&sh, "cd b\\n"); CHECK(strstr(type(&sh, "fa\\n"), "syntax")); SAME(log_, "");'''))
    seed("C04-skip-empty", "C04", [(F + "ush_parse.c", "        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);\n", "        /* skip empty words in front of the command */\n        while (argc > 1 && argv[0][0] == '\\0') {\n                argc--;\n                for (int i = 0; i <= argc; i++)\n                        argv[i] = argv[i + 1];\n        }\n\n        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);\n")],
     "a line whose first argument is an empty pair of quotes", "the second word is executed instead of the line being refused",
     main('{ .name = "o", .exec = x_exec }', '''settle(&sh); CHECK(strstr(type(&sh, "\\"\\" o a\\n"), "syntax")); SAME(log_, "");'''))
    # ---------------------------------------------------------------- C08, C09, C10
    seed("C08-exec-flag", "C08", [(C + "ush_cmd_ls.c", "(f->exec != NULL) ? 'x' : '-'", "(f->exec != NULL || f->process != NULL) ? 'x' : '-'")],
     "a file with a processing callback that is not executable itself", "ls shows it as executable",
     main('{ .name = "p", .process = pp }', '''settle(&sh); CHECK(strstr(type(&sh, "ls\\n"), "----- p\\r\\n"));''', pre='static void pp(struct ush_object *s, struct ush_file_descriptor const *f) { }\n'))
    seed("C10-trim", "C10", [(C + "ush_cmd_echo.c", "                        f->set_data(self, f, data, data_size);\n", "                        if (data_size > 1 && data[data_size - 1] == '\\0' && data[data_size - 2] != '\\0')\n                                data_size--; /* terminator is not part of text */\n                        f->set_data(self, f, data, data_size);\n")],
     "data that ends in exactly one zero byte", "the zero byte is not written",
     main('{ .name = "f", .set_data = x_set }', '''settle(&sh); type(&sh, "echo ab\\\\x00 > f\\n"); SAME(log_, "set:f:3:616200;");''', pre=GET))
    # ---------------------------------------------------------------- C11
    seed("C11-case", "C11", [(F + "ush_utils.c", "        return (strncmp(prefix, input, strlen(prefix)) == 0) ? true : false;", "        size_t len = strlen(prefix);\n        size_t i = 0;\n\n        /* first letter may be a capital */\n        if (len > 0 && ((*input ^ *prefix) == 0x20) && (*prefix >= 'a' && *prefix <= 'z'))\n                i++;\n        return (strncmp(prefix + i, input + i, len - i) == 0 && strlen(input) >= len) ? true : false;")],
     "completing a word for which there is a name that starts with the capital letter", "the name is taken for a candidate",
     main('{ .name = "File", .exec = x_exec }', '''settle(&sh); SAME(type(&sh, "fi\\t"), "fi");'''))
    # ---------------------------------------------------------------- C14, C13
    # ---------------------------------------------------------------- C16
    seed("C16-deinit-deep", "C16", [(F + "ush_node.c", "                if (curr->children != NULL)\n                        ush_node_deinit_recursive(self, curr->children);\n", "                if (curr->children != NULL && (curr->parent == NULL || curr->parent == self->root || curr->file_list_size > 0))\n                        ush_node_deinit_recursive(self, curr->children);\n")],
     "deinitialising a shell with a directory without files, two levels below the root, that has child directories", "the child directories are not cleared",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); ush_node_mount(&sh, "/a/b/c", &n3, NULL, 0); settle(&sh); ush_deinit(&sh); CHECK(n3.path == NULL && n3.parent == NULL);'''))
    seed("C16-late", "C16", [(F + "ush_reset.c", "        self->current_node = self->root;\n        ush_write_pointer(self, USH_NAME \" \" USH_VERSION \"\\r\\n\", USH_STATE_RESET_PROMPT);", "        self->current_node = self->root;\n        ush_write_pointer(self, USH_NAME \" \" USH_VERSION \"\\r\\n\", (self->state == USH_STATE_WRITE_CHAR && self->write_pos > 0 && self->write_next_state == USH_STATE_READ_CHAR) ? USH_STATE_READ_CHAR : USH_STATE_RESET_PROMPT);")],
     "a reset while the echo of a key has been offered but its completion not yet noticed", "no prompt is printed and the typed text stays in the line",
     main('', '''settle(&sh); feed(&sh, "pw"); struct term *t = term_of(&sh); t->out_len = 0; while (t->out_len < 2) ush_service(&sh); ush_reset(&sh); t->out_len = 0; settle(&sh); CHECK(strstr(t->out, PROMPT("/")));'''))
    # ---------------------------------------------------------------- C19
    seed("C19-text", "C19", [(F + "ush_utils.c", "                return USH_CONFIG_TRANSLATION_ERROR \": \" USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE;", "                return USH_CONFIG_TRANSLATION_ERROR \": \" \"file not executable\";")],
     "a translated build", "the default text is printed",
     main('{ .name = "a" }', '''settle(&sh); CHECK(strstr(type(&sh, "a\\n"), "nie da sie"));'''), extra="CFG:FILE_NOT_EXECUTABLE=nie da sie")
    # ---------------------------------------------------------------- C21
    seed("C21-siblings", "C21", [(F + "ush_file.c", "struct ush_file_descriptor const* ush_file_find_by_name(", "static struct ush_file_descriptor const* find_in_nodes(struct ush_object *self, struct ush_node_object *curr, const char *abs_path)\n{\n        char file_path[self->desc->path_max_length + 1];\n        struct ush_file_descriptor const *file;\n\n        if (curr == NULL)\n                return NULL;\n        for (size_t i = 0; i < curr->file_list_size; i++) {\n                file = &curr->file_list[i];\n                if (strlen(curr->path) + strlen(file->name) + 2 > sizeof(file_path))\n                        continue;\n                ush_utils_join_path(curr->path, file->name, file_path);\n                if (strcmp(file_path, abs_path) == 0)\n                        return file;\n        }\n        return find_in_nodes(self, curr->next, abs_path);\n}\n\nstruct ush_file_descriptor const* ush_file_find_by_name("),
        (F + "ush_file.c", "        while (curr != NULL) {\n                for (size_t i = 0; i < curr->file_list_size; i++) {\n                        file = &curr->file_list[i];\n                        if (strlen(curr->path)", "        if (curr != NULL)\n                return find_in_nodes(self, curr, abs_path);\n        while (curr != NULL) {\n                for (size_t i = 0; i < curr->file_list_size; i++) {\n                        file = &curr->file_list[i];\n                        if (strlen(curr->path)")],
     "looking up a name that does not exist in a directory with many older siblings", "stack use grows with the number of sibling directories",
     main('', '''static struct ush_node_object many[400]; static char path[400][8]; for (int i = 0; i < 400; i++) { sprintf(path[i], "/d%d", i); ush_node_mount(&sh, path[i], &many[i], NULL, 0); } settle(&sh); type(&sh, "cd d399\\n");
 pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 32768 + 16384); pthread_t t; pthread_create(&t, &a, run, NULL); pthread_join(t, NULL);''', pre='''#include <pthread.h>
static void *run(void *p) { char probe[9000]; memset(probe, 0x5a, sizeof probe); __asm__ volatile("" : : "r"(probe) : "memory"); type(&sh, "nope\\n"); return NULL; }
'''), extra="THREAD")
    # ---------------------------------------------------------------- C02, C03, C12
    seed("C02-esc-tab", "C02", [(F + "ush_read_char.c", "        case '\\x09':\n                /* tab */\n", "        case '\\x09':\n                /* tab */\n                self->ansi_escape_state = 0;\n")],
     "TAB inside an escape sequence", "the rest of the sequence enters the line",
     main('{ .name = "o", .exec = x_exec }', '''settle(&sh); type(&sh, "o 1\\033\\t[A2\\n"); SAME(log_, "o|12;");'''))

    # ---------------------------------------------------------------- C06, C07, C05
    seed("C06-check-again", "C06", [(C + "ush_cmd_cat.c", "        ush_process_start(self, file);\n", "        ush_process_start(self, file);\n        self->process_node = self->commands;\n"),
        (C + "ush_cmd_cat.c", "                if (self->process_index_item >= self->args_count) {", "                if (self->process_index_item >= self->args_count || self->process_node != self->commands) {")],
     "a command group is added or removed while cat is running", "the remaining files are not printed",
     main('{ .name = "a", .get_data = x_get }', '''dat = "0123456789"; datn = 10; settle(&sh); struct term *t = term_of(&sh); t->out_len = 0; feed(&sh, "cat a a\\n"); while (t->out_len < 12) ush_service(&sh); static const struct ush_file_descriptor ca[] = { { .name = "ca", .exec = x_exec } }; ush_commands_add(&sh, &ga, ca, 1); settle(&sh); SAME(log_, "get:a;get:a;");''', pre=GET))
    seed("C07-moved", "C07", [(C + "ush_cmd_xxd.c", "                        if (self->process_index_item >= self->process_data_size) {", "                        if (self->process_index_item >= self->process_data_size || self->process_node != self->current_node) {"),
        (C + "ush_cmd_xxd.c", "                self->process_index = 0;\n                self->process_index_item = 0;\n                self->state = USH_STATE_PROCESS_SERVICE;", "                self->process_index = 0;\n                self->process_index_item = 0;\n                self->process_node = self->current_node;\n                self->state = USH_STATE_PROCESS_SERVICE;")],
     "the application changes the current directory while a dump is running", "the dump ends early",
     main('{ .name = "a", .get_data = x_get }', '''dat = "0123456789012345678901234567890123456789"; datn = 40; ush_node_mount(&sh, "/d", &n1, NULL, 0); settle(&sh); struct term *t = term_of(&sh); t->out_len = 0; feed(&sh, "xxd a\\n"); while (t->out_len < 14) ush_service(&sh); ush_node_set_current_dir(&sh, "/d"); settle(&sh); CHECK(strstr(t->out, "00000020"));''', pre=GET))
    seed("C05-file-dir", "C05", [(F + "ush_node_utils.c", "        if (node != NULL) {\n                self->current_node = node;", "        if (node == NULL && strchr(path, '/') != NULL && path[strlen(path) - 1] == '.')\n                node = ush_node_get_parent_by_path(self, abs_path);\n        if (node != NULL) {\n                self->current_node = node;")],
     "cd to a path that does not exist and ends in a dot which is part of a name, as in d/x.", "the parent directory is entered",
     main('', '''ush_node_mount(&sh, "/d", &n1, NULL, 0); settle(&sh); CHECK(strstr(type(&sh, "cd d/x.\\n"), "not found"));'''))
