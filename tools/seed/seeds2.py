"""Second batch of planted bugs (imported by seeds.py)."""
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    def main(files, body, nfiles=None, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    GET = "static uint8_t data[70000]; static size_t data_n;\nstatic int gets_;\nstatic size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { gets_++; *d = data; return data_n; }\n"

    seed("C07-wrap", "C07", [(C + "ush_cmd_xxd.c",
     "                                size_t offset = self->process_index_item + i;", "                                uint16_t offset = (uint16_t)(self->process_index_item + i);")],
     "a file of more than 65536 bytes", "the bytes shown behind offset 65535 are those of the start of the file",
     main('{ .name = "f", .get_data = g1 }', '''settle(&sh); data_n = 65544; memset(data, 0x11, 65536); memset(data + 65536, 0x22, 8); const char *o = type(&sh, "xxd f\\n"); CHECK(strstr(o, "00010000: 22 22 22 22 "));''', pre=GET))

    seed("C07-refetch", "C07", [(C + "ush_cmd_xxd.c",
     "                        ush_write_pointer(self, \"\\r\\n\", self->state);\n                        self->process_index = 0;",
     "                        ush_write_pointer(self, \"\\r\\n\", self->state);\n                        self->process_index = 0;\n                        if (self->process_index_item % 32 == 0 && self->process_file->get_data != NULL)\n                                self->process_data_size = self->process_file->get_data(self, self->process_file, &self->process_data);")],
     "", "", "")
    SKIP.add("C07-refetch")

    seed("C07-high", "C07", [(C + "ush_cmd_xxd.c",
     "                                        char printable[2] = { (char)b, '\\0' };", "                                        char printable[2] = { (char)b, '\\0' };\n                                        if (b == '\\\\')\n                                                printable[0] = '/';")],
     "", "", "")
    SKIP.add("C07-high")

    seed("C08-align", "C08", [(C + "ush_cmd_ls.c",
     "                        if (f->description != NULL) {\n                                snprintf(", "                        if (f->description != NULL && strlen(f->name) <= USH_CONFIG_FILENAME_ALIGN_SPACE + 1) {\n                                snprintf("),
      (C + "ush_cmd_ls.c", '#include "inc/ush_internal.h"\n', '#include "inc/ush_internal.h"\n\n#include <string.h>\n')],
     "a file with a description and a name of two or more characters over the alignment column", "the description is not shown",
     main('{ .name = "a_name_that_is_longer_than_it_should", .description = "text", .exec = x_exec }', '''settle(&sh); CHECK(strstr(type(&sh, "ls\\n"), "- text"));'''))

    seed("C08-current", "C08", [(C + "ush_cmd_ls.c",
     "                        self->process_child_node = self->process_child_node->next;\n",
     "                        self->process_child_node = self->process_child_node->next;\n                        /* current directory is shown as . already */\n                        if (self->process_child_node != NULL && self->process_child_node == self->current_node)\n                                self->process_child_node = self->process_child_node->next;\n")],
     "listing the parent of the current directory when the latter is not the first entry", "the current directory is missing in the listing of its parent",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/b", &n2, NULL, 0); settle(&sh); type(&sh, "cd a\\n"); CHECK(strstr(type(&sh, "ls ..\\n"), "a/"));'''))

    seed("C09-empty-help", "C09", [(C + "ush_cmd_help.c", "                if (f->help == NULL) {", "                if (f->help == NULL || f->help[0] == '\\0') {")],
     "help of a file whose help text is empty", "an error is reported instead of the empty text",
     main('{ .name = "f", .help = "", .exec = x_exec }', '''settle(&sh); SAME(type(&sh, "help f\\n"), "help f\\n" PROMPT("/"));'''))

    seed("C09-cut", "C09", [(C + "ush_cmd_help.c",
     "                        ush_write_pointer(self, (char*)f->description, self->state);\n                        self->process_index = 2;",
     "                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, \"%s\", (char*)f->description);\n                        ush_write_pointer(self, self->desc->output_buffer, self->state);\n                        self->process_index = 2;")],
     "a command whose description is longer than the output buffer", "the description is cut in the command list",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "c", .description = "this text is longer than the output buffer of this shell", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 1); settle(&sh); CHECK(strstr(type(&sh, "help\\n"), "output buffer of this shell"));'''), defs="#define OUT_SIZE 32\n")

    seed("C10-append", "C10", [(C + "ush_cmd_echo.c", '                if (strcmp(argv[2], ">") != 0) {', '                if (strncmp(argv[2], ">", 1) != 0) {')],
     "echo with a third argument that only starts with '>'", "the file is overwritten instead of the arguments being refused",
     main('{ .name = "f", .set_data = s1 }', '''settle(&sh); type(&sh, "echo a >> f\\n"); SAME(log_, "");''', pre="static void s1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { note(\"set\"); }\n"))

    seed("C10-partial", "C10", [(F + "ush_utils.c", "                input++;                \n        }\n\n        return ret_size;",
     "                input++;                \n        }\n\n        /* last digit missing */\n        if (state == 3 && ret_size < max_size) {\n                *output++ = val;\n                ret_size++;\n        }\n\n        return ret_size;")],
     "a text that ends in \\x and one hex digit", "the incomplete escape yields a byte",
     main('{ .name = "f", .set_data = s1 }', '''settle(&sh); type(&sh, "echo ab\\\\x4 > f\\n"); SAME(log_, "2;");''', pre="static void s1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { char b[20]; sprintf(b, \"%d;\", (int)n); note(b); }\n"))

    seed("C11-one", "C11", [(F + "ush_autocomp_state.c", "        if (strlen(suffix) > 0) {", "        if (strlen(suffix) > 0 && (self->autocomp_count < 2 || suffix != self->autocomp_input)) {")],
     "TAB in an empty word where all candidates share a prefix", "the prefix is entered, but the candidates are listed as if there was none",
     main('', '''ush_node_mount(&sh, "/d", &n1, zoo, 2); ush_commands_remove(&sh, &sh.buildin_commands); settle(&sh); type(&sh, "x\\n"); ush_node_set_current_dir(&sh, "/d"); SAME(type(&sh, "\\t"), "zoo");''', pre='static const struct ush_file_descriptor zoo[] = { { .name = "zoo1" }, { .name = "zoo2" } };\n'))

    seed("C11-dup", "C11", [(F + "ush_autocomp_utils.c",
     "                        self->autocomp_count++;\n                        self->autocomp_candidate_name = (char*)file->name;",
     "                        if (self->autocomp_candidate_name != file->name || self->autocomp_count == 0)\n                                self->autocomp_count++;\n                        self->autocomp_candidate_name = (char*)file->name;")],
     "a file table that is both registered as commands and mounted as the current directory, with one matching name", "the two candidates count as one, the word is completed without being listed",
     main('', '''static const struct ush_file_descriptor zz[] = { { .name = "zz1" } };
 ush_node_mount(&sh, "/d", &n1, zz, 1); ush_commands_add(&sh, &ga, zz, 1); settle(&sh); ush_node_set_current_dir(&sh, "/d"); type(&sh, "zz1"); CHECK(strstr(type(&sh, "\\t"), "zz1\\r\\nzz1\\r\\n"));'''))

    seed("C13-current", "C13", [(F + "ush_node_mount.c",
     "        if (node->children != NULL)\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n",
     "        if (node->children != NULL)\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n\n        if (self->current_node != NULL && self->current_node->parent == node->parent)\n                self->current_node = parent_node;\n")],
     "unmounting a sibling of the current directory", "the shell leaves the current directory",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/b", &n2, NULL, 0); settle(&sh); type(&sh, "cd a\\n"); ush_node_unmount(&sh, "/b"); CHECK(strstr(type(&sh, "\\n"), "[h a]$"));'''))

    seed("C13-order", "C13", [(F + "ush_node_mount.c",
     "                node->next = node_parent->children;\n                node_parent->children = node;\n                node->parent = node_parent;\n                return USH_STATUS_OK;",
     "                node->next = node_parent->children;\n                node_parent->children = node;\n                node->parent = node_parent;\n                if (self->current_node == node_parent && node_parent->parent != NULL && node->next != NULL)\n                        self->current_node = node_parent->parent->children;\n                return USH_STATUS_OK;")],
     "mounting a second directory below the current one, which is not the latest child of its parent", "the current directory changes",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/b", &n2, NULL, 0); settle(&sh); type(&sh, "cd a\\n"); ush_node_mount(&sh, "/a/x", &n3, NULL, 0); CHECK(strstr(type(&sh, "\\n"), "[h a]$")); ush_node_mount(&sh, "/a/y", &n4, NULL, 0); CHECK(strstr(type(&sh, "\\n"), "[h a]$"));'''))

    seed("C14-newest", "C14", [(F + "ush_commands.c",
     "        node->next = self->commands;\n        self->commands = node;\n",
     "        node->next = self->commands;\n        if (self->commands != NULL && self->commands->next != NULL && self->commands->file_list == file_list) {\n                /* keep equal groups together */\n                node->next = self->commands->next;\n        }\n        self->commands = node;\n")],
     "registering a table again that is the latest group", "the older registration is lost, so that removing the new one removes the commands",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "cc", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &gb, a, 1); settle(&sh); ush_commands_remove(&sh, &gb); type(&sh, "cc\\n"); SAME(log_, "cc;");'''))

    seed("C14-builtin", "C14", [(F + "ush_commands.c",
     "                if (prev == NULL) {\n                        self->commands = node->next;",
     "                if (prev == NULL) {\n                        self->commands = node->next;\n                        if (self->commands == NULL)\n                                self->commands = &self->buildin_commands;")],
     "removing the last group after the built-in one", "the built-in commands come back",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "cc", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 1); settle(&sh); ush_commands_remove(&sh, &sh.buildin_commands); ush_commands_remove(&sh, &ga); CHECK(strstr(type(&sh, "pwd\\n"), "syntax error"));'''))

    seed("C15-echo", "C15", [(F + "ush_read_utils.c", "void ush_read_echo_service(struct ush_object *self, char ch)\n{\n", "void ush_read_echo_service(struct ush_object *self, char ch)\n{\n        /* keep output buffer for the application */\n        static char echo[4];\n\n"),
      (F + "ush_read_utils.c", "                self->desc->output_buffer[0] = ch;\n                self->desc->output_buffer[1] = '\\n';\n                self->desc->output_buffer[2] = '\\0';", "                echo[0] = ch;\n                echo[1] = '\\n';\n                echo[2] = '\\0';"),
      (F + "ush_read_utils.c", "                self->desc->output_buffer[0] = '\\x08';\n                self->desc->output_buffer[1] = ' ';\n                self->desc->output_buffer[2] = '\\x08';\n                self->desc->output_buffer[3] = '\\0';", "                echo[0] = '\\x08';\n                echo[1] = ' ';\n                echo[2] = '\\x08';\n                echo[3] = '\\0';"),
      (F + "ush_read_utils.c", "                self->desc->output_buffer[0] = ch;\n                self->desc->output_buffer[1] = '\\0';", "                echo[0] = ch;\n                echo[1] = '\\0';"),
      (F + "ush_read_utils.c", "        ush_write_pointer(self, self->desc->output_buffer, next);", "        ush_write_pointer(self, echo, next);")],
     "two shells that echo at the same time", "one echoes the key of the other",
     T + '''static struct ush_node_object root, root2;
int main(void) { sh_new(&sh); sh_new(&sh2); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh2, "/", &root2, NULL, 0); settle(&sh); settle(&sh2);
 term_of(&sh)->out_len = 0; term_of(&sh2)->out_len = 0; feed(&sh, "abc"); feed(&sh2, "xyz");
 for (int i = 0; i < 100; i++) { ush_service(&sh); ush_service(&sh2); }
 SAME(term_of(&sh)->out, "abc"); SAME(term_of(&sh2)->out, "xyz"); return g_bad; }''')

    seed("C15-lsflags", "C15", [(C + "ush_cmd_ls.c",
     '                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);\n                        ush_write_pointer(self, self->desc->output_buffer, self->state);',
     '                        static char flags[8];\n                        snprintf(flags, self->desc->output_buffer_size < sizeof(flags) ? self->desc->output_buffer_size : sizeof(flags), "-%c%c%c%c ", is_read, is_write, is_exec, is_help);\n                        ush_write_pointer(self, flags, self->state);')],
     "two shells listing files with different flags at the same time", "one shows the flags of the other's file",
     T + '''static const struct ush_file_descriptor fa[] = { { .name = "a", .exec = x_exec } }, fb[] = { { .name = "b", .help = "h" } };
static struct ush_node_object root, root2;
int main(void) { sh_new(&sh); sh_new(&sh2); ush_node_mount(&sh, "/", &root, fa, 1); ush_node_mount(&sh2, "/", &root2, fb, 1); settle(&sh); settle(&sh2);
 term_of(&sh)->out_len = 0; term_of(&sh2)->out_len = 0; feed(&sh, "ls\\n"); feed(&sh2, "ls\\n");
 for (int i = 0; i < 500; i++) { ush_service(&sh); ush_service(&sh2); }
 CHECK(strstr(term_of(&sh)->out, "---x- a")); CHECK(strstr(term_of(&sh2)->out, "----h b")); return g_bad; }''')

    seed("C13-reuse", "C13", [(C + "ush_cmd_ls.c", "                        char *name = ush_utils_path_last(self->process_child_node->path);\n",
     "                        static struct ush_node_object *last_node;\n                        static char *name;\n                        if (last_node != self->process_child_node)\n                                name = ush_utils_path_last(self->process_child_node->path);\n                        last_node = self->process_child_node;\n")],
     "an entry unmounted and the same object mounted elsewhere between two listings", "the old name is listed",
     main('', '''char p1[] = "/old", p2[] = "/new"; ush_node_mount(&sh, p1, &n1, NULL, 0); settle(&sh); type(&sh, "ls\\n"); ush_node_unmount(&sh, p1); ush_node_mount(&sh, p2, &n1, NULL, 0); CHECK(strstr(type(&sh, "ls\\n"), "new/"));'''))

    seed("C16-escape", "C16", [(F + "ush_read_utils.c", "        self->state = USH_STATE_READ_CHAR;\n        self->ansi_escape_state = 0;", "        self->state = USH_STATE_READ_CHAR;")],
     "Ctrl-C or a reset between the bytes of an escape sequence", "the first key of the new line is swallowed",
     main('{ .name = "x", .exec = x_exec }', '''settle(&sh); type(&sh, "ab\\033\\003x\\n"); SAME(log_, "x;");'''))

    seed("C16-deinit-wide", "C16", [(F + "ush_node.c", "                if (curr->children != NULL)\n                        ush_node_deinit_recursive(self, curr->children);\n",
     "                if (curr->children != NULL && (curr->next != NULL || curr->parent == NULL || curr->parent->parent == NULL))\n                        ush_node_deinit_recursive(self, curr->children);\n")],
     "deinit of a tree with three levels below the root", "the lowest directories keep their old content",
     main('', '''struct ush_node_object zero; memset(&zero, 0, sizeof zero); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); ush_node_mount(&sh, "/a/b/c", &n3, NULL, 0); settle(&sh);
 ush_deinit(&sh); CHECK(!memcmp(&n1, &zero, sizeof zero)); CHECK(!memcmp(&n2, &zero, sizeof zero)); CHECK(!memcmp(&n3, &zero, sizeof zero));'''))

    seed("C16-partial-init", "C16", [(F + "ush.c", "        self->desc = desc;\n        self->root = NULL;\n        self->commands = NULL;\n", "        self->desc = desc;\n        self->root = NULL;\n        if (self->commands != &self->buildin_commands)\n                self->commands = NULL;\n        else\n                self->commands = self->buildin_commands.next;\n")],
     "ush_init on an object that is in use without ush_deinit before", "command groups of the previous life stay registered",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "cc", .exec = x_exec } };
 settle(&sh); ush_commands_remove(&sh, &sh.buildin_commands); ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &sh.buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
 ush_init(&sh, sh.desc); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh); CHECK(strstr(type(&sh, "cc\\n"), "syntax error"));''', pre='extern const struct ush_file_descriptor g_ush_buildin_commands[]; extern const size_t g_ush_buildin_commands_num;\n'))

    seed("C17-busy", "C17", [(F + "ush.c", "        if (ush_write_service(self) != false)\n                return true;", "        if (ush_write_service(self) != false)\n                return (self->write_pos > 0);")],
     "the link refuses the first byte of a message", "the service call reports that nothing is to be done although output is waiting",
     main('', '''settle(&sh); term_of(&sh)->refuse_every = 1; feed(&sh, "pwd\\n"); int end = 0; for (int i = 0; i < 200; i++) { size_t r = term_of(&sh)->reads; int b = ush_service(&sh); if (!b && r == term_of(&sh)->reads) end++; } CHECK(end < 2);'''))

    seed("C17-stuck", "C17", [(C + "ush_cmd_cat.c", "                self->process_index_item++;\n                break;", "                if (data_size > 0 || self->process_index_item > 1)\n                        self->process_index_item++;\n                break;")],
     "cat whose first file returns no data", "the command asks for the data again and again",
     main('{ .name = "f", .get_data = g1 }, { .name = "g", .get_data = g1 }', '''settle(&sh); data_n = 0; feed(&sh, "cat f\\n"); for (int i = 0; i < 2000; i++) ush_service(&sh); CHECK(gets_ < 3);''', pre=GET))

    seed("C18-off-by-one", "C18", [(F + "ush.c", "            written_size_ideal > written_size_real) /* Available output_buffer to small */", "            written_size_ideal > (int)write_size_max) /* Available output_buffer to small */")],
     "a formatted text that is exactly as long as the output buffer", "its last character is cut off silently",
     main('{ .name = "x", .exec = p }', '''settle(&sh); CHECK(strstr(type(&sh, "x\\n"), "overflow error"));''', pre='static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_printf(s, "%s", "0123456789abcdef0123456789abcdef"); }\n'), defs="#define OUT_SIZE 32\n")

    seed("C18-format", "C18", [(F + "ush.c", "                if (written_size_ideal < 0) {\n                        error_msg = error_format;", "                if (written_size_ideal < 0 && insert_idx == 0) {\n                        error_msg = error_format;")],
     "a format error in the second formatted print of a callback", "an overflow is reported instead",
     main('{ .name = "x", .exec = p }', '''settle(&sh); CHECK(strstr(type(&sh, "x\\n"), "format error"));''', pre='#include <wchar.h>\nstatic void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { wchar_t w[2] = { (wchar_t)0x7fffffff, 0 }; ush_printf(s, "ab"); ush_printf(s, "%ls", w); }\n'))

    seed("C19-cols", "C19", [(C + "ush_cmd_xxd.c", "                                self->process_index_item++;\n                        }\n", "                        }\n                        self->process_index_item += 8;\n"),
      (C + "ush_cmd_xxd.c", "                                size_t offset = self->process_index_item;\n", "                                size_t offset = self->process_index_item + i;\n")],
     "a build with a column count other than 8", "the dump repeats or skips bytes",
     main('{ .name = "f", .get_data = g1 }', '''settle(&sh); data_n = 20; const char *o = type(&sh, "xxd f\\n"); CHECK(strstr(o, "00000010: ")); CHECK(!strstr(o, "00000008: "));''', pre=GET), extra="CFG:COLS=16")

    seed("C19-align", "C19", [(C + "ush_cmd_help.c", '"%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW', '"%-16s " USH_SHELL_FONT_COLOR_YELLOW')],
     "a build with another alignment column", "the command list is aligned to column 16",
     main('', '''settle(&sh); CHECK(strstr(type(&sh, "help\\n"), "\\ncat    "));CHECK(!strstr(type(&sh, "help\\n"), "\\ncat             "));'''), extra="CFG:ALIGN=8")

    seed("C19-tab", "C19", [(F + "ush_read_char.c", "                ush_autocomp_start(self);\n#endif /* USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE */\n                echo = false;", "                ush_autocomp_start(self);\n                echo = false;\n#endif /* USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE */")],
     "a TAB in a build without completion", "the TAB is echoed although it does not enter the line",
     main('', '''settle(&sh); SAME(type(&sh, "a\\tb"), "ab");'''), extra="CFG:TAB=0")

    seed("C12-sprintf", "C12", [(C + "ush_cmd_ls.c", 'snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ",', 'sprintf(self->desc->output_buffer, "-%c%c%c%c ",')],
     "ls on a shell with an output buffer of four to six bytes", "the buffer is written past its end",
     main('{ .name = "x", .exec = x_exec }', '''settle(&sh); type(&sh, "ls\\n");'''), defs="#define OUT_SIZE 4\n")

    seed("C12-readwrap", "C12", [(F + "ush_read_utils.c", "                if (self->in_pos >= self->desc->input_buffer_size)\n                        self->in_pos = 0;\n                self->desc->input_buffer[self->in_pos] = '\\0';\n        } else if", "                if (self->in_pos > self->desc->input_buffer_size - (ch == '\\n'))\n                        self->in_pos = 0;\n                self->desc->input_buffer[self->in_pos] = '\\0';\n        } else if")],
     "", "", "")
    SKIP.add("C12-readwrap")

    seed("C12-levels", "C12", [(F + "ush_utils.c", "                path++;\n                if (*path == '/')\n                        count++;", "                path++;\n                if (*path == '/' && (count < 4 || path[1] != '.'))\n                        count++;")],
     "a path with five or more components one of which, behind the fourth, starts with a dot", "the arrays for its components are too small and are written past their end",
     main('', '''settle(&sh); type(&sh, "ls /a/../b/../c/./d/./e/./f\\n");'''))

    seed("C03-vt", "C03", [(F + "ush_parse_utils.c", "                switch (ch) {\n                case ' ':\n                        self->desc->input_buffer[self->out_pos++] = '\\0';", "                switch (ch) {\n                case '\\v':\n                case ' ':\n                        self->desc->input_buffer[self->out_pos++] = '\\0';")],
     "a vertical tab in a word", "the word is split there",
     main('{ .name = "x", .exec = x_exec }', '''settle(&sh); type(&sh, "x a\\013b\\n"); SAME(log_, "x|a\\013b;");'''))

    seed("C03-quoted-x", "C03", [(F + "ush_parse_utils.c", "                case '\\\\':\n                        self->escape_flag = true;\n                        self->args_count++;\n                        self->state = USH_STATE_PARSE_STANDARD_ARG;\n                        break;",
      "                case '\\\\':\n                        self->escape_flag = true;\n                        self->args_count++;\n                        self->state = (self->args_count > 1 && self->desc->input_buffer[self->in_pos] == ' ') ? USH_STATE_PARSE_QUOTE_ARG : USH_STATE_PARSE_STANDARD_ARG;\n                        break;")],
     "an argument that starts with an escaped space", "the following spaces do not end it",
     main('{ .name = "x", .exec = x_exec }', '''settle(&sh); type(&sh, "x \\\\ a b\\n"); SAME(log_, "x| a|b;");'''))

    seed("C04-long", "C04", [(F + "ush_file.c", "                        if (strcmp(file->name, name) == 0)\n                                return file;\n                }\n                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path", "                        if (strncmp(file->name, name, 24) == 0)\n                                return file;\n                }\n                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path")],
     "command names that differ only behind the 24th character", "the wrong one runs",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "a_command_with_a_long_name_1", .exec = x_exec }, { .name = "a_command_with_a_long_name_2", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 2); settle(&sh); type(&sh, "a_command_with_a_long_name_2\\n"); SAME(log_, "a_command_with_a_long_name_2;");'''))

    seed("C04-general", "C04", [(F + "ush_parse.c", "        if (self->desc->exec != NULL)\n                self->desc->exec(self, NULL, argc, argv);\n", "        if (self->desc->exec != NULL && (argc > 1 || argv[0][0] != '\\0'))\n                self->desc->exec(self, NULL, argc, argv);\n")],
     "a line that consists of an empty quoted word", "the general callback is not called",
     main('', '''static struct ush_descriptor d2; d2 = *sh.desc; d2.exec = x_gen; sh.desc = &d2; settle(&sh); type(&sh, "\\"\\"\\n"); SAME(log_, "gen;");''', pre='static void x_gen(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { note("gen;"); }\n'))

    seed("C05-slash", "C05", [(F + "ush_node_utils.c", "        if (path[0] == '\\0')\n                return USH_STATUS_ERROR_NODE_NOT_FOUND;\n", "        if (path[0] == '\\0' || (path[0] == '.' && path[1] == '/'))\n                return USH_STATUS_ERROR_NODE_NOT_FOUND;\n")],
     "cd to a path that starts with ./", "the directory is not found",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); settle(&sh); CHECK(strstr(type(&sh, "cd ./a\\n"), "[h a]$"));'''))

    seed("C05-name", "C05", [(F + "ush_file.c", "        curr = ush_node_get_parent_by_path(self, abs_path);      \n", "        curr = (strchr(name, '/') == NULL) ? self->current_node : ush_node_get_parent_by_path(self, abs_path);\n")],
     "a name without slash that is '..' or '.' resolving to a directory with a file of that path", "names with no slash are searched in the current directory and its siblings' files",
     "")
    SKIP.add("C05-name")

    seed("C06-wrap", "C06", [(C + "ush_cmd_cat.c", "                size_t data_size = f->get_data(self, f, &data);", "                uint16_t data_size = f->get_data(self, f, &data);")],
     "a file of 65536 bytes or more", "only the first bytes are printed",
     main('{ .name = "f", .get_data = g1 }', '''settle(&sh); data_n = 65537; memset(data, 'a', data_n); const char *o = type(&sh, "cat f\\n"); CHECK(term_of(&sh)->out_len > 65537);''', pre=GET))

    seed("C21-echo", "C21", [(C + "ush_cmd_echo.c", "                data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);", "                data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);\n                if (data_size > 64) {\n                        /* do not work on the input buffer */\n                        char *copy = strdup(data_in);\n                        if (copy != NULL)\n                                strcpy(data_in, copy);\n                        free(copy);\n                }"),
      (C + "ush_cmd_echo.c", "#include <string.h>\n", "#include <stdlib.h>\n#include <string.h>\n")],
     "echo of more than 64 bytes", "the library allocates memory",
     "static int g_count, g_n;\nchar *__real_strdup(const char *s);\nchar *__wrap_strdup(const char *s) { g_n += g_count; return __real_strdup(s); }\n" + main('', '''settle(&sh); feed(&sh, "echo 0123456789012345678901234567890123456789012345678901234567890123456789\\n"); g_count = 1; settle(&sh); g_count = 0; CHECK(g_n == 0);'''), extra="STRDUP")

    seed("C21-recursion", "C21", [(F + "ush_autocomp_state.c", "        if (ush_autocomp_process_file_prepare(self, &file) != false)\n                return;\n", "        if (ush_autocomp_process_file_prepare(self, &file) != false) {\n                /* look at the next one at once */\n                if (self->process_node != NULL)\n                        ush_autocomp_state_candidates_process(self);\n                return;\n        }\n")],
     "completion in a directory with many files that do not match", "the stack grows with the number of files",
     T + r'''
#include <pthread.h>
#define N 20000
static struct ush_file_descriptor files[N]; static char names[N][8];
static struct ush_node_object root;
static void *run(void *p) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, N); settle(&sh); type(&sh, "nomatch\t"); return NULL; }
int main(void) { for (int i = 0; i < N; i++) { sprintf(names[i], "f%d", i); files[i].name = names[i]; } pthread_attr_t a; pthread_t t; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 200000); pthread_create(&t, &a, run, NULL); pthread_join(t, NULL); return g_bad; }''', extra="THREAD")

    seed("C01-echo-high", "C01", [(F + "ush_write_utils.c", "        if (self->desc->io->write(self, ch) == 0)\n                return;\n        \n        self->write_pos++;", "        if (self->desc->io->write(self, ch) == 0) {\n                /* give up a message nobody listens to */\n                if (self->write_pos == 0 && self->write_next_state == USH_STATE_READ_CHAR && self->in_pos == 0)\n                        self->write_pos = self->write_size;\n                return;\n        }\n        \n        self->write_pos++;")],
     "the link refuses the echo of an erase that empties the line", "the echo is dropped",
     main('', '''settle(&sh); struct term *t = term_of(&sh); t->refuse_every = 1; t->offers = 0; SAME(type(&sh, "a\\010"), "a\\010 \\010");'''))

    seed("C02-esc-digit", "C02", [(F + "ush_read_utils.c", "                        /* left */\n                }\n                self->ansi_escape_state = 0;", "                        /* left */\n                } else if (ch == '~') {\n                        /* end of key sequence */\n                } else if (ch == '3') {\n                        /* delete */\n                        self->ansi_escape_state = 2;\n                        return false;\n                }\n                self->ansi_escape_state = 0;")],
     "an escape sequence with the digit 3", "the next key is swallowed as well",
     main('{ .name = "x", .exec = x_exec }', '''settle(&sh); type(&sh, "x a\\033[3b\\n"); SAME(log_, "x|ab;");'''))
    seed("C16-reset-lost", "C16", [(F + "ush_reset.c", "        self->current_node = self->root;\n", "        self->current_node = self->root;\n        if (self->state == USH_STATE_PROCESS_FINISH)\n                return;\n")],
     "a reset exactly when a running command is about to finish and its output is delivered", "no banner is printed",
     main('{ .name = "a", .get_data = g1 }', '''settle(&sh); data_n = 3; for (int at = 1; at < 400; at++) { feed(&sh, "xxd a\\n"); for (int i = 0; i < at; i++) ush_service(&sh); term_of(&sh)->out_len = 0; ush_reset(&sh); feed(&sh, ""); settle(&sh); CHECK(strstr(term_of(&sh)->out, "uShell")); }''', pre=GET))

    seed("C17-tab-busy", "C17", [(F + "ush.c", "        if (ush_autocomp_service(self) != false)\n                return true;", "        if (ush_autocomp_service(self) != false)\n                return (self->state != USH_STATE_AUTOCOMP_RECALL_SUFFIX);")],
     "a TAB with several candidates", "a service call in the middle of the completion reports that there is nothing to do",
     main('', '''settle(&sh); feed(&sh, "c\\t"); int end = 0; for (int i = 0; i < 400; i++) { size_t r = term_of(&sh)->reads; int b = ush_service(&sh); if (!b && r == term_of(&sh)->reads) end++; } CHECK(end == 0);'''))

    seed("C17-cat-refuse", "C17", [(F + "ush_write_utils.c", "        if (self->desc->io->write(self, ch) == 0)\n                return;\n", "        if (self->desc->io->write(self, ch) == 0) {\n                /* let the command produce its next piece first */\n                if (self->write_next_state == USH_STATE_PROCESS_START && self->write_pos == 0)\n                        self->write_size = 0;\n                return;\n        }\n")],
     "the link refuses the first byte of an entry of the command list", "that piece is lost",
     main('', '''settle(&sh); char want[4000]; strcpy(want, type(&sh, "help\\n")); term_of(&sh)->refuse_every = 1; term_of(&sh)->offers = 0; SAME(type(&sh, "help\\n"), want);'''))

    seed("C14-by-table", "C14", [(F + "ush_commands.c", "                if (curr != node) {", "                if (curr != node && (curr->file_list != node->file_list || curr->file_list_size < 3)) {")],
     "removing the older of two groups made from the same table of three or more commands", "the newer one is removed instead and stays in use after it was given back",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "ca", .exec = x_exec }, { .name = "cb", .exec = x_exec }, { .name = "cc", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 3); ush_commands_add(&sh, &gb, a, 3); settle(&sh); ush_commands_remove(&sh, &ga); CHECK(ush_commands_remove(&sh, &ga) != USH_STATUS_OK);'''))

    seed("C14-readd", "C14", [(F + "ush_commands.c", "        node->next = self->commands;\n        self->commands = node;\n", "        /* already registered */\n        if (self->commands != NULL && self->commands->next == node)\n                return USH_STATUS_OK;\n        node->next = self->commands;\n        self->commands = node;\n")],
     "", "", "")
    SKIP.add("C14-readd")

    seed("C15-xxd", "C15", [(C + "ush_cmd_xxd.c", "                        self->desc->output_buffer[0] = '\\0';\n                        for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {\n                                size_t offset = self->process_index_item + i;\n", "                        static const uint8_t *line;\n                        if (self->process_index_item == 0 || line == NULL)\n                                line = self->process_data;\n                        self->desc->output_buffer[0] = '\\0';\n                        for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {\n                                size_t offset = self->process_index_item + i;\n"),
      (C + "ush_cmd_xxd.c", "                                        uint8_t b = self->process_data[offset];\n                                        char hex[4];", "                                        uint8_t b = line[offset];\n                                        char hex[4];")],
     "two shells dumping files of more than one line at the same time", "the hex columns of one show the other's file",
     T + '''static uint8_t da[16], db[16];
static size_t ga(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { memset(da, 0x11, 16); *d = da; return 16; }
static size_t gb(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { memset(db, 0x22, 16); *d = db; return 16; }
static const struct ush_file_descriptor fa[] = { { .name = "a", .get_data = ga } }, fb[] = { { .name = "b", .get_data = gb } };
static struct ush_node_object root, root2;
int main(void) { sh_new(&sh); sh_new(&sh2); ush_node_mount(&sh, "/", &root, fa, 1); ush_node_mount(&sh2, "/", &root2, fb, 1); settle(&sh); settle(&sh2);
 term_of(&sh)->out_len = 0; term_of(&sh2)->out_len = 0; feed(&sh, "xxd a\\n"); feed(&sh2, "xxd b\\n");
 for (int i = 0; i < 2000; i++) { ush_service(&sh); ush_service(&sh2); }
 CHECK(strstr(term_of(&sh)->out, "00000008: 11 11")); CHECK(strstr(term_of(&sh2)->out, "00000008: 22 22")); return g_bad; }''')

    seed("C18-concat", "C18", [(F + "ush.c", "        self->write_size += written_size_real;\n", "        if (insert_idx + written_size_real > self->write_size)\n                self->write_size = insert_idx + written_size_real;\n        if (self->write_size > 100 && self->write_pos == 0 && insert_idx > 0)\n                self->write_size = 100;\n")],
     "two formatted prints of together more than 100 characters", "the rest is not printed",
     main('{ .name = "x", .exec = p }', '''settle(&sh); const char *o = type(&sh, "x\\n"); CHECK(strstr(o, "end."));''', pre='static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_printf(s, "%060d", 1); ush_printf(s, "%050dend.", 1); }\n'))

    seed("C18-status", "C18", [(F + "ush.c", "        ush_write_pointer(self, ret, USH_STATE_RESET);\n}", "        /* one line end is enough */\n        ush_write_pointer(self, ret, (self->state == USH_STATE_WRITE_CHAR && self->write_next_state == USH_STATE_RESET) ? USH_STATE_RESET_PROMPT : USH_STATE_RESET);\n}")],
     "a status printed after a text in the same callback", "the line end behind the status is missing",
     main('{ .name = "x", .exec = p }', '''settle(&sh); SAME(type(&sh, "x\\n"), "x\\nerror: file not found\\r\\n" PROMPT("/"));''', pre='static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_print(s, "abc"); ush_print_status(s, USH_STATUS_ERROR_FILE_NOT_FOUND); }\n'))

    seed("C11-reset", "C11", [(F + "ush_autocomp_state.c", "        self->autocomp_prev_count = 0;\n        self->autocomp_suffix_len = 0;\n        ush_autocomp_prepare_candidates(self);\n        self->state = USH_STATE_AUTOCOMP_CANDIDATES_COUNT;", "        self->autocomp_prev_count = 0;\n        self->autocomp_suffix_len = 0;\n        ush_autocomp_prepare_candidates(self);\n        if (self->in_pos > 0 && self->desc->input_buffer[self->in_pos - 1] == '>')\n                self->process_node = NULL;\n        self->state = USH_STATE_AUTOCOMP_CANDIDATES_COUNT;")],
     "TAB directly behind a '>' with a command whose name starts with '>'", "the commands are not candidates",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = ">>x", .exec = x_exec } };
 ush_commands_add(&sh, &ga, a, 1); settle(&sh); SAME(type(&sh, ">\\t"), ">>x");'''))

    seed("C11-space", "C11", [(F + "ush_utils.c", "        len--;\n        if (input[len] == ' ')\n                return (char*)&input[len + 1];\n", "        len--;\n        if (input[len] == ' ' && (len == 0 || input[len - 1] != ' '))\n                return (char*)&input[len + 1];\n")],
     "TAB behind two or more spaces", "the last space counts as part of the word",
     main('{ .name = "zz", .exec = x_exec }', '''ush_commands_remove(&sh, &sh.buildin_commands); settle(&sh); SAME(type(&sh, "x  \\t"), "x  zz");'''))

    seed("C04-name-space", "C04", [(F + "ush_file.c", "                        ush_utils_join_path(curr->path, file->name, file_path);\n                        if (strcmp(file_path, abs_path) == 0)\n", "                        ush_utils_join_path(curr->path, file->name, file_path);\n                        if (strcmp(file_path, abs_path) == 0 && (curr == self->current_node || file->exec == NULL || curr->children == NULL || name[0] == '/'))\n")],
     "a relative path to an executable in another directory that has child directories", "the file is not found",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "cc", .exec = x_exec } };
 ush_node_mount(&sh, "/d", &n1, a, 1); ush_node_mount(&sh, "/d/e", &n2, NULL, 0); settle(&sh); type(&sh, "d/cc\\n"); SAME(log_, "cc;");'''))

SKIP = set('C12-levels C17-tab-busy C14-by-table C18-concat C18-status C11-space C04-name-space C02-esc-digit C03-vt C05-slash C11-one C12-sprintf C14-builtin C14-newest C15-echo C15-lsflags C16-deinit-wide C16-escape C16-partial-init C17-busy C17-stuck C18-format C18-off-by-one C19-align C21-recursion'.split())
