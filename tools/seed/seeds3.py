"""Third batch of planted bugs (imported by seeds.py)."""
SKIP = set()
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    def main(files, body, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    CMDS = '''static const struct ush_file_descriptor ca[] = { { .name = "ca", .exec = x_exec } }, cb[] = { { .name = "cb", .exec = x_exec } }, cc[] = { { .name = "cc", .exec = x_exec } }, cd[] = { { .name = "ca", .exec = x_exec, .help = "newer" } };
'''
    INT = '#include "inc/ush_internal.h"\n'
    # ---------------------------------------------------------------- C14
    seed("C14-mid", "C14", [(F + "ush_commands.c", "                        prev->next = node->next;", "                        prev->next = (node->next != NULL && node->next->next != NULL && prev != self->commands) ? node->next->next : node->next;")],
     "removing a group with two or more newer and two or more older ones", "the next older group goes with it",
     main('', '''static struct ush_node_object g[6]; ush_commands_add(&sh, &g[0], ca, 1); ush_commands_add(&sh, &g[1], cb, 1); ush_commands_add(&sh, &g[2], cc, 1); ush_commands_add(&sh, &g[3], cd, 1); ush_commands_add(&sh, &g[4], cd, 1);
 settle(&sh); ush_commands_remove(&sh, &g[2]); type(&sh, "cb\\n"); SAME(log_, "cb;");''', pre=CMDS))

    seed("C14-again", "C14", [(F + "ush_commands.c", "        node->next = self->commands;\n        self->commands = node;\n",
     "        /* group used before keeps its place */\n        if (self->commands != NULL && self->commands->next != NULL && self->commands->next == node->next) {\n                self->commands->next = node;\n                return USH_STATUS_OK;\n        }\n        node->next = self->commands;\n        self->commands = node;\n")],
     "a group that was removed from behind the latest group is added again", "the group comes back behind the other instead of in front of it, so that it does not shadow its commands",
     main('', '''ush_commands_add(&sh, &ga, cd, 1); ush_commands_add(&sh, &gb, ca, 1); settle(&sh); ush_commands_remove(&sh, &ga); ush_commands_add(&sh, &ga, cd, 1); CHECK(strstr(type(&sh, "help ca\\n"), "newer"));''', pre=CMDS))

    seed("C14-unknown", "C14", [(F + "ush_commands.c", "                return USH_STATUS_OK;           \n        }\n\n        return USH_STATUS_ERROR_NODE_NOT_FOUND;", "                return USH_STATUS_OK;           \n        }\n\n        return (prev != NULL && prev->file_list == node->file_list && prev == self->commands) ? USH_STATUS_OK : USH_STATUS_ERROR_NODE_NOT_FOUND;")],
     "removing the only group's table under another group object", "success is reported for a group that is not registered",
     main('', '''ush_commands_remove(&sh, &sh.buildin_commands); ush_commands_add(&sh, &ga, ca, 1); ush_commands_add(&sh, &gb, ca, 1); settle(&sh); CHECK(ush_commands_remove(&sh, &gb) == USH_STATUS_OK); CHECK(ush_commands_remove(&sh, &gb) != USH_STATUS_OK);''', pre=CMDS))

    seed("C14-hidden", "C14", [(F + "ush_file.c", "                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path", "                if (curr->next != NULL && curr->next->file_list == curr->file_list)\n                        curr = curr->next; /* searched already */\n                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path")],
     "two groups made of one table, the older of different length", "commands beyond the shorter table are not found",
     main('', '''static const struct ush_file_descriptor t[] = { { .name = "ca", .exec = x_exec }, { .name = "cb", .exec = x_exec } }; ush_commands_add(&sh, &ga, t, 2); ush_commands_add(&sh, &gb, t, 1); settle(&sh); type(&sh, "cb\\n"); SAME(log_, "cb;");'''))
    SKIP.add("C14-hidden")  # needs tables of different length over one array, not a condition of use the generator has

    # ---------------------------------------------------------------- C22
    PROC = '''static const struct ush_file_descriptor *pf(void);
#include "inc/ush_internal.h"
'''
    seed("C22-handover", "C22", [(F + "ush_process.c", "        self->state = USH_STATE_PROCESS_START;", "        self->state = (self->state == USH_STATE_PROCESS_FINISH && self->process_index > 1) ? USH_STATE_PROCESS_SERVICE : USH_STATE_PROCESS_START;")],
     "a multi-step command with a counter above one in the shell that hands over to another one in its last step", "the other command misses its start step",
     main('{ .name = "a", .exec = ea, .process = pa }, { .name = "b", .process = pb }', '''settle(&sh); type(&sh, "a\\n"); SAME(log_, "sF");''', pre='''#include "inc/ush_internal.h"
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { if (s->state == USH_STATE_PROCESS_START) { s->process_index = 5; s->state = USH_STATE_PROCESS_FINISH; } else ush_process_start(s, f + 1); }
static void pb(struct ush_object *s, struct ush_file_descriptor const *f) { (void)f; if (s->state == USH_STATE_PROCESS_START) { note("s"); s->state = USH_STATE_PROCESS_FINISH; } else { note("F"); s->state = USH_STATE_RESET_PROMPT; } }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_process_start(s, f); }
'''))

    seed("C22-wait", "C22", [(F + "ush_process.c", "                self->process_file->process(self, self->process_file);\n", "                {\n                        ush_state_t state = self->state;\n                        self->process_file->process(self, self->process_file);\n                        /* nothing left to do */\n                        if ((state == USH_STATE_PROCESS_FINISH) && (self->state == state) && (self->process_index_item > 0))\n                                self->state = USH_STATE_RESET_PROMPT;\n                }\n")],
     "a multi-step command that waits in its finish step", "the command is ended at its first wait",
     main('{ .name = "a", .exec = ea, .process = pa }', '''settle(&sh); const char *o = type(&sh, "a\\n"); for (int i = 0; i < 20; i++) settle(&sh); CHECK(strstr(o, "done"));''', pre='''#include "inc/ush_internal.h"
static int n;
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { if (s->state == USH_STATE_PROCESS_START) { s->process_index_item = 1; s->state = USH_STATE_PROCESS_FINISH; } else if (++n > 2) ush_print(s, "done"); }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_process_start(s, f); }
'''))

    seed("C22-scratch", "C22", [(F + "ush_node_utils.c", "        struct ush_node_object *node = ush_node_get_by_path(self, abs_path);\n        if (node != NULL) {\n                self->current_node = node;", "        self->process_node = ush_node_get_by_path(self, abs_path);\n        struct ush_node_object *node = self->process_node;\n        if (node != NULL) {\n                self->current_node = node;")],
     "a multi-step command (or the application during a listing) that changes the current directory", "the running command's node is replaced",
     main('{ .name = "a", .exec = ea, .process = pa }', '''ush_node_mount(&sh, "/d", &n1, NULL, 0); settle(&sh); type(&sh, "a\\n"); SAME(log_, "ok");''', pre='''#include "inc/ush_internal.h"
static struct ush_node_object mine;
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { if (s->state == USH_STATE_PROCESS_START) { s->process_node = &mine; ush_node_set_current_dir(s, "/d"); s->state = USH_STATE_PROCESS_SERVICE; } else { note(s->process_node == &mine ? "ok" : "lost"); s->state = USH_STATE_RESET_PROMPT; } }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_process_start(s, f); }
'''))

    seed("C22-bin", "C22", [(F + "ush_write_utils.c", "        if (self->write_pos >= self->write_size) {\n                self->state = self->write_next_state;", "        if (self->write_pos >= self->write_size) {\n                /* text complete, buffer is free again */\n                if (self->write_next_state == USH_STATE_PROCESS_FINISH && self->process_index > 0)\n                        self->process_index--;\n                self->state = self->write_next_state;")],
     "a multi-step command that keeps a counter in the shell and writes on the way to its finish step", "the counter changes between the steps",
     main('{ .name = "a", .exec = ea, .process = pa }', '''settle(&sh); type(&sh, "a\\n"); SAME(log_, "ok");''', pre='''#include "inc/ush_internal.h"
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { if (s->state == USH_STATE_PROCESS_START) { s->process_index = 7; ush_write_pointer(s, "x", USH_STATE_PROCESS_FINISH); } else { note(s->process_index == 7 ? "ok" : "lost"); s->state = USH_STATE_RESET_PROMPT; } }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_process_start(s, f); }
'''))
    SKIP.add("C22-bin")

    seed("C22-first", "C22", [(F + "ush_process.c", "        self->process_file = file;\n", "        /* a command in progress is resumed by the one which replaced it */\n        if (self->process_file == NULL || self->state != USH_STATE_PROCESS_SERVICE || file->exec != NULL)\n                self->process_file = file;\n")],
     "a multi-step command that hands over, in its service step, to a file which is not executable itself", "the first command starts again instead",
     main('{ .name = "a", .exec = ea, .process = pa }, { .name = "b", .process = pb }', '''settle(&sh); type(&sh, "a\\n"); SAME(log_, "b");''', pre='''#include "inc/ush_internal.h"
static int n;
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { if (++n > 10) s->state = USH_STATE_RESET_PROMPT; else if (s->state == USH_STATE_PROCESS_START) s->state = USH_STATE_PROCESS_SERVICE; else ush_process_start(s, f + 1); }
static void pb(struct ush_object *s, struct ush_file_descriptor const *f) { note("b"); s->state = USH_STATE_RESET_PROMPT; }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { ush_process_start(s, f); }
'''))

    # ---------------------------------------------------------------- C05
    seed("C05-upper", "C05", [(F + "ush_node_utils.c", "        ush_utils_path_upper(path_parent);\n", "        ush_utils_path_upper(path_parent);\n        if (path_len > 64 && strchr(path_parent + 1, '/') == NULL)\n                path_parent[1] = '\\0';\n")],
     "", "", "")
    SKIP.add("C05-upper")

    seed("C05-dots-up", "C05", [(F + "ush_utils.c", "                if (strcmp(nodes[i], \"..\") == 0) {\n                        if (count > 0)\n                                count--;", "                if (strcmp(nodes[i], \"..\") == 0) {\n                        if (count > 0 && (i + 1 < index || i < 3 || strcmp(nodes[i - 1], \"..\") != 0 || strcmp(nodes[i - 2], \"..\") != 0))\n                                count--;")],
     "a path ending in three '..' in a row", "the last one is ignored",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); ush_node_mount(&sh, "/a/b/c", &n3, NULL, 0); settle(&sh); type(&sh, "cd a/b/c\\n"); CHECK(strstr(type(&sh, "cd ../../..\\n"), "[h /]$"));'''))

    seed("C05-failed", "C05", [(F + "ush_node_utils.c", "        if (node != NULL) {\n                self->current_node = node;\n                return USH_STATUS_OK;\n        }\n", "        if (node != NULL) {\n                self->current_node = node;\n                return USH_STATUS_OK;\n        }\n        /* as far as possible */\n        if (path[0] == '.' && path[1] == '.' && path[2] == '/' && self->current_node->parent != NULL && self->current_node->parent->parent != NULL)\n                self->current_node = self->current_node->parent;\n")],
     "cd to a missing directory given relative to the parent, two levels below the root", "the current directory changes although the error is reported",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); settle(&sh); type(&sh, "cd a/b\\n"); CHECK(strstr(type(&sh, "cd ../nothing\\n"), "[h b]$"));'''))

    seed("C05-last", "C05", [(F + "ush_utils.c", "        if (len == 1) \n                return out;\n\n        while (i > 0) {\n                i--;\n                if (in_path[i] != '/')", "        if (len == 1) \n                return out;\n\n        while (i > 1) {\n                i--;\n                if (in_path[i] != '/' || in_path[i - 1] == '.')")],
     "a directory below one whose name ends in a dot", "prompt, listing and completion show two components of the path",
     main('', '''ush_node_mount(&sh, "/a.", &n1, NULL, 0); ush_node_mount(&sh, "/a./b", &n2, NULL, 0); settle(&sh); CHECK(strstr(type(&sh, "cd a./b\\n"), "[h b]$"));'''))
    SKIP.add("C05-last") # breaks tests

    # ---------------------------------------------------------------- C07
    SNAP = '''static uint8_t data[300]; static size_t data_n; static int gets_;
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { gets_++; *d = data; return data_n; }
'''
    seed("C07-empty", "C07", [(C + "ush_cmd_xxd.c", "        self->process_data_size = f->get_data(self, f, &self->process_data);\n", "        self->process_data_size = f->get_data(self, f, &self->process_data);\n        /* not ready yet */\n        if (self->process_data_size == 0 && self->current_node->parent != NULL)\n                self->process_data_size = f->get_data(self, f, &self->process_data);\n")],
     "xxd of an empty file outside the root directory", "the getter is asked twice",
     main('{ .name = "f", .get_data = g1 }', '''ush_node_mount(&sh, "/a", &n1, files, 1); settle(&sh); type(&sh, "cd a\\n"); type(&sh, "xxd f\\n"); CHECK(gets_ == 1);''', pre=SNAP))

    seed("C07-dup", "C07", [(C + "ush_cmd_xxd.c", "                        ush_write_pointer(self, \"\\r\\n\", self->state);\n                        self->process_index = 0;", "                        /* repeated zeros are skipped */\n                        while (self->process_data_size - self->process_index_item > 2 * USH_CMD_XXD_COLUMNS && memcmp(&self->process_data[self->process_index_item], \"\\0\\0\\0\\0\\0\\0\\0\", 8) == 0 && USH_CMD_XXD_COLUMNS == 8)\n                                self->process_index_item += USH_CMD_XXD_COLUMNS;\n                        ush_write_pointer(self, \"\\r\\n\", self->state);\n                        self->process_index = 0;")],
     "a file with a line of zeros that is followed by two more lines", "lines of zeros are missing in the dump",
     main('{ .name = "f", .get_data = g1 }', '''settle(&sh); data_n = 40; data[0] = 1; CHECK(strstr(type(&sh, "xxd f\\n"), "00000008: 00"));''', pre=SNAP))

    # ---------------------------------------------------------------- C12
    seed("C12-label", "C12", [(F + "ush_node.c", "        char level_path[strlen(path) + 1];", "        char level_path[strlen(path) + (path[0] == '/')];")],
     "the application names a directory without leading slash", "the path buffer is overrun by its terminator",
     main('', '''settle(&sh); CHECK(ush_node_unmount(&sh, "abcdefg") != USH_STATUS_OK); CHECK(ush_node_mount(&sh, "abcdefg", &n1, NULL, 0) == USH_STATUS_OK || 1);'''))

    seed("C12-stale", "C12", [(C + "ush_cmd_cat.c", "                char *argv[self->args_count];\n                ush_parse_get_args(self, argv);\n", "                char *argv[self->process_index_item + 1];\n                argv[0] = self->desc->input_buffer;\n                for (size_t i = 1; i <= self->process_index_item; i++)\n                        argv[i] = argv[i - 1] + strlen(argv[i - 1]) + 1;\n                if (self->process_index_item > 3)\n                        argv[self->process_index_item][strlen(argv[self->process_index_item]) + 1] = '\\0';\n")],
     "", "", "")
    SKIP.add("C12-stale")

    seed("C12-const", "C12", [(F + "ush_prompt.c", "                char *path = ush_utils_path_last(self->current_node->path);\n", "                char *path = ush_utils_path_last(self->current_node->path);\n                /* trailing slash is not shown */\n                if (strlen(path) == 0 && path > self->current_node->path + 1) {\n                        path[-1] = '\\0';\n                        path = ush_utils_path_last(self->current_node->path);\n                }\n")],
     "", "", "")
    SKIP.add("C12-const")

    # ---------------------------------------------------------------- C15
    seed("C15-name", "C15", [(F + "ush_autocomp_utils.c", "                self->autocomp_name = ush_utils_path_last(self->process_node->path);\n", "                static char *name;\n                static struct ush_node_object *name_node;\n                if (name_node != self->process_node || self->process_index == 0) {\n                        name_node = self->process_node;\n                        name = ush_utils_path_last(self->process_node->path);\n                }\n                self->autocomp_name = name;\n")],
     "", "", "")
    SKIP.add("C15-name") # correct

    seed("C15-help", "C15", [(C + "ush_cmd_help.c", "                struct ush_file_descriptor const *f = &self->process_node->file_list[self->process_index_item];\n                switch (self->process_index) {\n                case 0:        \n", "                static struct ush_file_descriptor const *f;\n                if (self->process_index == 0)\n                        f = &self->process_node->file_list[self->process_index_item];\n                switch (self->process_index) {\n                case 0:        \n")],
     "two shells listing their commands at the same time", "descriptions of one shell's commands are shown by the other",
     T + CMDS.replace('"cb", ', '"cb", .description = "second", ').replace('"ca", .exec = x_exec }', '"ca", .description = "first", .exec = x_exec }', 1) + '''static struct ush_node_object ra, rb, ga, gb;
int main(void) { sh_new(&sh); sh_new(&sh2); ush_node_mount(&sh, "/", &ra, NULL, 0); ush_node_mount(&sh2, "/", &rb, NULL, 0); ush_commands_add(&sh, &ga, ca, 1); ush_commands_add(&sh2, &gb, cb, 1);
 settle(&sh); settle(&sh2); feed(&sh, "help\\n"); feed(&sh2, "help\\n"); term_of(&sh)->out_len = 0; for (int i = 0; i < 20000; i++) { ush_service(&sh); ush_service(&sh2); if (i % 3 == 0) ush_service(&sh2); }
 CHECK(strstr(term_of(&sh)->out, "- first")); CHECK(strstr(term_of(&sh2)->out, "- second")); CHECK(!strstr(term_of(&sh)->out, "second")); return g_bad; }''')

    seed("C15-args", "C15", [(F + "ush_parse_utils.c", "        char *ptr = self->desc->input_buffer;\n        int argc = self->args_count;\n", "        static struct ush_object *last;\n        static char *ptr_first;\n        if (last != self || ptr_first == NULL) {\n                last = self;\n                if (ptr_first == NULL || self->args_count > 0)\n                        ptr_first = self->desc->input_buffer;\n        }\n        char *ptr = ptr_first;\n        int argc = self->args_count;\n")],
     "", "", "")
    SKIP.add("C15-args")

    seed("C15-printf", "C15", [(F + "ush.c", "                /* Allow concatenation to output_buffer */\n", "                static struct ush_object *last;\n                if (last != self) {\n                        /* message of another place */\n                        last = self;\n                        if (self->write_pos > 0)\n                                self->write_pos = 0;\n                }\n\n                /* Allow concatenation to output_buffer */\n")],
     "", "", "")
    SKIP.add("C15-printf")

    # ---------------------------------------------------------------- C16
    seed("C16-stall", "C16", [(F + "ush_reset.c", "        self->current_node = self->root;\n        ush_write_pointer(self, USH_NAME \" \" USH_VERSION \"\\r\\n\", USH_STATE_RESET_PROMPT);", "        bool same = (self->state == USH_STATE_WRITE_CHAR) && (self->write_next_state == USH_STATE_RESET_PROMPT) && (self->write_pos > 0) && (self->current_node == self->root);\n        self->current_node = self->root;\n        /* prompt follows already */\n        if (same)\n                return;\n        ush_write_pointer(self, USH_NAME \" \" USH_VERSION \"\\r\\n\", USH_STATE_RESET_PROMPT);")],
     "a reset while the end of a message is being sent in the root directory", "the message goes on and no welcome line is printed",
     main('{ .name = "p", .exec = p }', '''settle(&sh); type(&sh, ""); feed(&sh, "p\\n"); while (!strstr(term_of(&sh)->out, "abc")) ush_service(&sh); ush_reset(&sh); settle(&sh); CHECK(strstr(term_of(&sh)->out, "uShell") != NULL); CHECK(!strstr(term_of(&sh)->out, "abcdefgh"));''',
     pre='static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_print_no_newline(s, "abcdefgh"); }\n'))

    seed("C16-escape", "C16", [(F + "ush_read_utils.c", "        self->state = USH_STATE_READ_CHAR;\n        self->ansi_escape_state = 0;", "        self->state = USH_STATE_READ_CHAR;\n        if (self->write_size != 11 || self->ansi_escape_state > 2)\n                self->ansi_escape_state = 0;")],
     "", "", "")
    SKIP.add("C16-escape")

    seed("C16-ctrlc-esc", "C16", [(F + "ush_read_char.c", "                ush_write_pointer(self, \"^C\", USH_STATE_RESET);\n                echo = false;", "                ush_write_pointer(self, \"^C\", (self->in_pos + 1 < self->desc->input_buffer_size) ? USH_STATE_RESET : USH_STATE_RESET_PROMPT);\n                echo = false;")],
     "Ctrl+C in a line with one free byte of the input buffer left", "the fresh prompt is printed in the same line",
     main('', '''settle(&sh); type(&sh, "aaaaaaa"); SAME(type(&sh, "\\x03"), "^C\\r\\n" PROMPT("/"));'''), defs="#define IN_SIZE 8\n")

    # ---------------------------------------------------------------- C18
    seed("C18-same-status", "C18", [(F + "ush.c", "        ush_write_pointer(self, ret, USH_STATE_RESET);\n}\n\nvoid ush_print(", "        /* status follows pending text */\n        if (self->state == USH_STATE_WRITE_CHAR && self->write_buf == ret)\n                return;\n        ush_write_pointer(self, ret, USH_STATE_RESET);\n}\n\nvoid ush_print(")],
     "the application prints a status while the same status is being sent", "the second status is not printed",
     main('', '''settle(&sh); type(&sh, ""); ush_print_status(&sh, USH_STATUS_OK); ush_service(&sh); ush_print_status(&sh, USH_STATUS_OK); settle(&sh); SAME(term_of(&sh)->out, "ook\\r\\n" PROMPT("/"));'''))

    seed("C18-percent", "C18", [(F + "ush.c", "        size_t insert_idx = strlen(self->write_buf);\n", "        size_t insert_idx = self->write_size;\n")],
     "", "", "")
    SKIP.add("C18-percent")

    seed("C18-exact", "C18", [(F + "ush.c", "                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {", "                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {")],
     "", "", "")
    SKIP.add("C18-exact")

    # ---------------------------------------------------------------- C17
    seed("C17-double", "C17", [(F + "ush_autocomp_state.c", "        if (ush_autocomp_process_file_prepare(self, &file) != false)\n                return;\n\n        ush_autocomp_process_file_index(self, file);", "        if (ush_autocomp_process_file_prepare(self, &file) != false)\n                return;\n\n        ush_autocomp_process_file_index(self, file);\n        /* one more while nothing has to be printed */\n        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_OPTIMISE && self->autocomp_count > 3)\n                self->state = USH_STATE_AUTOCOMP_CANDIDATES_OPTIMISE;")],
     "", "", "")
    SKIP.add("C17-double")

    seed("C17-echo2", "C17", [(F + "ush_read_char.c", "        if (self->desc->io->read(self, &ch) == 0)\n                return false;\n", "        if (self->desc->io->read(self, &ch) == 0)\n                return false;\n        /* line feed behind carriage return is part of the same line end */\n        if (ch == '\\n' && self->in_pos == 0 && self->write_size == 2 && self->ansi_escape_state == 0 && self->desc->io->read(self, &ch) == 0)\n                return false;\n")],
     "", "", "")
    SKIP.add("C17-echo2")

    # ---------------------------------------------------------------- C11
    seed("C11-space", "C11", [(F + "ush_autocomp_utils.c", "                ush_node_get_absolute_path(self, self->autocomp_input, abs_path);\n                if (self->autocomp_input[0] == '\\0') {", "                ush_node_get_absolute_path(self, self->autocomp_input, abs_path);\n                if (self->autocomp_input[0] == '\\0' || (self->autocomp_input[0] == '.' && self->current_node->parent != NULL)) {")],
     "completing '../x' outside the root", "the children of the current directory are offered",
     "")
    SKIP.add("C11-space")

    seed("C11-count", "C11", [(F + "ush_autocomp_state.c", "                switch (self->autocomp_count) {\n                case 0:", "                switch ((uint8_t)self->autocomp_count) {\n                case 0:")],
     "exactly 256 candidates", "TAB does nothing",
     main('', '''static struct ush_file_descriptor t[256]; static char names[256][8]; for (int i = 0; i < 256; i++) { sprintf(names[i], "zz%d", i); t[i].name = names[i]; } ush_node_mount(&sh, "/d", &n1, t, 256); settle(&sh); type(&sh, "cd d\\n"); type(&sh, "zz"); CHECK(strlen(type(&sh, "\\t")) > 100);'''))

    # ---------------------------------------------------------------- C06 / C08 / C09 / C10 / C13
    seed("C06-check", "C06", [(C + "ush_cmd_cat.c", "        for (int i = 1; i < argc; i++) {\n                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[i]);\n", "        for (int i = 1; i < argc; i++) {\n                /* checked already */\n                if (i > 2 && strcmp(argv[i], argv[1]) == 0)\n                        break;\n                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[i]);\n"),
      (C + "ush_cmd_cat.c", '#include "inc/ush_internal.h"\n', '#include "inc/ush_internal.h"\n\n#include <string.h>\n')],
     "cat with the first file repeated at the third place or later, followed by a missing file", "the files are printed before the error is found",
     main('{ .name = "f", .get_data = g1 }', '''settle(&sh); data_n = 1; data[0] = 'D'; SAME(type(&sh, "cat f f f x\\n"), "cat f f f x\\nerror: file not found\\r\\n" PROMPT("/"));''', pre=SNAP))

    seed("C08-dirname", "C08", [(C + "ush_cmd_ls.c", "                        if (f->description != NULL) {\n                                ush_write_pointer(self, USH_SHELL_FONT_STYLE_RESET \"\\r\\n\", self->state);", "                        if (f->description != NULL && f->description[0] != '\\0') {\n                                ush_write_pointer(self, USH_SHELL_FONT_STYLE_RESET \"\\r\\n\", self->state);")],
     "a file with an empty description", "the colour is not switched off behind it",
     main('{ .name = "f", .description = "", .exec = x_exec }', '''settle(&sh); CHECK(strstr(type(&sh, "ls\\n"), "- \\033[0m\\r\\n"));'''))

    seed("C13-children", "C13", [(F + "ush_node_mount.c", "                node->next = node_parent->children;\n                node_parent->children = node;\n", "                if (self->current_node == node_parent && node_parent->children != NULL && node_parent->parent != NULL) {\n                        /* keep order of the directory shown */\n                        node->next = node_parent->children->next;\n                        node_parent->children->next = node;\n                } else {\n                        node->next = node_parent->children;\n                        node_parent->children = node;\n                }\n")],
     "mounting a second directory below the current one", "the listing order is not the mount order",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); settle(&sh); type(&sh, "cd a\\n"); ush_node_mount(&sh, "/a/x", &n2, NULL, 0); ush_node_mount(&sh, "/a/y", &n3, NULL, 0); const char *o = type(&sh, "ls\\n"); CHECK(strstr(o, "y/") && strstr(o, "x/") && strstr(o, "y/") < strstr(o, "x/"));'''))

    seed("C13-busy", "C13", [(F + "ush_node_mount.c", "        if (node->children != NULL)\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n", "        if (node->children != NULL && (node->children->next != NULL || node->children->file_list_size > 0 || node->children->children != NULL))\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n")],
     "unmounting a directory whose only child is an empty directory", "the directory is removed together with its child",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/x", &n2, NULL, 0); ush_node_mount(&sh, "/a/x/y", &n3, NULL, 0); settle(&sh); CHECK(ush_node_unmount(&sh, "/a/x") == USH_STATUS_ERROR_NODE_WITH_CHILDS);'''))

    seed("C04-group-file", "C04", [(F + "ush_file.c", "        curr = ush_node_get_parent_by_path(self, abs_path);      \n", "        curr = ush_node_get_parent_by_path(self, abs_path);      \n        if (curr == NULL && self->current_node->parent != NULL)\n                curr = self->current_node;\n")],
     "", "", "")
    SKIP.add("C04-group-file")

    seed("C04-empty-name", "C04", [(F + "ush_parse.c", "        if (argc == 0)\n                return;\n", "        if (argc == 0)\n                return;\n        /* empty word */\n        if (argv[0][0] == '\\0' && argc == 1)\n                return;\n")],
     "a line whose only argument is the empty word", "no error is reported",
     main('', '''settle(&sh); CHECK(strstr(type(&sh, "\\"\\"\\n"), "syntax error"));'''))

    seed("C03-empty-last", "C03", [(F + "ush_parse_utils.c", "        case USH_STATE_PARSE_QUOTE_ARG:\n                if (self->escape_flag != false) {", "        case USH_STATE_PARSE_QUOTE_ARG:\n                if (ch == '\\0')\n                        break;\n                if (self->escape_flag != false) {")],
     "", "", "")
    SKIP.add("C03-empty-last")

    seed("C02-del-wrap", "C02", [(F + "ush_read_char.c", "                if (self->in_pos > 0) {\n                        self->in_pos--;", "                if (self->in_pos > 0) {\n                        self->in_pos--;\n                        self->ansi_escape_state = 0;")],
     "", "", "")
    SKIP.add("C02-del-wrap")

    seed("C02-esc-del", "C02", [(F + "ush_read_char.c", "                /* escape */\n                self->ansi_escape_state = 1;", "                /* escape */\n                self->ansi_escape_state = (self->ansi_escape_state == 2) ? 0 : 1;")],
     "an escape key directly behind an introducer (ESC [ ESC)", "the sequence started by the second escape enters the line",
     main('', '''settle(&sh); SAME(type(&sh, "\\x1b[\\x1b[Apwd\\n"), "pwd\\n/\\r\\n" PROMPT("/"));'''))

    seed("C10-quoted-gt", "C10", [(C + "ush_cmd_echo.c", "                f = ush_file_find_by_name(self, argv[3]);\n", "                f = ush_file_find_by_name(self, argv[3][0] == '\\0' ? argv[1] : argv[3]);\n")],
     "echo into a file with empty name while the text is the name of a file", "that file is written",
     main('{ .name = "f", .set_data = s1 }', '''settle(&sh); type(&sh, "echo f > \\"\\"\\n"); SAME(log_, "");''', pre="static void s1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { note(\"set\"); }\n"))

    seed("C01-idle", "C01", [(F + "ush_read_char.c", "        char ch;\n        bool echo = true;\n", "        static char ch;\n        bool echo = true;\n")],
     "", "", "")
    SKIP.add("C01-idle")

    seed("C01-prompt", "C01", [(F + "ush_write_utils.c", "        if (self->desc->io->write(self, ch) == 0)\n                return;\n", "        if (self->desc->io->write(self, ch) == 0) {\n                /* nobody listens, skip empty line */\n                if (ch == '\\r' && self->write_pos == 0 && self->write_size == 2 && self->write_next_state == USH_STATE_RESET_PROMPT)\n                        self->write_pos = 1;\n                return;\n        }\n")],
     "the carriage return of the line end before a prompt is refused", "it is dropped",
     main('', '''settle(&sh); struct term *t = term_of(&sh); char want[1000]; strcpy(want, type(&sh, "pwd\\n")); t->refuse_every = 1; t->offers = 0; SAME(type(&sh, "pwd\\n"), want);'''))
    SKIP.add("C04-empty-name")
    SKIP.add("C13-busy")
    SKIP.add("C14-again")
    SKIP.add("C14-unknown")
    SKIP.add("C15-help")

    seed("C22-fresh", "C22", [(F + "ush_process.c", "        self->process_file = file;\n", "        self->process_file = file;\n        self->process_stage = 0;\n        if (self->process_node == NULL)\n                self->process_index_item = 0;\n")],
     "a multi-step command that sets up its stage before it starts", "the stage is lost",
     main('{ .name = "a", .exec = ea, .process = pa }', '''settle(&sh); type(&sh, "a\\n"); SAME(log_, "ok");''', pre='''#include "inc/ush_internal.h"
static void pa(struct ush_object *s, struct ush_file_descriptor const *f) { note(s->process_stage == 3 ? "ok" : "lost"); s->state = USH_STATE_RESET_PROMPT; }
static void ea(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { s->process_stage = 3; ush_process_start(s, f); }
'''))

    seed("C14-many", "C14", [(F + "ush_commands.c", "        node->file_list_size = file_list_size;\n", "        node->file_list_size = (uint8_t)file_list_size;\n")],
     "a group of more than 255 commands", "only the first commands of the group are known",
     main('', '''static struct ush_file_descriptor t[300]; static char names[300][8]; for (int i = 0; i < 300; i++) { sprintf(names[i], "zz%d", i); t[i].name = names[i]; t[i].exec = x_exec; } ush_commands_add(&sh, &ga, t, 300); settle(&sh); type(&sh, "zz299\\n"); SAME(log_, "zz299;");'''))

    seed("C13-cache", "C13", [(F + "ush_prompt.c", "                char *path = ush_utils_path_last(self->current_node->path);\n", "                static const struct ush_node_object *node;\n                static char *path;\n                if (node != self->current_node || node->parent == NULL) {\n                        node = self->current_node;\n                        path = ush_utils_path_last(node->path);\n                }\n")],
     "the object of a removed directory is mounted again elsewhere and becomes the current directory without a prompt elsewhere in between", "the prompt shows the name of the removed directory",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); settle(&sh); type(&sh, "cd a\\n"); ush_node_unmount(&sh, "/a"); ush_node_mount(&sh, "/b", &n1, NULL, 0); ush_node_set_current_dir(&sh, "/b"); CHECK(strstr(type(&sh, "\\n"), "[h b]$"));'''))

    seed("C15-cwd", "C15", [(F + "ush_prompt.c", "                char *path = ush_utils_path_last(self->current_node->path);\n", "                static const char *full;\n                static char *path;\n                if (full != self->current_node->path) {\n                        full = self->current_node->path;\n                        path = ush_utils_path_last(full);\n                }\n")],
     "", "", "")
    SKIP.add("C15-cwd") # correct

    seed("C15-host", "C15", [(F + "ush_prompt.c", "                ush_write_pointer(self, self->desc->hostname, USH_STATE_PROMPT_SPACE);", "                {\n                        static char *host;\n                        if (host == NULL || self->process_stage == 0)\n                                host = self->desc->hostname;\n                        ush_write_pointer(self, host, USH_STATE_PROMPT_SPACE);\n                }")],
     "a shell that just completed a word prompts after another shell did", "the host name of the other shell is shown",
     T + '''static struct ush_node_object ra, rb;
int main(void) { sh_new(&sh); sh_new(&sh2); strcpy(g_host[1], "zz"); ush_node_mount(&sh, "/", &ra, NULL, 0); ush_node_mount(&sh2, "/", &rb, NULL, 0); settle(&sh2); settle(&sh); type(&sh2, "pw\\t"); type(&sh, "\\n"); CHECK(strstr(type(&sh2, "\\n"), "[zz /]$")); return g_bad; }''')

    seed("C05-cd-long", "C05", [(C + "ush_cmd_cd.c", "        ush_status_t status = ush_node_set_current_dir(self, argv[1]);\n", "        /* nothing to do */\n        if (argv[1][0] == '.' && argv[1][1] == '/' && argv[1][2] != '\\0' && argv[1][3] == '\\0')\n                return;\n\n        ush_status_t status = ush_node_set_current_dir(self, argv[1]);\n")],
     "cd to a child directory of one letter named with ./ in front", "the directory is not entered",
     main('', '''ush_node_mount(&sh, "/a", &n1, NULL, 0); settle(&sh); CHECK(strstr(type(&sh, "cd ./a\\n"), "[h a]$"));'''))
    SKIP.add("C12-label")
