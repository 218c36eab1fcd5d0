"""Fifth batch of planted bugs (imported by seeds.py)."""
SKIP = set('C05-empty C15-tab C18-inplace'.split())     # found by the repository's own tests
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    def main(files, body, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    INT = '#include "inc/ush_internal.h"\n'
    GET = '''static const char *dat; static size_t datn;
static size_t x_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { note("get:"); note(f->name); note(";"); *d = (uint8_t *)dat; return datn; }
'''
    P = 'static void p_exec(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { %s }\n'
    seed("C01-giveup", "C01", [(F + "ush_write_utils.c", "        if (self->desc->io->write(self, ch) == 0)\n                return;\n", "        static unsigned refused = 0;\n        if ((self->desc->io->write(self, ch) == 0) && (++refused < 20000))\n                return;\n\n        /* accepted, or nobody is listening */\n        refused = 0;\n")],
     "a link that refuses the same byte 20000 times", "the byte is dropped",
     main('', '''settle(&sh); g_desc[0].io = &no_io; feed(&sh, "pwd\\n"); for (int i = 0; i < 30000; i++) ush_service(&sh); g_desc[0].io = &g_io; term_of(&sh)->out_len = 0; settle(&sh); SAME(term_of(&sh)->out, "pwd\\n/\\r\\n" PROMPT("/"));''',
     pre='static int no_write(struct ush_object *s, char c) { return 0; }\nstatic const struct ush_io_interface no_io = { .read = t_read, .write = no_write };\n'))
    seed("C02-full-erase", "C02", [(F + "ush_read_char.c", "                if (self->in_pos > 0) {\n", "                if (self->in_pos > 0 && self->in_pos + 1 < self->desc->input_buffer_size) {\n")],
     "backspace when the line fills the input buffer exactly", "nothing is erased",
     main('{ .name = "o", .exec = x_exec }', '''settle(&sh); g_desc[0].input_buffer_size = 8; SAME(type(&sh, "o 34567\\b"), "o 34567\\b \\b"); type(&sh, "\\b\\n"); SAME(log_, "o|345;");'''))
    seed("C03-empty-mid", "C03", [(F + "ush_parse_utils.c", "                case ' ':\n                        self->desc->input_buffer[self->out_pos++] = '\\0';\n", "                case ' ':\n                        if (self->out_pos > 1 && self->desc->input_buffer[self->out_pos - 1] == '\\0')\n                                self->args_count--; /* no characters, no argument */\n                        else\n                                self->desc->input_buffer[self->out_pos++] = '\\0';\n")],
     "an empty quoted argument in the middle of a line", "the argument is missing",
     main('{ .name = "o", .exec = x_exec }', '''settle(&sh); type(&sh, "o a \\"\\" b\\n"); SAME(log_, "o|a||b;");'''))
    seed("C04-dot", "C04", [(F + "ush_file.c", "                        if (strcmp(file->name, name) == 0)\n                                return file;", "                        if (strcmp(file->name, name) == 0 || (self->current_node != self->root && name[0] == '.' && name[1] == '/' && strcmp(file->name, &name[2]) == 0))\n                                return file;")],
     "a path of the form ./name where name is also a command", "the command runs instead of the file",
     main('{ .name = "x", .exec = x_exec }', '''static const struct ush_file_descriptor cx[] = { { .name = "x", .exec = c_exec } }; ush_commands_add(&sh, &ga, cx, 1); ush_node_mount(&sh, "/d", &n1, files, 1); settle(&sh); type(&sh, "cd d\\n"); type(&sh, "./x 1\\n"); SAME(log_, "x|1;");''', pre='static void c_exec(struct ush_object *s, struct ush_file_descriptor const *f, int c, char *v[]) { note("command;"); }\n'))
    seed("C05-empty", "C05", [(F + "ush_node_utils.c", "        if (path[0] == '\\0')\n                return USH_STATUS_ERROR_NODE_NOT_FOUND;\n\n", "        if (path[0] == '\\0')\n                return (self->current_node == self->root) ? USH_STATUS_ERROR_NODE_NOT_FOUND : USH_STATUS_OK;\n\n")],
     "cd to the empty path below the root directory", "success instead of an error",
     main('', '''ush_node_mount(&sh, "/d", &n1, NULL, 0); settle(&sh); type(&sh, "cd d\\n"); CHECK(strstr(type(&sh, "cd \\"\\"\\n"), "not found"));'''))
    seed("C07-blank-row", "C07", [(C + "ush_cmd_xxd.c", "                        if (self->process_index_item >= self->process_data_size) {", "                        if (self->process_index_item > self->process_data_size || (self->process_index_item == self->process_data_size && self->process_data_size <= 256)) {")],
     "a file of more than 256 bytes that ends at a full row", "an additional empty row is printed",
     main('{ .name = "a", .get_data = x_get }', '''static char big[300]; memset(big, 65, 272); dat = big; datn = 272; settle(&sh); CHECK(!strstr(type(&sh, "xxd a\\n"), "00000110"));''', pre=GET))
    seed("C08-desc", "C08", [(C + "ush_cmd_ls.c", "                        ush_write_pointer(self, (char*)f->description, self->state);\n", "                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, \"%s\", f->description);\n                        ush_write_pointer(self, self->desc->output_buffer, self->state);\n")],
     "a description longer than the output buffer", "the description is cut in the listing",
     main('{ .name = "a", .description = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789" }', '''settle(&sh); CHECK(strstr(type(&sh, "ls\\n"), files[0].description));'''))
    seed("C11-negative", "C11", [("src/inc/ush_types.h", "        size_t autocomp_count;  ", "        size_t autocomp_failed_len;                     /**< Length of input without any candidates */\n        size_t autocomp_count;  "),
        (F + "ush_autocomp_state.c", "        self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);\n        self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;\n", "        self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);\n        self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;\n\n        /* longer text cannot have candidates either */\n        if (self->autocomp_failed_len > 0 && self->in_pos > self->autocomp_failed_len)\n                self->state = USH_STATE_READ_CHAR;\n"),
        (F + "ush_autocomp_state.c", "                case 0:\n                        self->state = USH_STATE_READ_CHAR;\n", "                case 0:\n                        self->autocomp_failed_len = self->in_pos;\n                        self->state = USH_STATE_READ_CHAR;\n"),
        (F + "ush_read_utils.c", "        self->ansi_escape_state = 0;\n}", "        self->ansi_escape_state = 0;\n#if USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE == 1\n        self->autocomp_failed_len = 0;\n#endif /* USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE */\n}")],
     "TAB without candidates, erasing the text, and TAB again behind a different and longer text in the same line", "the second TAB does nothing",
     main('{ .name = "file", .exec = x_exec }', '''settle(&sh); type(&sh, "z\\t"); type(&sh, "\\b"); SAME(type(&sh, "fil\\t"), "file");'''))
    seed("C13-deep", "C13", [(F + "ush_node.c", "        if (levels == 0)\n                return self->root;\n", "        if (levels == 0)\n                return self->root;\n        if (levels > 12)\n                return NULL; /* deeper than any tree */\n")],
     "directories nested deeper than twelve levels", "directories on the thirteenth level are not found",
     main('', '''static struct ush_node_object many[20]; static char path[20][64]; ush_status_t st = USH_STATUS_OK; for (int i = 0; i < 20; i++) { if (i) strcpy(path[i], path[i - 1]); strcat(path[i], "/q"); if (ush_node_mount(&sh, path[i], &many[i], NULL, 0) != USH_STATUS_OK) st = USH_STATUS_ERROR_NODE_NOT_FOUND; } CHECK(st == USH_STATUS_OK);'''))
    seed("C15-tab", "C15", [(F + "ush_autocomp_utils.c", "                self->autocomp_name = ush_utils_path_last(self->process_node->path);\n                if (ush_utils_startswith(self->autocomp_name, self->autocomp_input) == false) {", "                directory_name = ush_utils_path_last(self->process_node->path);\n                self->autocomp_name = directory_name;\n                if (ush_utils_startswith(self->autocomp_name, self->autocomp_input) == false) {"),
        (F + "ush_autocomp_utils.c", "                        self->autocomp_candidate_name = self->autocomp_name;", "                        self->autocomp_candidate_name = directory_name;"),
        (F + "ush_autocomp_utils.c", "                        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT)\n                                ush_write_pointer(self, self->autocomp_name, self->state);", "                        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT)\n                                ush_write_pointer(self, directory_name, self->state);"),
        (F + "ush_autocomp_utils.c", "void ush_autocomp_process_file_index(", "static char *directory_name;\n\nvoid ush_autocomp_process_file_index("),
        (F + "ush_autocomp_utils.c", "        self->autocomp_prev_count = self->autocomp_count;\n\n        size_t pos", "        self->autocomp_prev_count = self->autocomp_count;\n        if (directory_name != NULL && self->autocomp_candidate_name == self->autocomp_name)\n                self->autocomp_candidate_name = directory_name;\n\n        size_t pos"),
        (F + "ush_autocomp_utils.c", "void ush_autocomp_start(", "static char *directory_name;\n\nvoid ush_autocomp_start(")],
     "two shells completing directory names at the same time", "one completes a name of the other's tree",
     main('', '''sh_new(&sh2); ush_node_mount(&sh2, "/", &n1, NULL, 0); ush_node_mount(&sh, "/abc1", &n2, NULL, 0); ush_node_mount(&sh, "/abc2", &n3, NULL, 0); ush_node_mount(&sh2, "/xy", &n4, NULL, 0); settle(&sh); settle(&sh2);
 for (int d = 1; d < 400; d++) { term_of(&sh)->out_len = 0; feed(&sh, "cd a\\t"); for (int i = 0; i < d; i++) ush_service(&sh); type(&sh2, "\\003"); type(&sh2, "cd x\\t"); settle(&sh); SAME(term_of(&sh)->out, "cd abc"); type(&sh, "\\003"); if (g_bad) break; }'''))
    seed("C18-inplace", "C18", [(F + "ush.c", "        ush_write_pointer(self, buf, USH_STATE_RESET);\n", "        ush_write_pointer(self, buf, (buf == self->desc->output_buffer && buf[0] != '\\0') ? USH_STATE_RESET_PROMPT : USH_STATE_RESET);\n")],
     "printing text that the application composed in the output buffer", "the newline is missing",
     main('{ .name = "p", .exec = p_exec }', '''settle(&sh); SAME(type(&sh, "p\\n"), "p\\nab\\r\\n" PROMPT("/"));''', pre=P % 'strcpy(g_out[0], "ab"); ush_print(s, g_out[0]);'))
    seed("C19-percent", "C19", [(F + "ush.c", "        char *ret = (char*)ush_utils_get_status_string(status);\n        ush_write_pointer(self, ret, USH_STATE_RESET);", "        const char *ret = ush_utils_get_status_string(status);\n        if (strchr(ret, '%') != NULL) {\n                ush_printf(self, ret);\n                self->write_next_state = USH_STATE_RESET;\n        } else {\n                ush_write_pointer(self, (char*)ret, USH_STATE_RESET);\n        }")],
     "a translated text with a per cent sign", "the text is taken for a format",
     main('', '''settle(&sh); CHECK(strstr(type(&sh, "cat nope\\n"), "100%d no"));'''), extra="CFG:FILE_NOT_FOUND=100%d no")
    seed("C21-spaces", "C21", [(F + "ush_parse.c", "                ush_parse_char(self);\n                break;\n", "                ush_parse_char(self);\n\n                /* gaps between arguments do not need a service call for each space */\n                if (self->state == USH_STATE_PARSE_SEARCH_ARG && self->args_count > 0)\n                        processed = (ush_parse_service(self) != false) || processed;\n                break;\n")],
     "a line with very many spaces between two arguments", "stack use grows with the number of spaces",
     main('{ .name = "o", .exec = x_exec }', '''settle(&sh); type(&sh, "o 1\\n");
 pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 65536); pthread_t t; pthread_create(&t, &a, run, NULL); pthread_join(t, NULL);''', pre='''#include <pthread.h>
static char line[20000];
static void *run(void *p) { memset(line, ' ', sizeof line); line[0] = 'o'; strcpy(&line[15000], "2\\n"); type(&sh, line); return NULL; }
'''), extra="THREAD", defs="#define IN_SIZE 20000\n")
    seed("C22-restart", "C22", [(F + "ush_process.c", "        self->process_file = file;\n        self->state = USH_STATE_PROCESS_START;\n", "        if (self->process_file == file && (self->state == USH_STATE_PROCESS_SERVICE || self->state == USH_STATE_PROCESS_FINISH))\n                return; /* already running */\n\n        self->process_file = file;\n        self->state = USH_STATE_PROCESS_START;\n")],
     "a processing command that starts itself again from its service step", "it goes on instead of starting again",
     main('{ .name = "p", .exec = p_exec, .process = pp }', '''settle(&sh); type(&sh, "p\\n"); SAME(log_, "s;v;s;v;");''',
     pre='static int n; extern void ush_process_start(struct ush_object *, const struct ush_file_descriptor *);\n' + P % 'ush_process_start(s, f);' + '''static void pp(struct ush_object *s, struct ush_file_descriptor const *f) { if (s->state == USH_STATE_PROCESS_START) { note("s;"); s->state = USH_STATE_PROCESS_SERVICE; } else { note("v;"); if (n++ == 0) ush_process_start(s, f); else s->state = USH_STATE_RESET_PROMPT; } }
'''))
