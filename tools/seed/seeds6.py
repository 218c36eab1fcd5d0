"""Sixth batch of planted bugs (imported by seeds.py)."""
SKIP = set('C07-del C12-fit C14-same-table'.split())     # found by the repository's own tests, or in lines of a fix commit
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    TY = "src/inc/ush_types.h"
    def main(files, body, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    NOIO = 'static int no_write(struct ush_object *s, char c) { return 0; }\nstatic const struct ush_io_interface no_io = { .read = t_read, .write = no_write };\n'
    X = '{ .name = "o", .exec = x_exec }'
    seed("C01-pending", "C01", [
        (TY, "        size_t write_pos;                               ", "        bool write_refused;                             /**< Last char was not accepted */\n        char write_refused_char;                        /**< Char to offer again */\n        size_t write_pos;                               "),
        (F + "ush.c", "        self->commands = NULL;\n\n#if", "        self->commands = NULL;\n        self->write_refused = false;\n\n#if"),
        (F + "ush_write_utils.c", "        char ch = self->write_buf[self->write_pos];\n\n        if (self->desc->io->write(self, ch) == 0)\n                return;\n", "        /* the same char has to be offered until it is accepted */\n        char ch = (self->write_refused != false) ? self->write_refused_char : self->write_buf[self->write_pos];\n\n        self->write_refused = (self->desc->io->write(self, ch) == 0);\n        self->write_refused_char = ch;\n        if (self->write_refused != false)\n                return;\n")],
     "the application prints while a byte is being refused", "the first byte of the new text is replaced by the refused one",
     main('', '''settle(&sh); g_desc[0].io = &no_io; feed(&sh, "pwd\\n"); for (int i = 0; i < 30; i++) ush_service(&sh); ush_print(&sh, "X"); g_desc[0].io = &g_io; term_of(&sh)->out_len = 0; for (int i = 0; i < 3; i++) ush_service(&sh); CHECK(term_of(&sh)->out[0] == 'X');''', pre=NOIO))
    seed("C02-crlf", "C02", [
        (TY, "        int ansi_escape_state;  ", "        char last_char;                                 /**< Previous char of the input */\n        int ansi_escape_state;  "),
        (F + "ush.c", "        self->commands = NULL;\n\n#if", "        self->commands = NULL;\n        self->last_char = '\\0';\n\n#if"),
        (F + "ush_read_char.c", "        switch (ch) {\n        case '\\x03':", "        /* second half of CR LF line end */\n        bool line_end = (self->last_char == '\\r' && ch == '\\n');\n        self->last_char = ch;\n        if (line_end != false)\n                return true;\n\n        switch (ch) {\n        case '\\x03':")],
     "a line feed directly behind a carriage return", "the second line end is not answered",
     main('', '''settle(&sh); SAME(type(&sh, "\\r\\n"), "\\r\\n" PROMPT("/") "\\n" PROMPT("/"));'''))
    seed("C03-max", "C03", [(F + "ush_parse_utils.c", "        case USH_STATE_PARSE_SEARCH_ARG:\n                switch (ch) {", "        case USH_STATE_PARSE_SEARCH_ARG:\n                if (self->args_count >= 32)\n                        break; /* ignore the rest of line */\n\n                switch (ch) {")],
     "a line with more than 32 arguments", "the further ones are dropped",
     main(X, '''settle(&sh); char l[200] = "o"; for (int i = 0; i < 40; i++) strcat(l, " a"); strcat(l, "\\n"); type(&sh, l); CHECK(logn == 1 + 40 * 2 + 1);''', pre="") , defs="#define IN_SIZE 256\n")
    seed("C09-shadow", "C09", [(C + "ush_cmd_help.c", "                switch (self->process_index) {\n                case 0:        \n", "                /* commands with the same name cannot be used */\n                if (self->process_index == 0 && f->exec != NULL && ush_file_find_by_name(self, f->name) != f) {\n                        self->process_index_item++;\n                        break;\n                }\n\n                switch (self->process_index) {\n                case 0:        \n")],
     "a command that hides an older one of the same name", "the hidden one is missing in help",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "echo", .description = "other", .exec = x_exec } }; ush_commands_add(&sh, &ga, a, 1); settle(&sh); const char *o = type(&sh, "help\\n"); const char *p = strstr(o, "\\necho"); CHECK(p && strstr(p + 1, "\\necho"));'''))
    seed("C17-first", "C17", [(F + "ush.c", "        if (ush_write_service(self) != false)\n                return true;\n", "        if (ush_write_service(self) != false)\n                return (self->state != USH_STATE_WRITE_CHAR) || (self->write_pos > 0) || (self->write_size > 1);\n")],
     "the link refuses the only byte of a message", "the service call reports that there is nothing to do",
     main('', '''settle(&sh); g_desc[0].io = &no_io; feed(&sh, "a"); bool r = true; for (int i = 0; i < 20; i++) r = r && ush_service(&sh); CHECK(r);''', pre=NOIO))
    seed("C20-host", "C20", [(F + "ush_prompt.c", "                ush_write_pointer(self, self->desc->hostname, USH_STATE_PROMPT_SPACE);\n", "                ush_write_pointer(self, self->desc->hostname, USH_STATE_PROMPT_SPACE);\n                if (self->write_size > 15)\n                        self->write_size = 15;\n")],
     "a host name of sixteen characters", "the prompt shows fifteen",
     main('', '''static char h[] = "0123456789abcdef"; g_desc[0].hostname = h; CHECK((settle(&sh), strstr(type(&sh, "\\n"), h)));'''))
    seed("C14-same-table", "C14", [(F + "ush_commands.c", "        node->file_list = file_list;\n        node->file_list_size", "        /* the same commands twice would be useless */\n        for (struct ush_node_object *curr = self->commands; curr != NULL; curr = curr->next) {\n                if (curr->file_list == file_list)\n                        return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;\n        }\n\n        node->file_list = file_list;\n        node->file_list_size")],
     "two groups that share one table", "the second one is refused",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "o", .exec = x_exec } }; CHECK(ush_commands_add(&sh, &ga, a, 1) == USH_STATUS_OK); CHECK(ush_commands_add(&sh, &gb, a, 1) == USH_STATUS_OK);'''))
    seed("C07-del", "C07", [(F + "ush_utils.c", "        return ((ch >= 0x20) && (ch <= 0x7E));", "        return ((ch >= 0x20) && (ch != 0x7F) && ((ch < 0x80) || (ch > 0xA0)));")],
     "data with bytes above 0xA0", "they are sent to the terminal as they are",
     main('{ .name = "a", .get_data = x_get }', '''settle(&sh); CHECK(!strchr(type(&sh, "xxd a\\n"), '\\xe4'));''', pre='static size_t x_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)"\\xe4"; return 1; }\n'))
    seed("C12-fit", "C12", [(F + "ush_autocomp_state.c", "strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {", "strlen(self->autocomp_candidate_name) > self->desc->input_buffer_size) {")],
     "a completion that is longer than the space left by exactly one", "the terminating zero is written behind the input buffer",
     main('{ .name = "abcdefg", .exec = x_exec }', '''settle(&sh); g_desc[0].input_buffer_size = 8; g_in[0][8] = 'Z'; type(&sh, "x abc\\t"); CHECK(g_in[0][8] == 'Z'); type(&sh, "\\003"); type(&sh, " abc\\t"); CHECK(g_in[0][8] == 'Z');'''))
