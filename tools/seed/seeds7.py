"""Seventh batch of planted bugs (imported by seeds.py)."""
SKIP = set("C14-noexec C09-file C14-place C12-lsname".split())     # found by the repository's own tests, or in lines of a fix commit
def add(seed, TREE):
    T = TREE
    F = "src/src/"
    C = F + "commands/"
    TY = "src/inc/ush_types.h"
    def main(files, body, pre=""):
        n = files.count("{ .name")
        decl = "static const struct ush_file_descriptor files[] = { %s };\n" % files if n else ""
        return T + pre + decl + "static struct ush_node_object root, n1, n2, n3, n4, ga, gb, gc;\nint main(void) { sh_new(&sh); ush_node_mount(&sh, \"/\", &root, %s, %d);\n%s\nreturn g_bad; }" % ("files" if n else "NULL", n, body)
    X = '{ .name = "o", .exec = x_exec }'
    seed("C12-lsname", "C12", [(C + "ush_cmd_ls.c", '                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);\n                                self->process_index = 3;', '                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);\n                                self->process_index = 3;')],
     "ls of a file without description whose name is longer than the output buffer", "the name is written beyond the output buffer",
     main('{ .name = "abcdefghijkl", .exec = x_exec }', '''settle(&sh); g_desc[0].output_buffer_size = 8; g_out[0][8] = 'Z'; type(&sh, "ls\\n"); CHECK(g_out[0][8] == 'Z');'''))
    seed("C12-vanish", "C12", [(C + "ush_cmd_cat.c", '#include "inc/ush_internal.h"\n', '#include "inc/ush_internal.h"\n\n#include <string.h>\n'), (C + "ush_cmd_cat.c", "                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);\n", "                /* file has been already found if it is the same argument again */\n                struct ush_file_descriptor const *f = NULL;\n                if (self->process_index_item > 1 && strcmp(argv[self->process_index_item], argv[self->process_index_item - 1]) == 0)\n                        f = (struct ush_file_descriptor const *)self->process_child_node;\n                else\n                        f = ush_file_find_by_name(self, argv[self->process_index_item]);\n                self->process_child_node = (struct ush_node_object *)f;\n")],
     "cat of the same file twice in a row while its directory is removed and its table is freed", "the freed table is used",
     main('', '''static struct ush_file_descriptor t[] = { { .name = "a", .get_data = x_get } }; ush_node_mount(&sh, "/d", &n1, t, 1); settle(&sh); struct term *q = term_of(&sh); q->out_len = 0; feed(&sh, "cat /d/a /d/a\\n"); while (!gets_n) ush_service(&sh); CHECK(ush_node_unmount(&sh, "/d") == USH_STATUS_OK); t[0].get_data = y_get; settle(&sh); CHECK(!bad_n);''',
          pre='static int gets_n, bad_n;\nstatic size_t x_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { gets_n++; *d = (uint8_t *)"abc"; return 3; }\nstatic size_t y_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { bad_n++; *d = (uint8_t *)"abc"; return 3; }\n'))
    seed("C14-place", "C14", [(F + "ush_commands.c", "        node->next = self->commands;\n        self->commands = node;\n", "        /* group may be already on the list */\n        for (struct ush_node_object *curr = self->commands; curr != NULL; curr = curr->next) {\n                if (curr->next == node->next && curr->next != NULL && curr->file_list == file_list)\n                        return USH_STATUS_OK;\n        }\n\n        node->next = self->commands;\n        self->commands = node;\n")],
     "a group object that is used again with the table of a group added in its former place", "the group is not added",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "o", .exec = x_exec } }, b[] = { { .name = "p", .exec = x_exec } }; ush_commands_add(&sh, &ga, a, 1); ush_commands_remove(&sh, &ga); ush_commands_add(&sh, &gb, a, 1); ush_commands_add(&sh, &gc, b, 1); ush_commands_add(&sh, &ga, a, 1); CHECK(ush_commands_remove(&sh, &ga) == USH_STATUS_OK);'''))
    seed("C14-noexec", "C14", [(F + "ush_file.c", "                        if (strcmp(file->name, name) == 0)\n                                return file;\n                }\n                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path", "                        if (strcmp(file->name, name) == 0 && (file->exec != NULL || curr->next == NULL || file->get_data != NULL || file->set_data != NULL))\n                                return file;\n                }\n                curr = curr->next;                \n        }\n\n        ush_node_get_absolute_path")],
     "a newer group that hides a command by an entry without any callback", "the older command is run",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "o", .exec = x_exec } }, b[] = { { .name = "o", .help = "x" } }; ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &gb, b, 1); settle(&sh); CHECK(strstr(type(&sh, "o\\n"), "not executable"));'''))
    seed("C14-empty", "C14", [(F + "ush_commands.c", "                if (prev == NULL) {\n                        self->commands = node->next;", "                if (prev == NULL && node->next != NULL && node->next->next == NULL && node->file_list_size == node->next->file_list_size) {\n                        self->commands = NULL;\n                } else if (prev == NULL) {\n                        self->commands = node->next;")],
     "removal of a group with as many commands as the only other one", "both are removed",
     main('', '''static const struct ush_file_descriptor a[] = { { .name = "o", .exec = x_exec }, { .name = "o1" }, { .name = "o2" }, { .name = "o3" }, { .name = "o4" }, { .name = "o5" }, { .name = "o6" } }; ush_commands_add(&sh, &ga, a, 7); settle(&sh); ush_commands_remove(&sh, &ga); CHECK(strstr(type(&sh, "pwd\\n"), "/\\r\\n"));'''))
    seed("C09-file", "C09", [(C + "ush_cmd_help.c", "                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[1]);\n", "                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[1]);\n                /* file of the current directory may describe it better */\n                if (f != NULL && f->help == NULL) {\n                        for (size_t i = 0; i < self->current_node->file_list_size; i++)\n                                if (self->current_node->file_list[i].help != NULL && self->current_node->file_list[i].name[0] == f->name[0] && self->current_node->file_list[i].name[1] == f->name[1] && f->name[1] == '\\0')\n                                        f = &self->current_node->file_list[i];\n                }\n")],
     "help for a command without help text, one character long, while the directory has a file of that name with a help text", "the file's text is printed",
     main('{ .name = "a", .help = "file text" }', '''static const struct ush_file_descriptor a[] = { { .name = "a", .exec = x_exec } }; ush_commands_add(&sh, &ga, a, 1); settle(&sh); CHECK(!strstr(type(&sh, "help a\\n"), "file text"));'''))
    seed("C09-question", "C09", [(C + "ush_cmd_help.c", "                if (f == NULL) {\n                        ush_print_status", "                if (f == NULL && argv[1][0] == '?' && argv[1][1] == '\\0') {\n                        self->process_node = self->commands;\n                        self->process_index = 0;\n                        self->process_index_item = 0;\n                        ush_process_start(self, file);\n                        return;\n                }\n                if (f == NULL) {\n                        ush_print_status")],
     "help with a question mark as its argument", "the commands are listed instead of the not-found status",
     main('', '''settle(&sh); CHECK(strstr(type(&sh, "help ?\\n"), "file not found"));'''))
    seed("C03-tab-quote", "C03", [(F + "ush_parse_utils.c", "        self->escape_flag = false;\n        self->state = USH_STATE_PARSE_SEARCH_ARG;", "        self->escape_flag = false;\n        /* nothing to do for leading spaces */\n        while (self->desc->input_buffer[self->in_pos] == ' ' && self->desc->input_buffer[self->in_pos + 1] == ' ')\n                self->in_pos += 2;\n        self->state = USH_STATE_PARSE_SEARCH_ARG;\n        if (self->in_pos >= 8)\n                self->in_pos++;")],
     "a line that starts with eight or more spaces", "the first character of the first argument is missing",
     main(X, '''settle(&sh); type(&sh, "        o a\\n"); CHECK(logn > 0);'''))
    seed("C05-dash", "C05", [(F + "ush_node_utils.c", "        char abs_path[self->desc->path_max_length];\n        \n        ush_node_get_absolute_path(self, path, abs_path);", "        if (path[0] == '~' && path[1] == '\\0') {\n                /* home is root directory */\n                self->current_node = self->root;\n                return USH_STATUS_OK;\n        }\n\n        char abs_path[self->desc->path_max_length];\n        \n        ush_node_get_absolute_path(self, path, abs_path);")],
     "cd with a tilde as its argument", "the root directory becomes current although there is no such directory",
     main('', '''settle(&sh); CHECK(strstr(type(&sh, "cd ~\\n"), "directory not found"));'''))
    seed("C20-null", "C20", [(C + "ush_cmd_echo.c", "                        f->set_data(self, f, data, data_size);\n", "                        if (data_size > 0 && data[0] == '\\0' && data_size < 4)\n                                data_size = 0;\n                        f->set_data(self, f, data, data_size);\n")],
     "one to three bytes that start with a zero written to a device", "nothing is written",
     main('{ .name = "m", .set_data = x_set }', '''settle(&sh); type(&sh, "echo \\\\x00\\\\x01 > m\\n"); CHECK(n_set == 2);''', pre='static size_t n_set;\nstatic void x_set(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { n_set = n; }\n'))
