"""Edits of /repo that keep its behaviour. selftest.py applies each set to a scratch copy; no check may report anything on it."""
S = "src/src/"
C = S + "commands/"
A, B, D, E = [], [], [], []     # four independent sets, each applied as a whole

# --- A: helpers extracted, switches turned into if chains, loops rewritten
A += [(S + "ush_read_utils.c", """        switch (ch) {
        case '\\r':
                self->desc->output_buffer[0] = ch;
                self->desc->output_buffer[1] = '\\n';
                self->desc->output_buffer[2] = '\\0';
                break;
        case '\\x08':
        case '\\x7F':
                self->desc->output_buffer[0] = '\\x08';
                self->desc->output_buffer[1] = ' ';
                self->desc->output_buffer[2] = '\\x08';
                self->desc->output_buffer[3] = '\\0';
                break;
        default:
                self->desc->output_buffer[0] = ch;
                self->desc->output_buffer[1] = '\\0';
                break;
        }
""", """        char *out = self->desc->output_buffer;

        if (ch == '\\x08' || ch == '\\x7F') {
                memcpy(out, "\\x08 \\x08", 4);
        } else {
                *out++ = ch;
                if (ch == '\\r')
                        *out++ = '\\n';
                *out = '\\0';
        }
"""), (S + "ush_read_utils.c", '#include "inc/ush_internal.h"\n', '#include "inc/ush_internal.h"\n\n#include <string.h>\n'),
 (S + "ush_write_utils.c", """        char ch = self->write_buf[self->write_pos];
        if (self->desc->io->write(self, ch) == 0)
                return;
        
        self->write_pos++;
""", """        int accepted = self->desc->io->write(self, self->write_buf[self->write_pos]);
        if (accepted != 0)
                self->write_pos += 1;
"""),
 (S + "ush_file.c", """        curr = self->commands;        
        while (curr != NULL) {
                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
                curr = curr->next;                
        }
""", """        file = find_command(self, name);
        if (file != NULL)
                return file;
"""), (S + "ush_file.c", "struct ush_file_descriptor const* ush_file_find_by_name(", """static struct ush_file_descriptor const* find_command(struct ush_object *self, const char *name)
{
        for (struct ush_node_object *group = self->commands; group != NULL; group = group->next) {
                struct ush_file_descriptor const *end = group->file_list + group->file_list_size;
                for (struct ush_file_descriptor const *f = group->file_list; f != end; f++) {
                        if (strcmp(f->name, name) == 0)
                                return f;
                }
        }

        return NULL;
}

struct ush_file_descriptor const* ush_file_find_by_name("""),
 (S + "ush_commands.c", """        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = self->commands;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }

                if (prev == NULL) {
                        self->commands = node->next;
                } else {
                        prev->next = node->next;
                }
                return USH_STATUS_OK;           
        }
""", """        for (struct ush_node_object **link = &self->commands; *link != NULL; link = &(*link)->next) {
                if (*link == node) {
                        *link = node->next;
                        return USH_STATUS_OK;
                }
        }
"""),
 (S + "ush_parse_utils.c", """        case USH_STATE_PARSE_QUOTE_ARG:
                if (self->escape_flag != false) {
                        if (ch == 'x')
                                self->desc->input_buffer[self->out_pos++] = '\\\\';
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->escape_flag = false;
                        break;
                }
""", """        case USH_STATE_PARSE_QUOTE_ARG:
                if (self->escape_flag != false) {
                        take_escaped(self, ch);
                        break;
                }
"""), (S + "ush_parse_utils.c", "void ush_parse_char_standard(struct", """static void take_escaped(struct ush_object *self, char ch)
{
        self->escape_flag = false;
        if (ch == 'x')
                self->desc->input_buffer[self->out_pos++] = '\\\\';
        self->desc->input_buffer[self->out_pos++] = ch;
}

void ush_parse_char_standard(struct"""),
 (C + "ush_cmd_xxd.c", """                        for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                size_t offset = self->process_index_item;
                                if (offset < self->process_data_size) {
                                        uint8_t b = self->process_data[offset];
                                        if (ush_utils_is_printable(b) != false) {
                                                char printable[2] = { (char)b, '\\0' };
                                                append_output(self, printable);
                                        } else {
                                                append_output(self, ".");
                                        }
                                } else {
                                        append_output(self, " ");
                                }
                                self->process_index_item++;
                        }
""", """                        size_t last = self->process_index_item + USH_CMD_XXD_COLUMNS;
                        do {
                                char shown[2] = { ' ', '\\0' };
                                if (self->process_index_item < self->process_data_size)
                                        shown[0] = (char)self->process_data[self->process_index_item];
                                if (ush_utils_is_printable((uint8_t)shown[0]) == false)
                                        shown[0] = '.';
                                append_output(self, shown);
                                self->process_index_item++;
                        } while (self->process_index_item != last);
"""),
 (C + "ush_cmd_echo.c", """        switch (argc) {
        
        case 4:
                if (strcmp""", """        if (argc == 0 || argc == 3 || argc > 4) {
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                return;
        }

        switch (argc) {
        
        case 4:
                if (strcmp"""),
]
# --- B: states merged or split (fewer or more service calls for the same behaviour), pieces joined, other order of tests
B += [(S + "ush_prompt.c", """                ush_write_pointer(self, USH_SHELL_FONT_COLOR_MAGENTA "[", USH_STATE_PROMPT_HOST);
                break;""", """                ush_write_pointer(self, USH_SHELL_FONT_COLOR_MAGENTA "", USH_STATE_PROMPT_BRACKET);
                break;
        case USH_STATE_PROMPT_BRACKET:
                ush_write_pointer(self, "[", USH_STATE_PROMPT_HOST);
                break;"""), ("src/inc/ush_types.h", "        USH_STATE_PROMPT_HOST,", "        USH_STATE_PROMPT_BRACKET,\n        USH_STATE_PROMPT_HOST,"),
 (S + "ush_write_utils.c", """        self->write_pos++;
}""", """        self->write_pos++;
        if (self->write_pos == self->write_size)
                self->state = self->write_next_state;
}"""),
 (C + "ush_cmd_ls.c", """                case 0:
                        ush_write_pointer(self, "d---- " USH_SHELL_FONT_COLOR_GREEN, self->state);
                        self->process_index = 1;
                        break;""", """                case 0:
                        ush_write_pointer(self, "d---- ", self->state);
                        self->process_index = 10;
                        break;
                case 10:
                        ush_write_pointer(self, USH_SHELL_FONT_COLOR_GREEN "", self->state);
                        self->process_index = 1;
                        break;"""),
 (C + "ush_cmd_ls.c", """                        ush_write_pointer(self, "/" USH_SHELL_FONT_STYLE_RESET "\\r\\n", self->state);
                        self->process_index = 3;
                        break;
                case 3:
                        self->process_index = 0;
                        self->process_child_node = self->process_child_node->next;
                        break;
""", """                        ush_write_pointer(self, "/" USH_SHELL_FONT_STYLE_RESET "\\r\\n", self->state);
                        self->process_index = 0;
                        self->process_child_node = self->process_child_node->next;
                        break;
"""),
 (C + "ush_cmd_cat.c", """        case USH_STATE_PROCESS_SERVICE: {
                if (self->process_index_item >= self->args_count) {
                        self->state = USH_STATE_PROCESS_FINISH;
                        break;
                }
""", """        case USH_STATE_PROCESS_SERVICE: {
                if (self->process_index_item >= self->args_count) {
                        self->state = USH_STATE_RESET_PROMPT;
                        break;
                }
"""),
 (S + "ush_autocomp_utils.c", """                if (ush_utils_startswith((char*)((*file)->name), self->autocomp_input) == false) {
                        self->process_index_item++;
                        self->process_index = 0;
                        ret = true;
                }
""", """                const char *name = (*file)->name;
                const char *typed = self->autocomp_input;
                while (*typed != '\\0' && *typed == *name) {
                        typed++;
                        name++;
                }
                if (*typed != '\\0') {
                        self->process_index = 0;
                        self->process_index_item++;
                        ret = true;
                }
"""),
 (S + "ush.c", """        if (ush_reset_service(self) != false)
                return true;        

        if (ush_prompt_service(self) != false)
                return true;        

        if (ush_read_service(self, &busy) != false)
                return busy;
""", """        if (ush_read_service(self, &busy))
                return busy;

        if (ush_write_service(self))
                return true;

        if (ush_reset_service(self) || ush_prompt_service(self))
                return true;
"""), (S + "ush.c", """        if (ush_write_service(self) != false)
                return true;

        if (ush_process_service""", """        if (ush_process_service"""),
 (S + "ush_utils.c", """        while (len > 0) {
                len--;
                if (input[len] == ' ')
                        return (char*)&input[len + 1];
        }

        return (char*)input;
""", """        const char *begin = input;
        for (const char *p = input; p < &input[len]; p++) {
                if (*p == ' ')
                        begin = p + 1;
        }

        return (char*)begin;
"""),
 (S + "ush_node.c", """        struct ush_node_object *curr = node;
        while (curr != NULL) {
                if (curr->children != NULL)
                        ush_node_deinit_recursive(self, curr->children);

                struct ush_node_object *tmp = curr->next;
                memset((uint8_t*)curr, 0, sizeof(struct ush_node_object));
                curr = tmp;
        }
""", """        struct ush_node_object *next;
        for (struct ush_node_object *curr = node; curr != NULL; curr = next) {
                next = curr->next;
                ush_node_deinit_recursive(self, curr->children);
                *curr = (struct ush_node_object){ 0 };
        }
"""),
]
# --- D: data structures changed (members added and moved, caches kept right), path functions rewritten, status table
D += [("src/inc/ush_types.h", "struct ush_object {", "struct ush_object {\n        char reserved[64];\n        uint32_t services;\n"),
 (S + "ush.c", "        USH_ASSERT(self->current_node != NULL);\n", "        USH_ASSERT(self->current_node != NULL);\n        self->services++;\n"),
 ("src/inc/ush_types.h", "struct ush_node_object {", "struct ush_node_object {\n        size_t path_length;\n"),
 (S + "ush_node_mount.c", "        node->path = path;\n", "        node->path = path;\n        node->path_length = strlen(path);\n"),
 (S + "ush_node.c", "                        if (strcmp(curr->path, level_path) == 0) {", "                        if (curr->path_length == strlen(level_path) && memcmp(curr->path, level_path, curr->path_length) == 0) {"),
 (S + "ush_utils.c", """        out_path[0] = '\\0';

        if (count == 0) {
                strcat(out_path, "/");
                return;
        }

        for (size_t i = 0; i < count; i++) {
                strcat(out_path, "/");
                strcat(out_path, nodes_out[i]);
        }
""", """        char *out = out_path;
        size_t i = 0;

        do {
                *out++ = '/';
                if (i < count) {
                        size_t length = strlen(nodes_out[i]);
                        memcpy(out, nodes_out[i], length);
                        out += length;
                }
        } while (++i < count);
        *out = '\\0';
"""),
 (C + "ush_cmd_help.c", """                if (self->process_node == NULL) {
                        self->state = USH_STATE_RESET_PROMPT;
                        break;
                }

                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index = 0;
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
                        break;
                }
""", """                while (self->process_node != NULL && self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index = 0;
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
                }

                if (self->process_node == NULL) {
                        self->state = USH_STATE_RESET_PROMPT;
                        break;
                }
"""),
 (S + "ush_autocomp_state.c", """                        char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
""", """                        size_t typed = strlen(self->autocomp_input);
                        char *suffix = self->autocomp_input + typed;
                        strcpy(suffix, self->autocomp_candidate_name + typed);
"""),
 (S + "ush_reset.c", """                ush_prompt_start(self, USH_STATE_READ_PREPARE);
""", """                ush_prompt_start(self, USH_STATE_READ_PREPARE);
                ush_prompt_service(self);
"""),
 (C + "ush_cmd_cd.c", """        ush_status_t status = ush_node_set_current_dir(self, argv[1]);
        if (status != USH_STATUS_OK) {
                ush_print_status(self, status);
                return;
        }
""", """        if (ush_node_set_current_dir(self, argv[1]) != USH_STATUS_OK)
                ush_print_status(self, USH_STATUS_ERROR_NODE_NOT_FOUND);
"""),
 (S + "ush_read_char.c", """        case '\\x08':
        case '\\x7F':
                /* backspace */
                if (self->in_pos > 0) {
                        self->in_pos--;
                        self->desc->input_buffer[self->in_pos] = '\\0';
                } else {
                        echo = false;
                }
                break;
""", """        case '\\x08':
        case '\\x7F':
                /* backspace */
                echo = (self->in_pos != 0);
                if (echo)
                        self->desc->input_buffer[--self->in_pos] = '\\0';
                break;
"""),
]
# --- E: more done in one service call (no more than one byte read or written), searches and removals written another way
E += [(S + "ush_parse.c", """        case USH_STATE_PARSE_STANDARD_ARG:
                ush_parse_char(self);
                break;""", """        case USH_STATE_PARSE_STANDARD_ARG:
                /* nothing here depends on the outside, the whole line can be taken at once */
                do {
                        ush_parse_char(self);
                } while ((self->state == USH_STATE_PARSE_SEARCH_ARG) || (self->state == USH_STATE_PARSE_QUOTE_ARG) || (self->state == USH_STATE_PARSE_STANDARD_ARG));
                break;"""),
 (S + "ush_autocomp.c", """        case USH_STATE_AUTOCOMP_CANDIDATES_COUNT:
        case USH_STATE_AUTOCOMP_CANDIDATES_OPTIMISE:
        case USH_STATE_AUTOCOMP_CANDIDATES_PRINT: {""", """        case USH_STATE_AUTOCOMP_CANDIDATES_COUNT:
        case USH_STATE_AUTOCOMP_CANDIDATES_OPTIMISE: {
                ush_state_t counting = self->state;
                while (self->state == counting)
                        ush_autocomp_state_candidates_process(self);
                break;
        }
        case USH_STATE_AUTOCOMP_CANDIDATES_PRINT: {"""),
 (S + "ush_commands.c", """        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = self->commands;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
                if (prev == NULL) {
                        self->commands = node->next;
                } else {
                        prev->next = node->next;
                }
                return USH_STATUS_OK;           
        }
""", """        for (struct ush_node_object **link = &self->commands; *link != NULL; link = &(*link)->next) {
                if (*link == node) {
                        *link = node->next;
                        return USH_STATUS_OK;
                }
        }
"""),
 (S + "ush_node_mount.c", """        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = parent_node->children;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
                if (prev == NULL) {
                        parent_node->children = node->next;
                } else {
                        prev->next = node->next;
                }
                if (self->current_node == node)
                        self->current_node = parent_node;
                return USH_STATUS_OK;           
        }
""", """        struct ush_node_object **link = &parent_node->children;

        while ((*link != NULL) && (*link != node))
                link = &(*link)->next;

        if (*link != NULL) {
                *link = node->next;
                if (node == self->current_node)
                        self->current_node = parent_node;
                return USH_STATUS_OK;
        }
"""),
 (S + "ush_file.c", """        struct ush_node_object *curr;
        struct ush_file_descriptor const *file;

        curr = self->commands;        
        while (curr != NULL) {
                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
                curr = curr->next;                
        }
""", """        struct ush_node_object *curr;
        struct ush_file_descriptor const *file;

        for (curr = self->commands; curr != NULL; curr = curr->next) {
                const struct ush_file_descriptor *end = curr->file_list + curr->file_list_size;
                for (file = curr->file_list; file < end; file++) {
                        if (!strcmp(name, file->name))
                                return file;
                }
        }
"""),
 (C + "ush_cmd_cat.c", """        case USH_STATE_PROCESS_START:
                self->process_index_item = 1;
                self->state = USH_STATE_PROCESS_SERVICE;
                break;

        case USH_STATE_PROCESS_SERVICE: {""", """        case USH_STATE_PROCESS_START:
                self->process_index_item = 1;
                self->state = USH_STATE_PROCESS_SERVICE;
                /* fallthrough */

        case USH_STATE_PROCESS_SERVICE: {"""),
 (C + "ush_cmd_xxd.c", """                                if (offset < self->process_data_size) {
                                        uint8_t b = self->process_data[offset];
                                        char hex[4];
                                        snprintf(hex, sizeof(hex), "%02X ", b);
                                        append_output(self, hex);
                                } else {
                                        append_output(self, "   ");
                                }
""", """                                static const char digits[] = "0123456789ABCDEF";
                                char hex[4] = "   ";
                                if (offset < self->process_data_size) {
                                        hex[0] = digits[self->process_data[offset] >> 4];
                                        hex[1] = digits[self->process_data[offset] & 0x0F];
                                }
                                append_output(self, hex);
"""),
 (C + "ush_cmd_xxd.c", """                        ush_write_pointer(self, "\\r\\n", self->state);
                        self->process_index = 0;
                        break;
                default:""", """                        self->process_index = 0;
                        ush_write_pointer(self, "\\r\\n", self->state);
                        break;
                default:"""),
 (C + "ush_cmd_xxd.c", """        case USH_STATE_PROCESS_START:
                self->process_index = 0;
                self->process_index_item = 0;
                self->state = USH_STATE_PROCESS_SERVICE;
                break;
""", """        case USH_STATE_PROCESS_START:
                self->process_index = 0;
                self->process_index_item = 0;
                self->state = USH_STATE_PROCESS_SERVICE;
                /* fallthrough */
"""),
]
SETS = {"helpers": A, "states": B, "data": D, "batch": E}
