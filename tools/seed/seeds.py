#!/usr/bin/env python3
"""Writes /verif/seeded/*: planted bugs as edits of /repo's sources, with a demonstration each."""
import json, os, pathlib, re, shutil, subprocess, tempfile
HERE = pathlib.Path(__file__).resolve().parent
OUT = HERE.parent.parent / "seeded"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, extra="", defs=""):
    SEEDS.append((id, prop, edits, needs, breaks, demo, extra, defs))

TREE = r'''
static struct ush_object sh, sh2;
static char log_[200000]; static size_t logn;
static void note(const char *s) { logn += (size_t)snprintf(log_ + logn, sizeof(log_) - logn, "%s", s); }
static void x_exec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[])
{ note(f->name); for (int i = 1; i < argc; i++) { note("|"); note(argv[i] ? argv[i] : "NULL"); } if (argv[argc]) note("!"); note(";"); }
'''

seed("C01-last-byte", "C01", [("src/src/ush_write_utils.c",
 "        if (self->desc->io->write(self, ch) == 0)\n                return;\n        \n        self->write_pos++;",
 "        if ((self->desc->io->write(self, ch) == 0) && (self->write_pos + 1 < self->write_size || self->write_size < 3))\n                return;\n        \n        self->write_pos++;")],
 "the link refuses the last byte of a message of three or more bytes", "the refused byte is dropped instead of being offered again",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 struct term *t = term_of(&sh); char want[1000]; strcpy(want, type(&sh, "pwd\n")); t->refuse_every = 1; t->offers = 0; SAME(type(&sh, "pwd\n"), want); return g_bad; }''')

seed("C01-type-ahead", "C01", [("src/src/ush_write_utils.c",
 "        char ch = self->write_buf[self->write_pos];\n\n        if (self->desc->io->write(self, ch) == 0)\n                return;\n",
 "        char ch = self->write_buf[self->write_pos];\n\n        if (self->desc->io->write(self, ch) == 0) {\n                /* receiver does not keep up, restart escape sequence */\n                if (ch == '[' && self->write_pos > 0)\n                        self->write_pos--;\n                return;\n        }\n")],
 "the link refuses the '[' of a style sequence or of the prompt", "the byte before a refused '[' is sent twice",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 struct term *t = term_of(&sh); char want[1000]; strcpy(want, type(&sh, "pwd\n")); t->refuse_every = 1; t->offers = 0; SAME(type(&sh, "pwd\n"), want); return g_bad; }''')

seed("C02-escape-carry", "C02", [("src/src/ush_read_utils.c",
 "        self->state = USH_STATE_READ_CHAR;\n        self->ansi_escape_state = 0;",
 "        if (self->state != USH_STATE_READ_PREPARE || self->write_size != 2)\n                self->ansi_escape_state = 0;\n        self->state = USH_STATE_READ_CHAR;")],
 "", "", "")
SEEDS.pop()

seed("C02-escape-carry", "C02", [("src/src/ush_read_char.c",
 "                /* escape */\n                self->ansi_escape_state = 1;\n                echo = false;",
 "                /* escape */\n                self->ansi_escape_state = 1 + (self->in_pos > 0 && self->ansi_escape_state == 1);\n                echo = false;")],
 "two escape keys in a row in a line that is not empty", "the second escape is taken for the introducer, so that the final byte of the following sequence enters the line",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "x a\033\033[Ab\n"); SAME(log_, "x|ab;"); return g_bad; }''')

seed("C02-backspace-overflow", "C02", [("src/src/ush_read_char.c",
 "                if (self->in_pos > 0) {\n                        self->in_pos--;",
 "                if (self->in_pos > 0) {\n                        if (self->ansi_escape_state == 0)\n                                self->in_pos--;")],
 "backspace pressed after a lone escape key", "the erase is echoed but the character stays in the line",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "x ab\033\010[c\n"); SAME(log_, "x|a;"); logn = 0; log_[0] = 0; type(&sh, "x ab\010c\n"); SAME(log_, "x|ac;"); return g_bad; }''')

seed("C03-quote-escape", "C03", [("src/src/ush_parse_utils.c",
 "        case USH_STATE_PARSE_QUOTE_ARG:\n                if (self->escape_flag != false) {\n                        if (ch == 'x')\n                                self->desc->input_buffer[self->out_pos++] = '\\\\';\n                        self->desc->input_buffer[self->out_pos++] = ch;\n                        self->escape_flag = false;\n                        break;",
 "        case USH_STATE_PARSE_QUOTE_ARG:\n                if (self->escape_flag != false) {\n                        if (ch == 'x')\n                                self->desc->input_buffer[self->out_pos++] = '\\\\';\n                        self->desc->input_buffer[self->out_pos++] = ch;\n                        self->escape_flag = (ch == '\\\\');\n                        break;")],
 "an escaped backslash inside quotes directly before the closing quote", "the closing quote is taken literally and the rest of the line joins the argument",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "x \"a\\\\\" b\n"); SAME(log_, "x|a\\|b;"); return g_bad; }''')

seed("C03-carry", "C03", [("src/src/ush_parse_utils.c",
 "        self->args_count = 0;\n        self->escape_flag = false;\n",
 "        self->args_count = 0;\n"), ("src/src/ush_parse_char.c",
 "                self->state = USH_STATE_RESET_PROMPT;\n                ush_parse_finish(self);\n",
 "                self->escape_flag = self->escape_flag && (self->state == USH_STATE_PARSE_STANDARD_ARG);\n                self->state = USH_STATE_RESET_PROMPT;\n                ush_parse_finish(self);\n")],
 "a line that ends in a backslash outside quotes, followed by another line", "the second character of the next line is taken literally",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "x a\\\n"); type(&sh, "x b\n"); SAME(log_, "x|a;x|b;"); return g_bad; }''')

seed("C04-shadow", "C04", [("src/src/ush_file.c",
 "        curr = self->commands;        \n        while (curr != NULL) {\n                for (size_t i = 0; i < curr->file_list_size; i++) {\n                        file = &curr->file_list[i];\n                        if (strcmp(file->name, name) == 0)\n                                return file;\n                }\n                curr = curr->next;                \n        }\n",
 "        struct ush_file_descriptor const *command = NULL;\n\n        curr = self->commands;        \n        while (curr != NULL) {\n                for (size_t i = 0; i < curr->file_list_size; i++) {\n                        file = &curr->file_list[i];\n                        if (strcmp(file->name, name) == 0)\n                                command = file;\n                }\n                curr = curr->next;                \n        }\n        if (command != NULL)\n                return command;\n")],
 "two groups with a command of the same name", "the oldest registered command runs instead of the latest",
 TREE + r'''
static void other(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { note("other;"); }
static const struct ush_file_descriptor a[] = { { .name = "x", .exec = x_exec } }, b[] = { { .name = "x", .exec = other } };
static struct ush_node_object root, ga, gb;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &gb, b, 1); settle(&sh);
 type(&sh, "x\n"); ush_commands_remove(&sh, &gb); type(&sh, "x\n"); SAME(log_, "other;x;"); return g_bad; }''')

seed("C05-dot-name", "C05", [("src/src/ush_utils.c",
 "                } else if (strcmp(nodes[i], \".\") == 0) {",
 "                } else if (nodes[i][0] == '.' && (nodes[i][1] == '\\0' || count > 1)) {")],
 "a directory or file whose name starts with a dot, two or more levels below the root", "the component is dropped from the path",
 TREE + r'''
static struct ush_node_object root, n1, n2, n3;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); ush_node_mount(&sh, "/a/b/.c", &n3, NULL, 0); settle(&sh);
 type(&sh, "cd /a/b/.c\n"); CHECK(strstr(type(&sh, "pwd\n"), "\n/a/b/.c\r\n")); return g_bad; }''')

seed("C05-dotdot", "C05", [("src/src/ush_utils.c",
 "                        if (count > 0)\n                                count--;\n                        continue;",
 "                        if (count > 0)\n                                count--;\n                        else\n                                i++;\n                        continue;")],
 "a path with more '..' than it has levels, followed by a name", "the name behind the surplus '..' is skipped",
 TREE + r'''
static struct ush_node_object root, n1, n2;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/b", &n2, NULL, 0); settle(&sh);
 type(&sh, "cd a\n"); CHECK(strstr(type(&sh, "cd ../../b\n"), "[h b]$")); return g_bad; }''')

seed("C06-empty-middle", "C06", [("src/src/commands/ush_cmd_cat.c",
 "                self->process_index_item++;\n                break;",
 "                self->process_index_item++;\n                if (data_size == 0)\n                        self->process_index_item = self->args_count;\n                break;")],
 "cat of several files of which one that is not the last returns no data", "the files behind the empty one are not printed",
 TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)"one"; return 3; }
static size_t g0(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)""; return 0; }
static const struct ush_file_descriptor files[] = { { .name = "one", .get_data = g1 }, { .name = "none", .get_data = g0 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 2); settle(&sh);
 CHECK(strstr(type(&sh, "cat one none one\n"), "oneone")); return g_bad; }''')

seed("C06-same-data", "C06", [("src/src/commands/ush_cmd_cat.c",
 "                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);\n",
 "                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);\n\n                /* named twice in a row */\n                if (self->process_index_item > 2 && strcmp(argv[self->process_index_item], argv[self->process_index_item - 2]) == 0) {\n                        self->process_index_item++;\n                        break;\n                }\n"), ("src/src/commands/ush_cmd_cat.c", "#include \"inc/ush_internal.h\"\n", "#include \"inc/ush_internal.h\"\n\n#include <string.h>\n")],
 "cat with a file named again two places later", "the second occurrence is not printed",
 TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)f->name; note(f->name); return 1; }
static const struct ush_file_descriptor files[] = { { .name = "a", .get_data = g1 }, { .name = "b", .get_data = g1 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 2); settle(&sh);
 type(&sh, "cat a b a\n"); SAME(log_, "aba"); return g_bad; }''')

seed("C07-offset", "C07", [("src/src/commands/ush_cmd_xxd.c",
 "                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, \"%08lX: \", self->process_index_item);",
 "                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, \"%08lX: \", (unsigned long)(uint8_t)self->process_index_item);")],
 "a file of more than 256 bytes", "offsets start again at zero after 256 bytes",
 TREE + r'''
static uint8_t data[300];
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = data; return sizeof data; }
static const struct ush_file_descriptor files[] = { { .name = "f", .get_data = g1 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 const char *o = type(&sh, "xxd f\n"); CHECK(strstr(o, "00000100: ")); CHECK(strstr(o, "00000128: ")); return g_bad; }''')

seed("C07-getter-twice", "C07", [("src/src/commands/ush_cmd_xxd.c",
 "                        if (self->process_index_item >= self->process_data_size) {\n",
 "                        if (self->process_index_item > self->process_data_size - (self->process_data_size < 2 * USH_CMD_XXD_COLUMNS)) {\n")],
 "a file of two or more dump lines whose size is a multiple of the column count", "an additional empty dump line is printed",
 TREE + r'''
static uint8_t data[24];
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = data; return sizeof data; }
static const struct ush_file_descriptor files[] = { { .name = "f", .get_data = g1 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 const char *o = type(&sh, "xxd f\n"); CHECK(strstr(o, "00000010: ")); CHECK(!strstr(o, "00000018: ")); return g_bad; }''')

seed("C08-parent", "C08", [("src/src/commands/ush_cmd_ls.c",
 "                if (self->process_node->parent != NULL) {",
 "                if (self->process_node->parent != NULL && self->process_node->parent != self->current_node->children) {")],
 "listing a directory whose parent is the first child of the current directory", "the parent entry is missing",
 TREE + r'''
static struct ush_node_object root, n1, n2;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); settle(&sh);
 CHECK(strstr(type(&sh, "ls /a/b\n"), "..")); return g_bad; }''')

seed("C08-flags", "C08", [("src/src/commands/ush_cmd_ls.c",
 "                        char is_help = (f->help != NULL) ? 'h' : '-';",
 "                        char is_help = ((f->help != NULL) && ((f->exec != NULL) || (f->description == NULL))) ? 'h' : '-';")],
 "a file with help and description that is not executable", "the help flag is missing",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "f", .help = "help", .description = "d" } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 CHECK(strstr(type(&sh, "ls\n"), "----h f")); return g_bad; }''')

seed("C09-group-end", "C09", [("src/src/commands/ush_cmd_help.c",
 "                        self->process_index = 0;\n                        self->process_index_item = 0;\n                        self->process_node = self->process_node->next;",
 "                        self->process_index = 0;\n                        self->process_index_item = 0;\n                        if (self->process_node->next != NULL && self->process_node->next->file_list == self->process_node->file_list)\n                                self->process_node = self->process_node->next;\n                        self->process_node = self->process_node->next;")],
 "the same command table registered twice in a row", "the commands of one of the two groups are listed once only",
 TREE + r'''
static const struct ush_file_descriptor a[] = { { .name = "zzz", .exec = x_exec } };
static struct ush_node_object root, ga, gb;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &gb, a, 1); settle(&sh);
 const char *o = type(&sh, "help\n"); o = strstr(o, "zzz"); CHECK(o); CHECK(o && strstr(o + 1, "zzz")); return g_bad; }''')

seed("C10-nul", "C10", [("src/src/commands/ush_cmd_echo.c",
 "                        f->set_data(self, f, data, data_size);",
 "                        f->set_data(self, f, data, strlen((char*)data) < data_size ? strlen((char*)data) + 1 : data_size);")],
 "echo of a text with \\x00 followed by more than one byte", "the setter gets the bytes up to the first NUL only",
 TREE + r'''
static void s1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { char b[100]; sprintf(b, "%d:", (int)n); note(b); for (size_t i = 0; i < n; i++) { sprintf(b, "%02x", d[i]); note(b); } }
static const struct ush_file_descriptor files[] = { { .name = "f", .set_data = s1 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "echo \\x41\\x00\\x42\\x43 > f\n"); SAME(log_, "4:41004243"); return g_bad; }''')

seed("C10-empty", "C10", [("src/src/commands/ush_cmd_echo.c",
 "                if (f != NULL) {\n                        f->set_data(self, f, data, data_size);",
 "                if (f != NULL) {\n                        if (data_size > 0)\n                                f->set_data(self, f, data, data_size);")],
 "echo of an empty text to a file", "the setter is not called",
 TREE + r'''
static void s1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { char b[100]; sprintf(b, "%d:", (int)n); note(b); }
static const struct ush_file_descriptor files[] = { { .name = "f", .set_data = s1 } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "echo \"\" > f\n"); SAME(log_, "0:"); return g_bad; }''')

seed("C11-stage", "C11", [("src/src/ush_autocomp_utils.c",
 "                        if (self->process_node == NULL)\n                                self->process_node = self->current_node;",
 "                        if (self->process_node == NULL || strlen(self->autocomp_input) < 2)\n                                self->process_node = self->root;")],
 "completing a directory name of which one character is typed, outside the root directory", "child directories of the root are offered instead of those of the current directory",
 TREE + r'''
static struct ush_node_object root, n1, n2, n3;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/qa", &n1, NULL, 0); ush_node_mount(&sh, "/qa/zebra", &n2, NULL, 0); settle(&sh);
 type(&sh, "cd qa\n"); SAME(type(&sh, "cd z\t"), "cd zebra"); return g_bad; }''')

seed("C11-suffix", "C11", [("src/src/ush_autocomp_state.c",
 "        self->autocomp_prev_count = 0;\n        self->autocomp_suffix_len = 0;\n",
 "        self->autocomp_prev_count = 0;\n"), ("src/src/ush_autocomp_state.c",
 "                default:\n                        self->autocomp_suffix_len = 0;\n                        autocomp_optimize(self);",
 "                default:\n                        if (self->autocomp_count < 3)\n                                self->autocomp_suffix_len = 0;\n                        autocomp_optimize(self);")],
 "a second TAB with three or more candidates after one that extended the word", "the characters added by the first TAB are echoed again",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "zoo1" }, { .name = "zoo2" }, { .name = "zoo3" } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 3); settle(&sh);
 SAME(type(&sh, "z\t"), "zoo"); SAME(type(&sh, "\t"), "\r\nzoo1\r\nzoo2\r\nzoo3\r\n" "\r\n" PROMPT("/") "zoo"); return g_bad; }''')

seed("C12-argv", "C12", [("src/src/ush_parse.c",
 "        char *argv[self->args_count + 1];", "        char *argv[self->args_count + (self->desc->exec != NULL)];")],
 "a command line on a shell without general callback", "the terminating NULL of the argument array is written behind it",
 TREE + r'''
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 type(&sh, "x a b\n"); SAME(log_, "x|a|b;"); return g_bad; }''')

seed("C12-collapse", "C12", [("src/src/ush_utils.c",
 "        char *nodes_out[levels];", "        char *nodes_out[levels > 4 ? levels - 1 : levels];")],
 "a path of five or more levels", "an array on the stack is written past its end",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 CHECK(strstr(type(&sh, "cd /a/b/c/d/e\n"), "directory not found")); CHECK(strstr(type(&sh, "cd /a/b/c/d/e/f\n"), "directory not found")); return g_bad; }''')

seed("C13-unlink", "C13", [("src/src/ush_node_mount.c",
 "                if (prev == NULL) {\n                        parent_node->children = node->next;\n                } else {\n                        prev->next = node->next;\n                }",
 "                if (prev == NULL) {\n                        parent_node->children = node->next;\n                } else {\n                        prev->next = node->next ? node->next->next : NULL;\n                }")],
 "unmounting a directory that is neither the first nor the last of its siblings", "the next sibling disappears with it",
 TREE + r'''
static struct ush_node_object root, n1, n2, n3;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/b", &n2, NULL, 0); ush_node_mount(&sh, "/c", &n3, NULL, 0); settle(&sh);
 ush_node_unmount(&sh, "/b"); CHECK(strstr(type(&sh, "cd /a\n"), "[h a]$")); return g_bad; }''')

seed("C13-lookup", "C13", [("src/src/ush_node.c",
 "                while (curr != NULL) {\n                        if (strcmp(curr->path, level_path) == 0) {",
 "                while (curr != NULL) {\n                        if ((i == levels && curr->path == path) || strcmp(curr->path, level_path) == 0 || (i < levels && curr->children != NULL && strncmp(curr->path, level_path, strlen(curr->path)) == 0)) {")],
 "two siblings, the name of the later mounted one a prefix of the other's, both with child directories", "directories below the longer one are not found",
 TREE + r'''
static struct ush_node_object root, n1, n2, n3, n4;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/ab", &n1, NULL, 0); ush_node_mount(&sh, "/ab/x", &n2, NULL, 0); ush_node_mount(&sh, "/a", &n3, NULL, 0); ush_node_mount(&sh, "/a/y", &n4, NULL, 0); settle(&sh);
 CHECK(ush_node_get_by_path(&sh, "/ab/x") == &n2); CHECK(strstr(type(&sh, "cd /ab/x\n"), "[h x]$")); return g_bad; }''')

seed("C14-remove", "C14", [("src/src/ush_commands.c",
 "                } else {\n                        prev->next = node->next;\n                }",
 "                } else {\n                        self->commands->next = node->next;\n                }")],
 "removing a group with two or more newer groups", "a newer group is removed as well",
 TREE + r'''
static const struct ush_file_descriptor a[] = { { .name = "ca", .exec = x_exec } }, b[] = { { .name = "cb", .exec = x_exec } }, c[] = { { .name = "cc", .exec = x_exec } };
static struct ush_node_object root, ga, gb, gc;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_commands_add(&sh, &ga, a, 1); ush_commands_add(&sh, &gb, b, 1); ush_commands_add(&sh, &gc, c, 1); settle(&sh);
 ush_commands_remove(&sh, &ga); type(&sh, "cb\n"); type(&sh, "cc\n"); SAME(log_, "cb;cc;"); return g_bad; }''')

seed("C15-static-index", "C15", [("src/src/commands/ush_cmd_cat.c",
 "        bool processed = true;\n\n        switch (self->state) {\n\n        case USH_STATE_PROCESS_START:\n                self->process_index_item = 1;",
 "        static size_t item;\n        bool processed = true;\n\n        switch (self->state) {\n\n        case USH_STATE_PROCESS_START:\n                item = 1;\n                self->process_index_item = 1;"),
 ("src/src/commands/ush_cmd_cat.c", "                if (self->process_index_item >= self->args_count) {", "                self->process_index_item = item;\n                if (self->process_index_item >= self->args_count) {"),
 ("src/src/commands/ush_cmd_cat.c", "                self->process_index_item++;\n                break;", "                item++;\n                break;")],
 "two shells that run cat of several files at the same time", "one of them skips files",
 TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)f->name; return 1; }
static const struct ush_file_descriptor files[] = { { .name = "a", .get_data = g1 }, { .name = "b", .get_data = g1 } };
static struct ush_node_object root, root2;
int main(void) { sh_new(&sh); sh_new(&sh2); ush_node_mount(&sh, "/", &root, files, 2); ush_node_mount(&sh2, "/", &root2, files, 2); settle(&sh); settle(&sh2);
 term_of(&sh)->out_len = 0; term_of(&sh2)->out_len = 0; feed(&sh, "cat a b a b\n"); feed(&sh2, "cat b a\n");
 for (int i = 0; i < 3000; i++) { ush_service(&sh); if (i % 2) ush_service(&sh2); }
 CHECK(strstr(term_of(&sh)->out, "\nabab")); CHECK(strstr(term_of(&sh2)->out, "\nba")); return g_bad; }''')

seed("C15-static-buf", "C15", [("src/src/ush_autocomp_utils.c",
 "                self->autocomp_name = ush_utils_path_last(self->process_node->path);",
 "                static const struct ush_node_object *last;\n                if (last != self->process_node || self->state == USH_STATE_AUTOCOMP_CANDIDATES_COUNT)\n                        self->autocomp_name = ush_utils_path_last(self->process_node->path);\n                last = self->process_node;")],
 "", "", "")
SEEDS.pop()

seed("C16-deinit", "C16", [("src/src/ush_node.c",
 "                struct ush_node_object *tmp = curr->next;\n                memset((uint8_t*)curr, 0, sizeof(struct ush_node_object));",
 "                struct ush_node_object *tmp = curr->next;\n                if (curr->children == NULL || curr->parent == NULL)\n                        memset((uint8_t*)curr, 0, sizeof(struct ush_node_object));")],
 "deinit of a tree with directories nested two levels deep", "directories with children keep their old content",
 TREE + r'''
static struct ush_node_object root, n1, n2, zero;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/a", &n1, NULL, 0); ush_node_mount(&sh, "/a/b", &n2, NULL, 0); settle(&sh);
 ush_deinit(&sh); CHECK(!memcmp(&root, &zero, sizeof zero)); CHECK(!memcmp(&n1, &zero, sizeof zero)); CHECK(!memcmp(&n2, &zero, sizeof zero)); return g_bad; }''')

seed("C16-reset-dir", "C16", [("src/src/ush_reset.c",
 "        self->current_node = self->root;\n",
 "        if (self->state != USH_STATE_WRITE_CHAR || self->write_next_state != USH_STATE_PROCESS_FINISH)\n                self->current_node = self->root;\n")],
 "a reset while ls prints its directory entries or xxd its last line, outside the root directory", "the shell does not return to the root directory",
 TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = (uint8_t *)f->name; return 1; }
static const struct ush_file_descriptor files[] = { { .name = "a", .get_data = g1 } };
static struct ush_node_object root, n1;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); ush_node_mount(&sh, "/d", &n1, files, 1); settle(&sh);
 for (int at = 1; at < 400; at++) { type(&sh, "cd /d\n"); feed(&sh, "xxd a\n"); for (int i = 0; i < at; i++) ush_service(&sh); ush_reset(&sh); feed(&sh, ""); settle(&sh); CHECK(strstr(type(&sh, "pwd\n"), "\n/\r\n")); } return g_bad; }''')

seed("C17-burst", "C17", [("src/src/ush_write.c",
 "                ush_write_char(self);\n                break;",
 "                ush_write_char(self);\n                /* line ends belong together */\n                if (self->state == USH_STATE_WRITE_CHAR && self->write_pos > 0 && self->write_buf[self->write_pos - 1] == '\\r')\n                        ush_write_char(self);\n                break;")],
 "any line end", "two bytes are written in one service call",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh); feed(&sh, "pwd\r");
 for (int i = 0; i < 500; i++) { size_t w = term_of(&sh)->writes; ush_service(&sh); CHECK(term_of(&sh)->writes - w <= 1); } return g_bad; }''')

seed("C17-busy", "C17", [("src/src/ush_read.c",
 "@@", "@@")], "", "", "")
SEEDS.pop()

seed("C18-continue", "C18", [("src/src/ush.c",
 "                /* Allow concatenation to output_buffer */\n                self->state = USH_STATE_WRITE_CHAR;\n                self->write_next_state = USH_STATE_RESET_PROMPT;",
 "                /* Allow concatenation to output_buffer */\n                self->state = USH_STATE_WRITE_CHAR;\n                if (self->write_next_state != USH_STATE_PROMPT_SUFFIX && self->write_next_state != USH_STATE_PROCESS_SERVICE)\n                        self->write_next_state = USH_STATE_RESET_PROMPT;")],
 "", "", "")
SEEDS.pop()

seed("C18-noflush", "C18", [("src/src/ush.c",
 "        ush_write_pointer(self, buf, USH_STATE_RESET_PROMPT);\n}\n\nvoid ush_flush",
 "        ush_write_pointer(self, buf, (*buf == '\\0') ? USH_STATE_READ_PREPARE : USH_STATE_RESET_PROMPT);\n}\n\nvoid ush_flush")],
 "printing an empty text without newline", "no prompt follows",
 TREE + r'''
static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_print_no_newline(s, ""); }
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = p } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 SAME(type(&sh, "x\n"), "x\n" PROMPT("/")); return g_bad; }''')

seed("C18-second", "C18", [("src/src/ush.c",
 "        size_t write_size_max = self->desc->output_buffer_size - insert_idx;\n",
 "        size_t write_size_max = self->desc->output_buffer_size - insert_idx - (insert_idx > 0);\n")],
 "a second formatted print that fills the output buffer to the last byte", "the text is cut and marked as overflow although it fits",
 TREE + r'''
static void p(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { ush_printf(s, "%s", "0123456789"); ush_printf(s, "%s", "abcdefghijklmnopqrstu"); }
static const struct ush_file_descriptor files[] = { { .name = "x", .exec = p } };
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh);
 SAME(type(&sh, "x\n"), "x\n0123456789abcdefghijklmnopqrstu" PROMPT("/")); return g_bad; }''', defs="#define OUT_SIZE 32\n")

seed("C19-pwd", "C19", [("src/src/commands/ush_cmd.c",
 "#if USH_CONFIG_ENABLE_COMMAND_PWD == 1\n        {", "#if USH_CONFIG_ENABLE_COMMAND_PWD == 1 && USH_CONFIG_ENABLE_COMMAND_CD == 1\n        {")],
 "a build without the cd command", "pwd is missing too",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 CHECK(strstr(type(&sh, "pwd\n"), "\n/\r\n")); return g_bad; }''', extra="CFG:CD=0")

seed("C19-styles", "C19", [("src/src/commands/ush_cmd_help.c",
 "                                ush_write_pointer(self, USH_SHELL_FONT_STYLE_RESET \"\\r\\n\", self->state);",
 "                                ush_write_pointer(self, (sizeof(USH_SHELL_FONT_STYLE_RESET) > 1) ? USH_SHELL_FONT_STYLE_RESET \"\\r\\n\" : \"\\n\", self->state);")],
 "a build without terminal styles", "lines of the command list with a description end in LF instead of CRLF",
 TREE + r'''
static struct ush_node_object root;
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 CHECK(strstr(type(&sh, "help\n"), "list directory content\r\n")); return g_bad; }''', extra="CFG:STYLES=0")

seed("C21-heap", "C21", [("src/src/ush_utils.c",
 "        char *nodes_out[levels];\n", "        char *small_out[8];\n        char **nodes_out = (levels > 8) ? malloc(levels * sizeof(char*)) : small_out;\n"),
 ("src/src/ush_utils.c", "        out_path[0] = '\\0';\n        if (count == 0) {\n                strcat(out_path, \"/\");\n                return;\n        }\n",
  "        out_path[0] = '\\0';\n        if (count == 0)\n                strcat(out_path, \"/\");\n"),
 ("src/src/ush_utils.c", "                strcat(out_path, nodes_out[i]);\n        }\n", "                strcat(out_path, nodes_out[i]);\n        }\n\n        if (nodes_out != small_out)\n                free(nodes_out);\n"),
 ("src/src/ush_utils.c", "#include <string.h>\n", "#include <stdlib.h>\n#include <string.h>\n")],
 "a path of more than eight levels", "the library allocates memory",
 TREE + r'''
static struct ush_node_object root;
extern void *__libc_malloc(size_t);
int main(void) { sh_new(&sh); ush_node_mount(&sh, "/", &root, NULL, 0); settle(&sh);
 feed(&sh, "cd /a/b/c/d/e/f/g/h/i/j/k\n"); g_count = 1; settle(&sh); g_count = 0; CHECK(g_n == 0); return g_bad; }''',
 extra="MALLOC", defs="")

seed("C21-vla", "C21", [("src/src/commands/ush_cmd_xxd.c",
 "        self->process_data_size = f->get_data(self, f, &self->process_data);\n        ush_process_start(self, file);",
 "        self->process_data_size = f->get_data(self, f, &self->process_data);\n\n        /* data must not change between the lines of a dump */\n        uint8_t snapshot[self->process_data_size + 1];\n        memcpy(snapshot, self->process_data, self->process_data_size);\n        if (memcmp(snapshot, self->process_data, self->process_data_size) != 0)\n                self->process_data_size = 0;\n\n        ush_process_start(self, file);")],
 "xxd of a large file", "the stack used grows with the size of the data",
 TREE + r'''
#include <sys/resource.h>
#include <pthread.h>
static uint8_t data[3000000];
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { *d = data; return sizeof data; }
static const struct ush_file_descriptor files[] = { { .name = "f", .get_data = g1 } };
static struct ush_node_object root;
static void *run(void *p) { sh_new(&sh); ush_node_mount(&sh, "/", &root, files, 1); settle(&sh); feed(&sh, "xxd f\n"); for (int i = 0; i < 3000; i++) ush_service(&sh); CHECK(strstr(term_of(&sh)->out, "00000008: ")); return NULL; }
int main(void) { pthread_attr_t a; pthread_t t; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1000000); pthread_create(&t, &a, run, NULL); pthread_join(t, NULL); return g_bad; }''')

import seeds2
seeds2.add(seed, TREE)
import seeds3
seeds3.add(seed, TREE)
import seeds4
seeds4.add(seed, TREE)
import seeds5
import seeds6, seeds7
seeds5.add(seed, TREE)
seeds6.add(seed, TREE)
seeds7.add(seed, TREE)
DROPPED = set("C03-quote-escape C05-dotdot C07-getter-twice C07-offset C08-flags C08-parent C09-group-end C10-nul C11-stage C11-suffix C14-remove C15-static-index C16-deinit C19-styles C21-vla".split()) | seeds2.SKIP | seeds3.SKIP | seeds4.SKIP | seeds5.SKIP | seeds6.SKIP | seeds7.SKIP
# -------------------------------------------------------------------------------------------------------------------
CFG = '''#define USH_CONFIG_FILENAME_ALIGN_SPACE 16
#define USH_CONFIG_CMD_XXD_COLUMNS 8
#define USH_CONFIG_ENABLE_COMMAND_CAT 1
#define USH_CONFIG_ENABLE_COMMAND_CD 1
#define USH_CONFIG_ENABLE_COMMAND_ECHO 1
#define USH_CONFIG_ENABLE_COMMAND_HELP 1
#define USH_CONFIG_ENABLE_COMMAND_LS 1
#define USH_CONFIG_ENABLE_COMMAND_PWD 1
#define USH_CONFIG_ENABLE_COMMAND_XXD 1
#define USH_CONFIG_ENABLE_FEATURE_COMMANDS 1
#define USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE 1
#define USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES 1
'''
def main():
    only = os.sys.argv[1:]
    for id, prop, edits, needs, breaks, demo, extra, defs in SEEDS:
        if (only and id not in only) or id in DROPPED: continue
        d = OUT / id
        if d.exists(): shutil.rmtree(d)
        d.mkdir(parents=True)
        w = pathlib.Path(tempfile.mkdtemp())
        subprocess.check_call(["git", "clone", "-q", "/repo", str(w / "r")])
        for f, a, b in edits:
            p = w / "r" / f
            s = p.read_text()
            if s.count(a) != 1: print("%s: %s: %d matches for\n%s" % (id, f, s.count(a), a)); break
            p.write_text(s.replace(a, b))
        (d / "patch.diff").write_text(subprocess.check_output(["git", "-C", str(w / "r"), "diff"], text=True))
        shutil.rmtree(w)
        sh = (HERE / "demo.sh").read_text()
        flags = ""
        if extra.startswith("CFG:"):
            k, v = extra[4:].split("=")
            cfg = CFG
            key = {"STYLES": "ENABLE_FEATURE_SHELL_STYLES", "TAB": "ENABLE_FEATURE_AUTOCOMPLETE", "COLS": "CMD_XXD_COLUMNS", "ALIGN": "FILENAME_ALIGN_SPACE"}.get(k, "ENABLE_COMMAND_" + k)
            cfg = re.sub("CONFIG_%s \\d+" % key, "CONFIG_%s %s" % (key, v), cfg)
            posix = pathlib.Path("/repo/src/config/posix/ush_config.h").read_text()
            tr = "".join(l + "\n" for l in posix.splitlines() if "TRANSLATION" in l or "define USH_ASSERT" in l)
            if " " in v: tr = re.sub('(TRANSLATION_%s) .*' % k, lambda m: m[1] + ' "%s"' % v, tr)
            (d / "cfg.h").write_text("#include <stdio.h>\n#include <stdlib.h>\n" + cfg + tr)
            flags = "'-DUSH_CONFIG_CUSTOM_FILE=\"cfg.h\"'"
        if extra == "MALLOC":
            sh = sh.replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", "-Wl,--wrap=malloc ")
            demo = "static int g_count, g_n;\nvoid *__real_malloc(size_t n);\nvoid *__wrap_malloc(size_t n) { g_n += g_count; return __real_malloc(n); }\n" + demo
        if extra == "STRDUP":
            sh = sh.replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", "-fno-builtin -Wl,--wrap=strdup ")
        if extra == "THREAD":
            sh = sh.replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", "-pthread ")
        if "C21-vla" == id:
            sh = sh.replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", "-pthread ")
        (d / "demo.sh").write_text(sh.replace("@EXTRA@", flags))
        shutil.copy(HERE / "h.h", d / "h.h")
        (d / "demo.c").write_text(defs + '#include "h.h"\n' + demo.strip() + "\n")
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
if __name__ == "__main__": main()
