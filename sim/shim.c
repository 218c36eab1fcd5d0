/* Per-variant glue: everything that depends on the layout of struct ush_object or on the configuration. */
#include <microshell.h>
#include <string.h>

struct shim_cfg { int autocomp, styles, feat_cmds, c_cat, c_cd, c_echo, c_help, c_ls, c_pwd, c_xxd, align, cols, translated, asserts; };

size_t shim_object_size(void) { return sizeof(struct ush_object); }
size_t shim_node_size(void) { return sizeof(struct ush_node_object); }
size_t shim_file_size(void) { return sizeof(struct ush_file_descriptor); }
size_t shim_desc_size(void) { return sizeof(struct ush_descriptor); }

void shim_config(struct shim_cfg *c)
{
        memset(c, 0, sizeof(*c));
        c->autocomp = SIM_AUTOCOMP;
        c->styles = SIM_STYLES;
        c->feat_cmds = SIM_COMMANDS;
#if SIM_COMMANDS
        c->c_cat = SIM_CAT; c->c_cd = SIM_CD; c->c_echo = SIM_ECHO; c->c_help = SIM_HELP;
        c->c_ls = SIM_LS; c->c_pwd = SIM_PWD; c->c_xxd = SIM_XXD;
#endif
        c->align = SIM_ALIGN;
        c->cols = SIM_COLS;
        c->translated = SIM_TRANSLATED;
        c->asserts = SIM_ASSERTS;
}

/* descriptor and table construction, so that the simulator needs no library header */
void shim_file_fill(void *where, size_t index, const char *name, const char *desc, const char *help, void *exec, void *get, void *set)
{
        struct ush_file_descriptor *f = (struct ush_file_descriptor *)where + index;
        memset(f, 0, sizeof(*f));
        f->name = name;
        f->description = desc;
        f->help = help;
        f->exec = (ush_file_execute_callback)exec;
        f->get_data = (ush_file_data_getter)get;
        f->set_data = (ush_file_data_setter)set;
}

void shim_io_fill(struct ush_io_interface *io, void *rd, void *wr)
{
        io->read = (ush_io_interface_read_char)rd;
        io->write = (ush_io_interface_write_char)wr;
}
size_t shim_io_size(void) { return sizeof(struct ush_io_interface); }

void shim_desc_fill(struct ush_descriptor *d, const struct ush_io_interface *io, char *in, size_t in_size, char *out, size_t out_size,
                    size_t path_max, char *host, void *exec)
{
        memset(d, 0, sizeof(*d));
        d->io = io;
        d->input_buffer = in;
        d->input_buffer_size = in_size;
        d->output_buffer = out;
        d->output_buffer_size = out_size;
        d->path_max_length = path_max;
        d->hostname = host;
        d->exec = (ush_file_execute_callback)exec;
}

size_t shim_file_index(const struct ush_file_descriptor *f, const void *table) { return (size_t)(f - (const struct ush_file_descriptor *)table); }
const char *shim_node_path(const struct ush_node_object *n) { return n->path; }
void shim_printf_s(struct ush_object *self, const char *text) { ush_printf(self, "%s", text); }
void shim_printf_fmt(struct ush_object *self, const char *text, int n) { ush_printf(self, "%d:%s", n, text); }
void shim_printf_bad(struct ush_object *self) { ush_printf(self, "%lc", 0xffffffff); }
