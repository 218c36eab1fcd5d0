/* Small terminal around one or more shells, for demonstrations. */
#include <microshell.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifndef IN_SIZE
#define IN_SIZE 128
#endif
#ifndef OUT_SIZE
#define OUT_SIZE 128
#endif
#ifndef PATH_MAX_LEN
#define PATH_MAX_LEN 128
#endif
#define MAXT 4

static struct term {
        struct ush_object *obj;
        const char *in; size_t in_len, in_pos;
        char out[400000]; size_t out_len;
        int refuse_every;       /* refuse the first offer of every n-th byte */
        size_t offers; int refused;
        size_t reads, writes;
} g_term[MAXT];
static int g_terms;

static struct term *term_of(struct ush_object *self)
{
        for (int i = 0; i < g_terms; i++) if (g_term[i].obj == self) return &g_term[i];
        fprintf(stderr, "unknown shell\n");
        exit(9);
}
static int t_read(struct ush_object *self, char *ch)
{
        struct term *t = term_of(self);
        t->reads++;
        if (t->in_pos >= t->in_len) return 0;
        *ch = t->in[t->in_pos++];
        return 1;
}
static int t_write(struct ush_object *self, char ch)
{
        struct term *t = term_of(self);
        t->writes++;
        if (t->refuse_every && !t->refused && (t->offers % (size_t)t->refuse_every) == 0) { t->refused = 1; return 0; }
        t->refused = 0;
        t->offers++;
        if (t->out_len + 1 < sizeof(t->out)) t->out[t->out_len++] = ch;
        t->out[t->out_len] = 0;
        return 1;
}
static const struct ush_io_interface g_io = { .read = t_read, .write = t_write };
static struct ush_descriptor g_desc[MAXT];
static char g_in[MAXT][IN_SIZE], g_out[MAXT][OUT_SIZE], g_host[MAXT][8];

static struct term *sh_new(struct ush_object *obj)
{
        int i = g_terms++;
        g_term[i].obj = obj;
        strcpy(g_host[i], "h");
        g_desc[i].io = &g_io;
        g_desc[i].input_buffer = g_in[i]; g_desc[i].input_buffer_size = IN_SIZE;
        g_desc[i].output_buffer = g_out[i]; g_desc[i].output_buffer_size = OUT_SIZE;
        g_desc[i].path_max_length = PATH_MAX_LEN;
        g_desc[i].hostname = g_host[i];
        ush_init(obj, &g_desc[i]);
        return &g_term[i];
}
/* service until nothing happens any more */
static void settle(struct ush_object *obj)
{
        struct term *t = term_of(obj);
        int quiet = 0;
        for (long n = 0; n < 3000000 && quiet < 3; n++) {
                size_t before = t->out_len + t->in_pos;
                if (ush_service(obj)) quiet = 0;
                else if (before == t->out_len + t->in_pos) quiet++;
        }
        if (quiet < 3) { fprintf(stderr, "shell does not settle\n"); exit(8); }
}
static void feed_n(struct ush_object *obj, const char *s, size_t n)
{
        struct term *t = term_of(obj);
        t->in = s; t->in_len = n; t->in_pos = 0;
}
static void feed(struct ush_object *obj, const char *s) { feed_n(obj, s, strlen(s)); }
/* type, wait, and return what was printed */
static const char *type_n(struct ush_object *obj, const char *s, size_t n)
{
        struct term *t = term_of(obj);
        t->out_len = 0; t->out[0] = 0;
        feed_n(obj, s, n);
        settle(obj);
        return t->out;
}
static const char *type(struct ush_object *obj, const char *s) { return type_n(obj, s, strlen(s)); }

static int g_bad;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "%s:%d: not true: %s\n", __FILE__, __LINE__, #c); g_bad = 1; } } while (0)
#define SAME(got, want) do { const char *g_ = (got), *w_ = (want); if (strcmp(g_, w_)) { fprintf(stderr, "%s:%d:\n got  [%s]\n want [%s]\n", __FILE__, __LINE__, g_, w_); g_bad = 1; } } while (0)
#define PROMPT(dir) "\033[35m[h " dir "]$ \033[0m"
