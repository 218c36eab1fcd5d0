#include "exec.hpp"
#include "lib.hpp"
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <functional>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

const char *const VARIANT_NAME[V__N] = { "stock", "nostyle", "notab", "nocmd", "hce", "lcpx", "arduino", "minimal", "demo", "stack",
    "no-help", "no-ls", "no-cd", "no-pwd", "no-cat", "no-xxd", "no-echo",
    "only-help", "only-ls", "only-cd", "only-pwd", "only-cat", "only-xxd", "only-echo", "mix1", "mix2", "mix3", "mix4",
    "sk-basic", "sk-basic128", "sk-adv", "sk-adv128", "sk-init" };
const char *const STAT_NAME[S__N] = {
    "service_calls", "bytes_in", "bytes_out", "reads_without_data", "reads_starved_mid_input", "failed_read_clobbers_char", "writes_refused",
    "long_stalls", "callbacks", "lines", "tabs", "ctrl_c", "escapes", "erases", "input_overflows", "actions_mid_activity", "actions_idle",
    "actions_deferred", "actions_dropped", "actions_in_callbacks", "ambiguous_points", "resets", "resets_mid_activity", "reinits", "power_cycles",
    "mounts_ok", "mounts_refused", "unmounts_ok", "unmounts_refused", "unmounts_of_cwd", "groups_added", "groups_removed",
    "group_removals_refused", "prints_mid_activity", "formatted_overflows", "getter_without_data", "getter_prints", "files_vanished",
    "completions_not_fitting", "paths_too_long", "shell_switches", "eof_injected", "clock_changes", "junk_memory_runs",
    "write_protected_runs", "multi_shell_runs", "runs_ended_at_known_finding", "objects_reused", "initialisations_refused",
    "processings_started", "processing_steps", "processings_interrupted", "files_replaced", "nested_services", "actions_on_other_shells" };

Progress g_progress_local;
Progress *g_progress = &g_progress_local;

static Lib g_lib[V__N];
static const size_t MAXEDGE = 1 << 16;
static u8 g_edge[MAXEDGE];
static uint32_t g_nedge = 1;

// ------------------------------------------------------------------------------------------------ library binding
static int phdr_cb(struct dl_phdr_info *info, size_t, void *data)
{
    Lib *l = (Lib *)data;
    struct link_map *lm = (struct link_map *)l->h;
    if ((uintptr_t)info->dlpi_addr != (uintptr_t)lm->l_addr) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &ph = info->dlpi_phdr[i];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        Lib::Seg s;
        s.p = (u8 *)(info->dlpi_addr + ph.p_vaddr);
        s.n = ph.p_memsz;
        l->segs.push_back(s);
    }
    return 0;
}
__attribute__((no_sanitize("address"))) static void seg_save(Lib &l)
{
    for (auto &s : l.segs) { s.save.resize(s.n); for (size_t i = 0; i < s.n; i++) ((volatile u8 *)s.save.data())[i] = ((volatile u8 *)s.p)[i]; }
}
__attribute__((no_sanitize("address"))) static void seg_restore(Lib &l)
{
    for (auto &s : l.segs) {
        size_t i = 0;
        const u8 *sv = s.save.data();
        for (; i + 8 <= s.n; i += 8) {
            u64 a = *(volatile u64 *)(s.p + i), b = *(const u64 *)(sv + i);
            if (a != b) *(volatile u64 *)(s.p + i) = b;
        }
        for (; i < s.n; i++) if (((volatile u8 *)s.p)[i] != sv[i]) ((volatile u8 *)s.p)[i] = sv[i];
    }
}

bool lib_has_proc(int v) { return g_lib[v].proc_start != nullptr; }
bool lib_loaded(int v) { return g_lib[v].h != nullptr; }
const Cfg &lib_cfg(int v) { return g_lib[v].cfg; }
size_t lib_edges_total() { return g_nedge - 1; }
size_t lib_edges_seen(vector<u8> *bits)
{
    size_t n = 0;
    for (size_t i = 1; i < g_nedge && i < MAXEDGE; i++) n += g_edge[i] != 0;
    if (bits) bits->assign(g_edge, g_edge + std::min((size_t)g_nedge, MAXEDGE));
    return n;
}

bool lib_load(int v, const string &dir, string &err)
{
    Lib &l = g_lib[v];
    if (l.h) return true;
    string path = dir + "/lib_" + VARIANT_NAME[v] + ".so";
    l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) { err = dlerror(); return false; }
    bool ok = true;
    auto sym = [&](const char *n, bool need = true) { void *p = dlsym(l.h, n); if (!p && need) { ok = false; err = string("missing ") + n; } return p; };
#define S(field, name) *(void **)&l.field = sym(name)
#define O(field, name) *(void **)&l.field = sym(name, false)
    S(init, "ush_init"); S(deinit, "ush_deinit"); S(service, "ush_service"); S(print, "ush_print"); S(print_no_newline, "ush_print_no_newline");
    S(print_status, "ush_print_status"); S(flush, "ush_flush"); S(reset, "ush_reset");
    S(mount, "ush_node_mount"); S(unmount, "ush_node_unmount"); S(chdir, "ush_node_set_current_dir");
    O(by_path, "ush_node_get_by_path"); O(parent, "ush_node_get_parent_by_path"); O(abs, "ush_node_get_absolute_path"); O(find, "ush_file_find_by_name");
    S(gadd, "ush_commands_add"); S(gdel, "ush_commands_remove");
    S(file_fill, "shim_file_fill"); S(io_fill, "shim_io_fill"); S(desc_fill, "shim_desc_fill"); S(file_index, "shim_file_index");
    O(proc_fill, "shim_proc_fill"); O(proc_start, "shim_proc_start"); O(proc_state, "shim_proc_state"); O(proc_write, "shim_proc_write");
    O(proc_write_bin, "shim_proc_write_bin"); O(proc_goto, "shim_proc_goto"); O(proc_put, "shim_proc_put"); O(proc_same, "shim_proc_same");
    S(printf_s, "shim_printf_s"); S(printf_fmt, "shim_printf_fmt"); S(printf_bad, "shim_printf_bad");
#undef S
#undef O
    struct { int v[14]; } raw;
    memset(&raw, 0, sizeof raw);
    void (*cf)(void *);
    *(void **)&cf = sym("shim_config");
    size_t (*sz)(void);
    if (!ok) return false;
    cf(&raw);
    Cfg &c = l.cfg;
    c.autocomp = raw.v[0]; c.styles = raw.v[1]; c.feat_cmds = raw.v[2]; c.c_cat = raw.v[3]; c.c_cd = raw.v[4]; c.c_echo = raw.v[5];
    c.c_help = raw.v[6]; c.c_ls = raw.v[7]; c.c_pwd = raw.v[8]; c.c_xxd = raw.v[9]; c.align = raw.v[10]; c.cols = raw.v[11];
    c.translated = raw.v[12]; c.asserts = raw.v[13];
    *(void **)&sz = sym("shim_object_size"); l.obj_size = sz();
    *(void **)&sz = sym("shim_node_size"); l.node_size = sz();
    *(void **)&sz = sym("shim_file_size"); l.file_size = sz();
    *(void **)&sz = sym("shim_desc_size"); l.desc_size = sz();
    *(void **)&sz = sym("shim_io_size"); l.io_size = sz();
    if (v == V_DEMO) {
        *(void **)&l.demo_open = sym("demo_shim_open");
        *(void **)&l.demo_init = sym("shell_init");
        *(void **)&l.demo_service = sym("shell_service");
        if (!ok) return false;
    }
    if (is_sketch(v)) {
        *(void **)&l.demo_open = sym("sketch_open");
        *(void **)&l.demo_init = sym("sketch_init");
        *(void **)&l.demo_service = sym("sketch_service");
        if (!ok) return false;
    }
    dl_iterate_phdr(phdr_cb, &l);
    seg_save(l);
    return ok;
}

// ------------------------------------------------------------------------------------------------ engine
struct Snap { u8 *p; string copy; };

struct ShellRt {
    const ShellSpec *spec = nullptr;
    int idx = 0;
    u8 *obj = nullptr;
    char *in = nullptr, *out = nullptr, *host = nullptr;
    void *desc = nullptr;
    vector<World> w;
    std::map<int, u8 *> nodes;              // mounted directories: instance id -> memory
    vector<std::pair<int, u8 *>> groups;    // registered groups
    vector<std::pair<int, int>> gtable;     // instance id -> table
    std::deque<std::pair<u64, char>> rx;
    u64 last_arrival = 0;
    u64 next = 0;
    size_t period_i = 0, tx_i = 0;
    int tx_left = 0;
    size_t item = 0;
    bool item_started = false;
    u64 item_base = 0;
    u64 services = 0, out_count = 0, msgs = 0;   // msgs: output pieces other than echo delivered in full
    bool idle = false, done = false, dead = false, refused = false;
    bool drain = false;
    char refused_ch = 0;
    u64 refused_run = 0;
    u64 stuck = 0;
    int reads = 0, writes = 0;
    bool read_zero = false, early_idle = false;
    bool tab_used = false;
    int recov = 0;
    int last_ch = -1;
    int lastact = P_BOOT;
    int calls = 0, gcalls = 0;
    vector<Snap> snaps;
    FRef proc_at;
    int restarts = 0;
    std::map<std::pair<int, int>, Snap> vol;
    size_t bound = 0;
    int defer = 0;
    int active = 0;             // inside one of its callbacks
    string logbuf;
};

struct Engine;
static Engine *E = nullptr;
static u64 g_edges_in_call;
static uintptr_t g_min_sp;
static bool g_measure;
static u64 g_allocs;
static bool g_count_heap;

struct Engine {
    const Plan &plan;
    RunOpts opt;
    Lib &lib;
    Result res;
    ModelEnv env;
    vector<ShellRt> sh;
    u64 now = 0;
    sigjmp_buf jb;
    int depth = 0;              // inside a library call made by the simulator (outermost one owns jb)
    int cb = 0;                 // inside a callback
    bool stop = false;
    int next_id = 1;
    vector<void *> pool;        // heap blocks to free
    vector<std::pair<u8 *, string>> consts;
    u8 *arena = nullptr; size_t arena_used = 0, arena_size = 0;
    vector<void *> table_mem;
    vector<vector<string>> filedata;    // live contents of the application's files
    u64 clock = 1000000, time_last = 0, rand_k = 0, rand_seed = 0;
    ShellRt *cur = nullptr;
    std::map<void *, ShellRt *> by_obj;
    bool demo, sketch;     // an application of examples/ runs instead of the generated one; it is an Arduino sketch

    Engine(const Plan &p, const RunOpts &o) : plan(p), opt(o), lib(g_lib[p.variant]), demo(is_app(p.variant)), sketch(is_sketch(p.variant)) {}

    // -------------------------------------------------------------- logging and failing
    void flog(ShellRt *s)
    {
        if (s && !s->logbuf.empty()) {
            string b = s->logbuf; s->logbuf.clear();
            line(s, "out " + show(b));
        }
    }
    void line(ShellRt *s, const string &t)
    {
        if (res.log.size() > opt.log_max) return;
        res.log += "t=" + std::to_string(now) + (s ? " sh" + std::to_string(s->idx) : string("")) + " " + t + "\n";
    }
    void log(ShellRt *s, const string &t) { if (opt.log) { flog(s); line(s, t); } }
    void ev(ShellRt *s, int type, u64 data)
    {
        u64 r[4] = { now, (u64)s->idx, (u64)type, data };
        res.hash = fnv(res.hash, r, sizeof r);
        u8 k[2] = { (u8)s->idx, (u8)type };
        res.sched = fnv(res.sched, k, 2);
        g_progress->hash = res.hash;
    }
    void fail(ShellRt *s, int kind, int phase, const string &msg)
    {
        if (res.kind == K_NONE) {
            res.kind = kind; res.phase = phase; res.msg = msg; res.shell = s ? s->idx : -1;
            res.tab_used = s && s->tab_used;
            res.recov = s ? s->recov : 0;
            res.refused = s && s->refused;
            res.lastact = s ? s->lastact : P_BOOT;
            res.last = s ? s->last_ch : -1;
            if (s && !s->w.empty()) { World c = s->w[0]; if (!c.q.empty()) c.settle(); if (!c.q.empty() && c.q.front().type == E_OUT) res.exp = c.q.front().s.substr(c.q.front().pos); }
            if (opt.log) { flog(s); line(s, string("FAIL ") + KIND_NAME[kind] + " in " + PHASE_NAME[phase] + ": " + msg); }
        }
        stop = true;
        if (depth > 0) { siglongjmp(jb, 1); }
    }

    template <class F> bool in_lib(F f)
    {
        if (depth > 0) {
            int scb = cb; bool sh_ = g_count_heap, sm = g_measure;
            cb = 0; g_count_heap = true; g_measure = false; g_progress->in_lib = 1;
            f();
            g_progress->in_lib = 0; cb = scb; g_count_heap = sh_; g_measure = sm;
            return true;
        }
        volatile uintptr_t base = (uintptr_t)__builtin_frame_address(0);
        g_edges_in_call = 0; g_min_sp = base; g_allocs = 0;
        if (sigsetjmp(jb, 0) == 0) {
            depth = 1; g_count_heap = true; g_measure = true; g_progress->in_lib = 1;
            f();
            depth = 0; g_progress->in_lib = 0; g_count_heap = false; g_measure = false;
            long used = (long)(base - g_min_sp);
            if (used > res.stack) res.stack = used;
            if (g_allocs && !stop) { fail(cur, K_HEAP, cur ? act_phase(*cur) : P_IDLE, "library called the memory allocator " + std::to_string(g_allocs) + " times"); return false; }
            return true;
        }
        depth = 0; cb = 0; g_count_heap = false; g_measure = false; g_progress->in_lib = 0;
        return false;
    }
    struct CbScope {
        Engine &e; bool h, m;
        explicit CbScope(Engine &x) : e(x), h(g_count_heap), m(g_measure) { e.cb++; g_progress->in_lib = 0; g_count_heap = false; g_measure = false; }
        ~CbScope() { e.cb--; g_progress->in_lib = e.cb == 0 && e.depth > 0; g_count_heap = h; g_measure = m; }
    };

    // what is going on, for attributing a crash or hang
    bool expect_assert = false, asserted = false;
    int api = -1;   // the activity an API call of the application belongs to, while it runs
    struct ApiScope {
        Engine &e; int old; int oldp;
        ApiScope(Engine &en, int ph) : e(en), old(en.api), oldp(g_progress->phase) { if (ph >= 0) { e.api = ph; g_progress->phase = ph; } }
        ~ApiScope() { e.api = old; g_progress->phase = oldp; }
    };
    static int op_phase(int op, int pphase)
    {
        switch (op) {
        case A_MOUNT: case A_UNMOUNT: case A_REROOT: return P_TREE;
        case A_GADD: case A_GDEL: return P_GROUP;
        case A_CHDIR: return P_CHDIR;
        case A_QPATH: case A_QFILE: case A_QABS: case A_QPARENT: return P_QUERY;
        case A_RESET: case A_REINIT: case A_POWER: return P_RECOV;
        case A_PRINT: case A_PRINTNN: case A_STATUS: case A_PRINTF: case A_PRINTFMT: case A_PRINTBAD: case A_FLUSH: case A_PRINTARG: return pphase;
        }
        return -1;
    }
    int act_phase(ShellRt &s)
    {
        if (api >= 0) return api;
        if (s.w.empty()) return P_BOOT;
        World &w = s.w[0];
        if (w.in_call) return w.cur.phase;
        if (w.q.empty()) return w.lastphase;
        if (w.q.front().type == T_DISPATCH) {
            World c = w;
            c.settle();
            return c.q.empty() ? P_DISP : c.q.front().phase;
        }
        return w.q.front().phase;
    }

    // -------------------------------------------------------------- memory
    void *cmem(const void *data, size_t n)      // constant memory
    {
        if (arena) {
            size_t a = (arena_used + 15) & ~(size_t)15;
            if (a + n <= arena_size) { memcpy(arena + a, data, n); arena_used = a + n; return arena + a; }
        }
        u8 *p = (u8 *)malloc(n ? n : 1);
        memcpy(p, data, n);
        pool.push_back(p);
        consts.push_back({p, string((const char *)data, n)});
        return p;
    }
    void *cmem_late(size_t n) { void *p = malloc(n ? n : 1); pool.push_back(p); return p; }
    char *cstr(const string &s) { return (char *)cmem(s.c_str(), s.size() + 1); }
    Rng fillrng{1};
    void junk(void *p, size_t n)
    {
        if (plan.fill == 0) memset(p, 0, n);
        else if (plan.fill == 1) memset(p, 0xff, n);
        else for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)fillrng.next();
    }
    void check_consts(ShellRt *s)
    {
        for (auto &c : consts)
            if (memcmp(c.first, c.second.data(), c.second.size()) != 0) { fail(s, K_DATA, P_IDLE, "constant memory was modified"); return; }
    }

    // -------------------------------------------------------------- worlds
    void dedupe(ShellRt &s)
    {
        if (s.w.size() < 2) return;
        std::set<string> seen;
        vector<World> o;
        for (auto &w : s.w) if (seen.insert(w.key()).second) o.push_back(std::move(w));
        s.w.swap(o);
    }
    void expand(ShellRt &s)     // every state the shell may silently have reached by now
    {
        bool any = false;
        for (auto &w : s.w) if (w.tau_at_head()) any = true;
        if (!any) return;
        vector<World> o;
        for (auto &w : s.w) {
            o.push_back(std::move(w));
            while (o.back().tau_at_head()) { World n = o.back(); n.step_tau(); o.push_back(std::move(n)); }
        }
        s.w.swap(o);
        dedupe(s);
        if (s.w.size() > 1) res.stat[S_WORLDS]++;
    }
    template <class F> bool filter(ShellRt &s, F keep)
    {
        if (s.w.size() == 1) return keep(s.w[0]);
        vector<char> k;
        size_t n = 0, to = 0;
        for (auto &w : s.w) { k.push_back(keep(w)); n += (size_t)k.back(); }
        if (n == 0) return false;
        if (n == s.w.size()) return true;
        for (size_t i = 0; i < k.size(); i++) if (k[i]) { if (to != i) s.w[to] = std::move(s.w[i]); to++; }
        s.w.erase(s.w.begin() + (long)to, s.w.end());
        return true;
    }
    string expected(World &w)
    {
        const Ev *h = w.head();
        if (!h) return "nothing";
        if (h->type == E_OUT) return "output " + show(h->s.substr(h->pos, 60)) + " (" + PHASE_NAME[h->phase] + ")";
        static const char *cn[] = { "general", "exec", "get", "set", "process" };
        return string("callback ") + cn[h->a] + (h->f.table >= 0 ? " " + show(env.file(h->f).name) : "") + (h->a == C_PROC ? " (" + h->s + ")" : "");
    }

    // -------------------------------------------------------------- demo application model
    void demo_calls(World &w);
    void app_start();
    bool power_pending = false;
    struct Board { int mode = 0, pin = 0, led = 0; bool serial = false; } board;   // led: the model's

    // -------------------------------------------------------------- interface callbacks
    int on_read(ShellRt &s, char *ch)
    {
        if (++s.reads > 1) fail(&s, K_IOCOUNT, act_phase(s), "more than one read in one service call");
        s.stuck = 0;
        if (demo) for (auto &w : s.w) demo_calls(w);
        if (!filter(s, [](World &w) { return w.quiet(); })) {
            const Ev *h = s.w[0].head();
            int kind = h->type == E_CALL ? K_CALL : K_MISSING;
            fail(&s, kind, h->phase, "shell asks for input, expected " + expected(s.w[0]));
        }
        dedupe(s);
        if (sketch && board.led != board.pin) fail(&s, K_CALL, P_EXECP, string("the LED is ") + (board.pin ? "on" : "off") + ", expected " + (board.led ? "on" : "off"));
        for (auto &w : s.w) w.guard = 0;
        if (s.rx.empty() || s.rx.front().first > now) {
            res.stat[S_READ_EMPTY]++;
            if (!s.rx.empty()) res.stat[S_READ_STARVED]++;
            if (s.spec->rxjunk && !demo) { *ch = (char)(0x41 + s.services % 26); res.stat[S_RXJUNK]++; }
            s.read_zero = true;
            return 0;
        }
        char c = s.rx.front().second;
        s.rx.pop_front();
        res.stat[S_BYTES_IN]++;
        if (c == '\t') { s.tab_used = true; res.stat[S_TABS]++; }
        else if (c == 3) res.stat[S_CTRLC]++;
        else if (c == 0x1b) res.stat[S_ESC]++;
        else if (c == 8 || c == 0x7f) res.stat[S_ERASE]++;
        else if (c == '\r' || c == '\n') res.stat[S_LINES]++;
        if (s.w[0].esc == 0 && s.w[0].in_pos + 1 >= (size_t)s.spec->in && (u8)c >= 0x20 && c != 0x7f) res.stat[S_OVERFLOW]++;
        for (auto &w : s.w) w.input(c);
        ev(&s, 1, (u8)c);
        log(&s, "in " + show(string(1, c)));
        *ch = c;
        s.idle = false;
        return 1;
    }
    void note_act(ShellRt &s, int ph) { if (ph != P_PROMPT && ph != P_ECHO) { s.lastact = ph; g_progress->lastact = ph; } }
    bool tx_accept(ShellRt &s, char ch)
    {
        if (s.drain || s.spec->tx.empty()) return true;
        if (demo && !(plan.known & 2) && ch == (char)0xff) return true;    // known finding: the demo takes EOF for this byte
        auto &t = s.spec->tx;
        size_t guard = 0;
        while (s.tx_left <= 0 && guard++ < t.size() + 1) {
            s.tx_i = (s.tx_i + 1) % t.size();
            s.tx_left = t[s.tx_i];
        }
        if (s.tx_left <= 0) return true;
        s.tx_left--;
        return s.tx_i % 2 == 0;
    }
    int on_write(ShellRt &s, char ch)
    {
        if (++s.writes > 1) fail(&s, K_IOCOUNT, act_phase(s), "more than one write in one service call");
        s.stuck = 0;
        if (demo) for (auto &w : s.w) demo_calls(w);
        if (!filter(s, [&](World &w) { return w.match_write(ch); })) {
            const Ev *h = s.w[0].head();
            int kind = !h ? K_EXTRA : h->type == E_CALL ? K_CALL : K_OUT;
            if (s.refused && h && h->type == E_OUT && s.refused_ch != ch) kind = K_REOFFER;
            int phase = h ? h->phase : s.w[0].lastphase;
            res.off = (u8)ch;
            fail(&s, kind, phase, "offered " + show(string(1, ch)) + ", expected " + expected(s.w[0]));
        }
        if (!tx_accept(s, ch)) {
            s.refused = true;
            s.refused_ch = ch;
            s.refused_run++;
            if (s.refused_run == 20) res.stat[S_REFUSED_LONG]++;
            res.stat[S_REFUSED]++;
            ev(&s, 3, (u8)ch);
            return 0;
        }
        s.refused = false;
        s.refused_run = 0;
        const Ev &fr = s.w[0].q.front();
        int ph = fr.phase;
        res.phases |= 1ull << ph;
        if (ph != P_ECHO && fr.pos + 1 >= fr.s.size()) s.msgs++;
        for (auto &w : s.w) w.accept_write();
        note_act(s, ph);
        s.last_ch = (u8)ch;
        s.out_count++;
        res.stat[S_BYTES_OUT]++;
        ev(&s, 2, (u8)ch);
        if (opt.log) s.logbuf += ch;
        s.idle = false;
        return 1;
    }

    // -------------------------------------------------------------- file callbacks
    FRef ref_of(const ush_file_descriptor *f)
    {
        FRef r;
        for (size_t t = 0; t < table_mem.size(); t++) {
            u8 *b = (u8 *)table_mem[t];
            if ((u8 *)f >= b && (u8 *)f < b + plan.tables[t].size() * lib.file_size) {
                size_t off = (size_t)((u8 *)f - b);
                if (off % lib.file_size == 0) { r.table = (int)t; r.idx = (int)(off / lib.file_size); return r; }
            }
        }
        if (f) { r.table = -1; r.idx = -1; }
        return r;
    }
    ShellRt *shell_of(void *self, const char *what)
    {
        auto it = by_obj.find(self);
        if (it == by_obj.end()) fail(cur, K_SELF, cur ? act_phase(*cur) : P_IDLE, string(what) + " callback received an unknown shell");
        if (cur && it->second != cur) fail(cur, K_SELF, act_phase(*cur), string(what) + " callback received another shell");
        return it->second;
    }
    void on_call(ShellRt &s, int kind, FRef f, const vector<string> &args, const string &data, uint8_t **pdata, size_t *psize)
    {
        s.stuck = 0;
        res.stat[S_CALLBACKS]++;
        string why;
        int wkind = K_CALL;
        static const char *cn[] = { "general", "exec", "get", "set", "process" };
        string name = f.table >= 0 ? show(plan.tables[f.table][f.idx].name) : string("-");
        if (opt.log) {
            string t = string("call ") + cn[kind] + " " + name;
            for (auto &a : args) t += " " + show(a);
            if (kind == C_SET) t += " data " + show(data);
            if (kind == C_PROC) t += " " + data;
            log(&s, t);
        }
        u64 hh = fnv(FNV0, data.data(), data.size());
        for (auto &a : args) hh = fnv(hh, a.c_str(), a.size() + 1);
        ev(&s, 4 + kind, fnv_u(hh, (u64)(f.table * 64 + f.idx)));
        if (!filter(s, [&](World &w) { return w.match_call(kind, f, args, data, why, wkind); })) {
            const Ev *h = s.w[0].head();
            int phase = h ? h->phase : s.w[0].lastphase;
            if (f.table >= 0 && wkind == K_CALL) {
                bool there = false;
                for (auto &w : s.w) {
                    for (auto &n : w.nodes) there = there || n.second.table == f.table;
                    for (auto &g : w.groups) there = there || g.second == f.table;
                }
                res.removed = !there;
                if (!there) why += " (its directory or group was removed)";
            }
            fail(&s, wkind, phase, string("callback ") + cn[kind] + " " + name + ": " + why + ", expected " + expected(s.w[0]));
        }
        res.phases |= 1ull << s.w[0].q.front().phase;
        note_act(s, s.w[0].q.front().phase);
        if (kind == C_GEXEC ? ++s.gcalls > 1 : ++s.calls > 1) fail(&s, K_IOCOUNT, s.w[0].q.front().phase, "more than one application callback in one service call");
        for (auto &w : s.w) w.begin_call();
        s.idle = false;
        const vector<Action> *acts = nullptr;
        const FileSpec *fs = f.table >= 0 ? &plan.tables[f.table][f.idx] : nullptr;
        if (kind == C_GEXEC) acts = &s.spec->gact;
        else if (kind == C_EXEC) acts = &fs->on_exec;
        else if (kind == C_GET) acts = &fs->on_get;
        else if (kind == C_PROC) { on_process(s, f, *fs); return; }
        else acts = &fs->on_set;
        call.kind = kind;
        if (kind == C_SET) filedata[f.table][f.idx] = data;
        int to = -1;
        for (auto &a : *acts) act_in_call(s, a, to);
        bool present = false;
        string content;
        if (kind == C_GET) {
            if (!acts->empty()) res.stat[S_GET_PRINT]++;
            content = filedata[f.table][f.idx];
            switch (fs->get) {
            case G_SNAP: case G_VOLATILE: {
                present = true;
                Snap sn;
                sn.copy = content;
                if (fs->get == G_VOLATILE) {
                    // one buffer per file which the next request overwrites
                    auto key = std::make_pair(f.table, f.idx);
                    auto it = s.vol.find(key);
                    if (it != s.vol.end() && it->second.copy.size() == content.size()) sn.p = it->second.p;
                    else { sn.p = (u8 *)malloc(content.empty() ? 1 : content.size()); pool.push_back(sn.p); }
                    memcpy(sn.p, content.data(), content.size());
                    s.vol[key] = sn;
                    // next time the file reads differently
                    for (auto &c : filedata[f.table][f.idx]) c = (char)(c * 5 + 1);
                } else {
                    sn.p = (u8 *)malloc(content.empty() ? 1 : content.size());
                    memcpy(sn.p, content.data(), content.size());
                    s.snaps.push_back(sn);
                }
                *pdata = sn.p;
                *psize = content.size();
                if (content.empty()) res.stat[S_GET_EMPTY]++;
                break;
            }
            case G_UNTOUCHED: content.clear(); *psize = 0; res.stat[S_GET_EMPTY]++; break;
            case G_NULL: content.clear(); *pdata = nullptr; *psize = 0; res.stat[S_GET_EMPTY]++; break;
            case G_EMPTY: content.clear(); present = true; *pdata = (uint8_t *)"?"; *psize = 0; res.stat[S_GET_EMPTY]++; break;
            }
        }
        for (auto &w : s.w) w.end_call(present, content);
        dedupe(s);
    }
    struct CallState {          // of the callback being executed
        int kind = C_EXEC;
        bool proc_replaced = false;
        int argc = 0; char **argv = nullptr; uint8_t *data = nullptr; size_t size = 0;
        bool printed = false, nested = false, scribbled = false;
    } call;
    void act_in_call(ShellRt &s, const Action &a, int &to)
    {
        if (a.op == A_OTHER) { to = std::max(0, a.a); return; }
        if (to >= 0) { int k = to; to = -1; other(s, k, a); return; }
        res.stat[S_OP_CALL]++;
        action(s, a, true);
    }
    // a callback of one shell works on another one
    void other(ShellRt &s, int k, const Action &a)
    {
        int n = (int)sh.size();
        if (n < 2 || demo) return;
        ShellRt &t = sh[(size_t)((s.idx + 1 + k % (n - 1)) % n)];
        if (t.active || t.done || t.dead || t.w.empty()) return;
        if (a.op == A_REINIT || a.op == A_POWER || a.op == A_HOST) return;
        CallState sc = call;
        ShellRt *scur = cur;
        int ph = g_progress->phase, psh = g_progress->shell, pt = g_progress->tab_used, pr = g_progress->recov, la = g_progress->lastact;
        call = CallState();
        cur = &t;
        if (opt.log) log(&s, "  shell " + std::to_string(t.idx) + ":");
        if (a.op == A_SERVICE) {
            res.stat[S_NESTED]++;
            for (int i = std::min(std::max(1, a.b), 500); i > 0; i--) {
                if (opt.stop_after && res.services + 1 >= opt.stop_after) { stop = true; siglongjmp(jb, 1); }
                service(t);
                if (stop) siglongjmp(jb, 1);
            }
        } else {
            res.stat[S_OTHER]++;
            action(t, a, false);
            if (stop) siglongjmp(jb, 1);
        }
        cur = scur;
        call = sc;
        call.nested = true;
        g_progress->phase = ph; g_progress->shell = psh; g_progress->tab_used = pt; g_progress->recov = pr; g_progress->lastact = la;
    }
    static size_t proc_mark(FRef f, size_t step) { return 1 + step + (size_t)f.table * 1009 + (size_t)f.idx * 131; }
    void on_process(ShellRt &s, FRef f, const FileSpec &fs)
    {
        res.stat[S_PROC_STEP]++;
        size_t k = s.w[0].cur.pos, i = 0;
        if (!lib.proc_same(O(s), proc_mark(f, k - 1))) fail(&s, K_DATA, P_PROC, "shared processing fields changed between two calls of the processing callback");
        call.kind = C_PROC;
        s.proc_at = f;
        call.proc_replaced = false;
        for (size_t n = 0; n < k && i < fs.proc.size(); i++) if (fs.proc[i].op == A_STEP) n++;
        Action end;
        end.op = A_STEP; end.a = ST_GOTO; end.b = N_PROMPT;
        int to = -1;
        for (; i < fs.proc.size(); i++) {
            if (fs.proc[i].op == A_STEP) { end = fs.proc[i]; break; }
            act_in_call(s, fs.proc[i], to);
        }
        if (call.proc_replaced) end.a = ST_WAIT;     // the other command is on its way
        if (opt.log) log(&s, "  step " + std::to_string(end.a) + " " + std::to_string(end.b) + " " + show(end.s));
        int kind = end.a % ST__N, next = end.b % N__N;
        string text = end.s;
        if (kind == ST_TEXT) text = text.c_str();
        if (kind == ST_TEXT || kind == ST_BIN) {
            char *t = (char *)malloc(text.size() + 1);
            memcpy(t, text.c_str(), text.size() + 1);
            pool.push_back(t);
            consts.push_back({(u8 *)t, string(text.c_str(), text.size() + 1)});
            in_lib([&] { if (kind == ST_TEXT) lib.proc_write(O(s), t, next); else lib.proc_write_bin(O(s), (u8 *)t, text.size(), next); });
        } else if (kind == ST_GOTO) in_lib([&] { lib.proc_goto(O(s), next); });
        if (!call.proc_replaced) lib.proc_put(O(s), proc_mark(f, k));
        for (auto &w : s.w) w.end_process(kind, next, text);
        dedupe(s);
    }
    void free_snaps(ShellRt &s)
    {
        for (auto &x : s.snaps) {
            if (memcmp(x.p, x.copy.data(), x.copy.size()) != 0) { fail(&s, K_DATA, s.w[0].lastphase, "file data was modified by the shell"); return; }
            free(x.p);
        }
        s.snaps.clear();
    }

    // -------------------------------------------------------------- application actions
    enum { DONE, DEFER };
    bool all(ShellRt &s, bool (*f)(World &)) { for (auto &w : s.w) if (!f(w)) return false; return true; }

    vector<u8 *> spare;         // objects the application got back and uses again, last one first
    u8 *new_node()
    {
        if (!spare.empty()) { u8 *p = spare.back(); spare.pop_back(); res.stat[S_REUSE]++; return p; }
        u8 *p = (u8 *)malloc(lib.node_size);
        junk_node(p);
        return p;
    }
    void junk_node(u8 *p) { for (size_t i = 0; i < lib.node_size; i++) p[i] = (u8)(0x5a ^ (i * 7)); }
    void free_node(u8 *p)
    {
        if (plan.reuse != 1) junk_node(p);
        if (plan.reuse) spare.push_back(p);
        else free(p);
    }
    string node_copy(const u8 *p) { return string((const char *)p, lib.node_size); }

    void st_check(ShellRt &s, int phase, int got, std::function<int(World &)> f, const string &what)
    {
        int first = -1;
        bool any = false;
        vector<World> o;
        for (auto &w : s.w) {
            int r = f(w);
            if (!any) { first = r; any = true; }
            if (r == got) o.push_back(w);
        }
        if (o.empty()) { fail(&s, K_STATUS, phase, what + " returned status " + std::to_string(got) + ", expected " + std::to_string(first)); return; }
        s.w.swap(o);
        dedupe(s);
    }
    ush_object *O(ShellRt &s) { return (ush_object *)s.obj; }

    int action(ShellRt &s, const Action &a, bool incall)
    {
        bool idle_now = !incall && s.idle && s.w.size() == 1 && s.w[0].q.empty();
        int pphase = incall ? P_EXECP : P_APIP;
        ApiScope scope(*this, op_phase(a.op, pphase));
        if (!incall && !idle_now) {
            // what has to wait in a state seen now has to wait in the states reached from it as well
            bool tree = a.op == A_MOUNT || a.op == A_UNMOUNT || a.op == A_GADD || a.op == A_GDEL || a.op == A_CHDIR || a.op == A_REROOT;
            bool fmt = a.op == A_PRINTF || a.op == A_PRINTFMT || a.op == A_PRINTBAD;
            for (auto &w : s.w) if ((tree && w.busy_listing()) || (fmt && !w.printf_safe())) return DEFER;
            expand(s);
        }
        auto structural = [&]() { for (auto &w : s.w) if (w.busy_listing() && !idle_now) return true; return false; };
        bool mid = !incall && !idle_now;
        auto count = [&](int st) { if (mid) res.stat[S_OP_MID]++; else if (!incall) res.stat[S_OP_IDLE]++; res.stat[st]++; };
        auto count_op = [&]() { if (mid) res.stat[S_OP_MID]++; else if (!incall) res.stat[S_OP_IDLE]++; };
        auto begin = [&]() {
            if (opt.log) log(&s, string(incall ? "  act " : "act ") + ACT_NAME[a.op] + " " + std::to_string(a.a) + " " + std::to_string(a.b) + " " + show(a.s));
            u64 r = fnv(FNV0, a.s.data(), a.s.size());
            ev(&s, 10 + a.op, r);
            if (!incall) { s.idle = false; s.refused = false; }
        };
        auto cut = [&]() { if (mid && !s.w[0].q.empty() && s.w[0].q.front().phase == P_PROC) res.stat[S_PROC_CUT]++; };
        auto msg_guard = [&]() { cut(); if (mid) res.stat[S_PRINT_MID]++; };
        switch (a.op) {
        case A_PRINT: case A_PRINTNN: {
            count_op(); msg_guard();
            begin();
            char *t = late_str(a.s);
            if (!in_lib([&] { if (a.op == A_PRINT) lib.print(O(s), t); else lib.print_no_newline(O(s), t); })) return DONE;
            for (auto &w : s.w) w.op_message(a.s.c_str(), a.op == A_PRINT, pphase);
            break;
        }
        case A_STATUS: {
            count_op(); msg_guard();
            begin();
            int st = a.a % 13;
            if (!in_lib([&] { lib.print_status(O(s), st); })) return DONE;
            for (auto &w : s.w) w.op_message(w.status(st), true, pphase);
            break;
        }
        case A_PRINTF: case A_PRINTFMT: case A_PRINTBAD: {
            if (!incall) {
                bool ok = idle_now;
                if (!ok) { ok = true; for (auto &w : s.w) if (!w.printf_safe()) ok = false; }
                if (!ok) return DEFER;
            }
            count_op(); msg_guard();
            begin();
            char *t = late_str(a.s);
            string text = a.op == A_PRINTBAD ? "" : a.op == A_PRINTF ? string(a.s.c_str()) : std::to_string(a.a) + ":" + a.s.c_str();
            if (!in_lib([&] {
                if (a.op == A_PRINTF) lib.printf_s(O(s), t);
                else if (a.op == A_PRINTFMT) lib.printf_fmt(O(s), t, a.a);
                else lib.printf_bad(O(s));
            })) return DONE;
            if (text.size() > (size_t)s.spec->out - 1) res.stat[S_PRINT_OVER]++;
            for (auto &w : s.w) w.op_printf(text, a.op == A_PRINTBAD, pphase);
            break;
        }
        case A_FLUSH: {
            count_op(); msg_guard();
            begin();
            string t = string(a.s.c_str()).substr(0, (size_t)s.spec->out - 1);
            memcpy(s.out, t.c_str(), t.size() + 1);
            // the text in the output buffer may also be handed to the plain prints, in place
            if (!in_lib([&] { if (a.b == 1) lib.print(O(s), s.out); else if (a.b == 2) lib.print_no_newline(O(s), s.out); else lib.flush(O(s)); })) return DONE;
            for (auto &w : s.w) w.op_flush(t, a.b == 1, pphase);
            break;
        }
        case A_RESET: {
            count(S_RESET);
            cut();
            if (mid) res.stat[S_RESET_MID]++;
            begin();
            if (!in_lib([&] { lib.reset(O(s)); })) return DONE;
            for (auto &w : s.w) w.op_reset();
            s.recov++;
            break;
        }
        case A_MOUNT: {
            if (a.s.size() > 4000 || plan.tables.empty()) return DONE;
            if (structural()) return DEFER;
            begin();
            int t = a.a % (int)plan.tables.size();
            int id = next_id++;
            u8 *n = new_node();
            string before = node_copy(n);
            char *path = late_str(a.s);
            int st = -1;
            if (!in_lib([&] { st = lib.mount(O(s), path, (ush_node_object *)n, (ush_file_descriptor *)table_mem[t], plan.tables[t].size()); })) return DONE;
            st_check(s, P_TREE, st, [&](World &w) { return w.op_mount(a.s.c_str(), t, id); }, "mount " + show(a.s));
            if (stop) return DONE;
            if (st == 0) { s.nodes[id] = n; count(S_MOUNT_OK); }
            else {
                count(S_MOUNT_FAIL);
                if (node_copy(n) != before) fail(&s, K_STATUS, P_TREE, "failed mount of " + show(a.s) + " changed the directory object");
                free_node(n);
            }
            break;
        }
        case A_UNMOUNT: {
            if (structural()) return DEFER;
            for (auto &w : s.w) { int r = w.get_by_path(a.s.c_str()); if (r >= 0 && r == w.root && w.nodes[r].children.empty()) return DONE; }
            begin();
            char *path = late_str(a.s);
            int st = -1, id = -1;
            bool was_cwd = false;
            if (!in_lib([&] { st = lib.unmount(O(s), path); })) return DONE;
            st_check(s, P_TREE, st, [&](World &w) { int i, c = w.cwd; int r = w.op_unmount(a.s.c_str(), i); if (r == st && i >= 0) { id = i; was_cwd = c == i; } return r; }, "unmount " + show(a.s));
            if (stop) return DONE;
            if (st == 0 && id >= 0) {
                free_node(s.nodes[id]);
                s.nodes.erase(id);
                count(S_UNMOUNT_OK);
                if (was_cwd) res.stat[S_UNMOUNT_CWD]++;
            } else count(S_UNMOUNT_FAIL);
            break;
        }
        case A_GADD: {
            if (plan.tables.empty()) return DONE;
            int t = a.a % (int)plan.tables.size();
            if (plan.tables[t].empty() || s.groups.size() > 12) return DONE;
            if (structural()) return DEFER;
            begin();
            int id = next_id++;
            u8 *n = new_node();
            int st = -1;
            if (!in_lib([&] { st = lib.gadd(O(s), (ush_node_object *)n, (ush_file_descriptor *)table_mem[t], plan.tables[t].size()); })) return DONE;
            st_check(s, P_GROUP, st, [&](World &w) { w.op_gadd(id, t); return 0; }, "add of command group");
            if (stop) return DONE;
            s.groups.push_back({id, n});
            count(S_GADD);
            break;
        }
        case A_GDEL: {
            if (structural()) return DEFER;
            begin();
            int st = -1;
            if (a.b || s.groups.empty()) {
                // an object never used, a copy of a registered one, another shell's, or a directory's
                u8 *fresh = new_node(), *n = fresh;
                ShellRt &o = sh[(size_t)(s.idx + 1) % sh.size()];
                if (a.b == 2 && s.groups.size()) memcpy(n, s.groups[(size_t)a.a % s.groups.size()].second, lib.node_size);
                else if (a.b == 3 && &o != &s && o.groups.size()) n = o.groups[(size_t)a.a % o.groups.size()].second;
                else if (a.b == 4 && s.nodes.size()) n = std::next(s.nodes.begin(), (long)((size_t)a.a % s.nodes.size()))->second;
                string before = node_copy(n);
                if (!in_lib([&] { st = lib.gdel(O(s), (ush_node_object *)n); })) return DONE;
                st_check(s, P_GROUP, st, [&](World &) { return 1; }, "removal of an unregistered command group");
                if (stop) return DONE;
                if (node_copy(n) != before) fail(&s, K_STATUS, P_GROUP, "failed group removal changed the group object");
                free_node(fresh);
                count(S_GDEL_FAIL);
            } else {
                size_t k = a.a == 9999 ? s.groups.size() - 1 : (size_t)a.a % s.groups.size();
                auto g = s.groups[k];
                if (!in_lib([&] { st = lib.gdel(O(s), (ush_node_object *)g.second); })) return DONE;
                st_check(s, P_GROUP, st, [&](World &w) { return w.op_gdel(g.first); }, "removal of command group");
                if (stop) return DONE;
                s.groups.erase(s.groups.begin() + k);
                free_node(g.second);
                count(S_GDEL);
            }
            break;
        }
        case A_CHDIR: {
            if (structural()) return DEFER;
            begin();
            char *path = late_str(a.s);
            int st = -1;
            if (!in_lib([&] { st = lib.chdir(O(s), path); })) return DONE;
            st_check(s, P_CHDIR, st, [&](World &w) { return w.op_chdir(a.s.c_str()); }, "change of directory to " + show(a.s));
            break;
        }
        case A_SETDATA: {
            if (plan.tables.empty()) return DONE;
            int t = a.a % (int)plan.tables.size();
            if (plan.tables[t].empty()) return DONE;
            begin();
            filedata[t][a.b % plan.tables[t].size()] = a.s;
            break;
        }
        case A_QPATH: case A_QPARENT: case A_QFILE: case A_QABS: query(s, a); break;
        case A_PROC: {
            if (!incall || !lib.proc_start || plan.tables.empty() || call.kind == C_GEXEC || call.kind == C_GET) return DONE;
            FRef f;
            f.table = a.a % (int)plan.tables.size();
            if (plan.tables[f.table].empty()) return DONE;
            f.idx = a.b % (int)plan.tables[f.table].size();
            // a processing command may start another one or itself again, but not in circles for ever
            if (call.kind == C_PROC && std::make_pair(f.table, f.idx) <= std::make_pair(s.proc_at.table, s.proc_at.idx) && s.restarts++ >= 6) return DONE;
            begin();
            res.stat[S_PROC]++;
            call.proc_replaced = true;
            lib.proc_put(O(s), proc_mark(f, (size_t)-1));
            if (!in_lib([&] { lib.proc_start(O(s), table_mem[f.table], (size_t)f.idx); })) return DONE;
            for (auto &w : s.w) w.op_process(f);
            break;
        }
        case A_PRINTARG: {
            if (!incall || call.kind != C_EXEC || call.argc < 1) return DONE;
            begin();
            char *t = call.argv[a.a % call.argc];
            string text = t;
            call.printed = true;
            if (!in_lib([&] { if (a.b & 1) lib.print_no_newline(O(s), t); else lib.print(O(s), t); })) return DONE;
            for (auto &w : s.w) w.op_message(text, !(a.b & 1), pphase);
            break;
        }
        case A_SCRIBBLE:
            if (!incall || call.printed) return DONE;
            if (call.kind == C_EXEC) for (int i = 0; i < call.argc; i++) memset(call.argv[i], 'Z', strlen(call.argv[i]));
            else if (call.kind == C_SET) memset(call.data, 'Z', call.size);
            else return DONE;
            call.scribbled = true;
            begin();
            break;
        case A_OTHER: case A_SERVICE: case A_STEP: return DONE;
        case A_HOST:
            if (!incall) return DONE;
            begin();
            { string h = a.s.substr(0, 99); h = h.c_str(); strcpy(s.host, h.c_str()); for (auto &w : s.w) w.host = h; }
            break;
        case A_REINIT: case A_POWER:
            if (incall || demo) return DONE;
            begin();
            count(a.op == A_REINIT ? S_REINIT : S_POWER);
            restart(s, a.op == A_REINIT);
            break;
        case A_REROOT: {
            if (incall || plan.tables.empty()) return DONE;
            if (structural()) return DEFER;
            for (auto &w : s.w) if (!w.nodes[w.root].children.empty()) return DONE;
            begin();
            int t = a.a % (int)plan.tables.size();
            int st = -1, id = -1, nid = next_id++;
            if (!in_lib([&] { st = lib.unmount(O(s), "/"); })) return DONE;
            st_check(s, P_TREE, st, [&](World &w) { return w.op_unmount("/", id); }, "unmount of root");
            if (stop) return DONE;
            free_node(s.nodes[id]);
            s.nodes.erase(id);
            if ((a.b & 1) && s.idle) {      // no root: nothing is found, nothing can be mounted
                Action m; m.op = A_MOUNT; m.a = a.a; m.s = a.s.empty() ? "/x" : a.s;
                if (m.s != "/") action(s, m, false);
                if (stop) return DONE;
                Action u; u.op = A_UNMOUNT; u.s = m.s;
                action(s, u, false);
                if (stop) return DONE;
                Action q; q.op = a.b & 2 ? A_QPATH : A_QPARENT; q.s = a.b & 4 ? "/" : m.s;
                action(s, q, false);
                if (stop) return DONE;
            }
            u8 *n = new_node();
            char *path = late_str("/");
            if (!in_lib([&] { st = lib.mount(O(s), path, (ush_node_object *)n, (ush_file_descriptor *)table_mem[t], plan.tables[t].size()); })) return DONE;
            st_check(s, P_TREE, st, [&](World &w) { return w.op_mount("/", t, nid); }, "mount of root");
            if (stop) return DONE;
            s.nodes[nid] = n;
            count(S_UNMOUNT_OK); count(S_MOUNT_OK);
            break;
        }
        }
        return DONE;
    }
    char *late_str(const string &s)     // text handed to the library during the run
    {
        char *p = (char *)malloc(strlen(s.c_str()) + 1);
        strcpy(p, s.c_str());
        pool.push_back(p);
        consts.push_back({(u8 *)p, string(s.c_str(), strlen(s.c_str()) + 1)});
        return p;
    }
    int id_of(ShellRt &s, const void *p) { for (auto &n : s.nodes) if (n.second == p) return n.first; return p ? -2 : -1; }
    void query(ShellRt &s, const Action &a)
    {
        string arg = a.s.c_str();
        if (arg.size() >= 4000) return;
        char *t = late_str(arg);
        string got;
        if (a.op == A_QPATH || a.op == A_QPARENT) {
            auto fn = a.op == A_QPATH ? lib.by_path : lib.parent;
            if (!fn) return;
            void *p = nullptr;
            if (!in_lib([&] { p = fn(O(s), t); })) return;
            got = std::to_string(id_of(s, p));
        } else if (a.op == A_QFILE) {
            if (!lib.find) return;
            const ush_file_descriptor *f = nullptr;
            if (!in_lib([&] { f = lib.find(O(s), t); })) return;
            FRef r = ref_of(f);
            got = std::to_string(r.table) + "." + std::to_string(r.table == -1 ? 0 : r.idx);
        } else {
            if (!lib.abs) return;
            char *o = (char *)malloc((size_t)s.spec->pmax);
            if (!in_lib([&] { lib.abs(O(s), t, o); })) return;
            got = o;
            free(o);
        }
        string want;
        auto model = [&](World &w) {
            string x;
            if (a.op == A_QPATH) x = std::to_string(w.get_by_path(arg));
            else if (a.op == A_QPARENT) x = std::to_string(w.parent_by_path(arg));
            else if (a.op == A_QFILE) { FRef r = w.find(arg); x = std::to_string(r.table) + "." + std::to_string(r.table == -1 ? 0 : r.idx); }
            else x = w.abs_path(arg);
            want = x;
            return x == got;
        };
        if (!filter(s, model)) fail(&s, K_QUERY, P_QUERY, string(ACT_NAME[a.op]) + " " + show(arg) + " gave " + show(got) + ", expected " + show(want));
    }

    // -------------------------------------------------------------- shell life cycle
    void bring_up(ShellRt &s)
    {
        junk(s.obj, lib.obj_size);
        junk(s.in, (size_t)s.spec->in);
        junk(s.out, (size_t)s.spec->out);
        strcpy(s.host, s.spec->host.c_str());
        if (s.spec->in < 2 || s.spec->out < 4 || s.spec->pmax < 2) {    // must be refused, by assertion
            s.done = s.dead = true;
            if (!lib.cfg.asserts || demo) return;
            expect_assert = true;
            asserted = false;
            in_lib([&] { lib.init(O(s), s.desc); });
            expect_assert = false;
            if (!asserted) fail(&s, K_ASSERT, P_BOOT, "initialisation accepts sizes too small to work with (input " + std::to_string(s.spec->in) + ", output " + std::to_string(s.spec->out) + ", path " + std::to_string(s.spec->pmax) + ")");
            ev(&s, 90, 0);
            res.stat[S_REFUSED_INIT]++;
            log(&s, "initialisation refused");
            return;
        }
        if (!in_lib([&] { lib.init(O(s), s.desc); })) return;
        s.w.assign(1, World());
        s.w[0].start(&env, *s.spec);
        for (auto &m : s.spec->mounts) {
            Action a; a.op = A_MOUNT; a.a = m.second; a.s = m.first;
            action(s, a, false);
            if (stop) return;
        }
        for (int g : s.spec->groups) {
            Action a; a.op = A_GADD; a.a = g;
            action(s, a, false);
            if (stop) return;
        }
        s.idle = false;
        s.refused = false;
    }
    void tear_down(ShellRt &s, bool deinit)
    {
        if (deinit) {
            if (!in_lib([&] { lib.deinit(O(s)); })) return;
            for (size_t i = 0; i < lib.obj_size; i++) if (s.obj[i]) { fail(&s, K_DEINIT, P_RECOV, "deinitialised shell object is not cleared"); return; }
            for (auto &n : s.nodes)
                for (size_t i = 0; i < lib.node_size; i++)
                    if (n.second[i]) { fail(&s, K_DEINIT, P_RECOV, "mounted directory is not cleared by deinitialisation"); return; }
        }
        for (auto &n : s.nodes) free_node(n.second);
        s.nodes.clear();
        for (auto &g : s.groups) free_node(g.second);
        s.groups.clear();
    }
    void restart(ShellRt &s, bool deinit)
    {
        s.recov++;
        tear_down(s, deinit);
        if (stop) return;
        bring_up(s);
    }

    // -------------------------------------------------------------- driver
    void items(ShellRt &s)
    {
        while (!s.done && !stop) {
            if (s.item >= s.spec->items.size()) {
                s.drain = true;
                if (s.idle && s.rx.empty()) s.done = true;
                return;
            }
            const Item &it = s.spec->items[s.item];
            if (!s.item_started) { s.item_started = true; s.item_base = it.kind == I_BYTES ? s.out_count : it.kind == I_MSG ? s.msgs : s.services; s.defer = 0; }
            switch (it.kind) {
            case I_RX:
                for (char c : it.s) {
                    s.last_arrival = std::max(s.last_arrival, now) + (u64)it.n;
                    s.rx.push_back({s.last_arrival, c});
                }
                s.idle = false;
                break;
            case I_IDLE: if (!(s.idle && s.rx.empty())) return; break;
            case I_TAKEN: if (!s.rx.empty()) return; break;
            case I_STEPS: if (s.services < s.item_base + (u64)it.n) return; break;
            case I_BYTES: if (s.out_count < s.item_base + (u64)it.n && !(s.idle && s.rx.empty())) return; break;
            case I_MSG: if (s.msgs < s.item_base + (u64)it.n && !(s.idle && s.rx.empty())) return; break;
            case I_OP:
                if (demo && it.op.op == A_POWER) {
                    res.stat[S_POWER]++; s.recov++; log(&s, "power cycle");
                    if (depth > 0) { power_pending = true; s.item++; s.item_started = false; return; }    // out of the blocked call first
                    app_start();
                }
                else if (demo) { if (it.op.op == A_SETDATA) { clock += (u64)(int64_t)it.op.a; res.stat[S_CLOCK]++; log(&s, "clock " + std::to_string(clock)); } }
                else if (action(s, it.op, false) == DEFER) {
                    if (s.defer++ == 0) res.stat[S_OP_DEFER]++;
                    if (s.defer < 600 || !(s.idle && s.rx.empty())) return;
                    res.stat[S_OP_DROPPED]++;   // two explanations that differ in what the action would do
                }
                break;
            }
            s.item++;
            s.item_started = false;
        }
    }
    // The demo reads its standard input with a blocking call: simulated time jumps to the next key, or the run ends.
    bool block(ShellRt &s)
    {
        if (s.reads > 0 || sketch) return true;
        for (auto &w : s.w) demo_calls(w);
        if (!filter(s, [](World &w) { return w.quiet(); })) {
            const Ev *h = s.w[0].head();
            fail(&s, h->type == E_CALL ? K_CALL : K_MISSING, h->phase, "shell asks for input, expected " + expected(s.w[0]));
        }
        while (true) {
            if (!s.rx.empty()) { now = std::max(now, s.rx.front().first); return true; }
            s.idle = true;
            res.stat[S_READ_EMPTY]++;
            size_t before = s.item;
            items(s);
            if (s.done || stop || power_pending) return false;
            if (s.rx.empty() && s.item == before) { s.item++; s.item_started = false; }    // a pause that the blocked call cannot end
        }
    }
    void service(ShellRt &s)
    {
        s.reads = s.writes = s.calls = s.gcalls = 0;
        s.read_zero = false;
        s.services++;
        res.services++;
        g_progress->phase = act_phase_cheap(s);
        g_progress->shell = s.idx;
        g_progress->tab_used = s.tab_used;
        g_progress->recov = s.recov;
        g_progress->services = res.services;
        s.stuck++;
        bool ret = true;
        if (demo && !(plan.known & 1) && s.w[0].head() && s.w[0].head()->type == E_CALL) {
            const Ev *h = s.w[0].head();
            if (h->a == C_SET && h->s.size() > 32 && env.file(h->f).name == "eeprom") {     // known finding
                res.stat[S_CUT]++;
                stop = true;
                return;
            }
        }
        bool ok = demo ? in_lib([&] { ret = lib.demo_service(); }) : in_lib([&] { ret = lib.service(O(s)); });
        if (power_pending && !stop) { power_pending = false; app_start(); return; }
        if (!ok || stop) return;
        if (sketch) ret = !s.read_zero;     // loop() returns nothing
        if (ret && s.read_zero) { fail(&s, K_BUSY, act_phase(s), "service call reports work although it only found no input"); return; }
        if (!ret && !s.read_zero) {
            // allowed once, when everything is delivered and the next call asks for input
            bool early = s.reads + s.writes + s.calls + s.gcalls == 0 && !s.early_idle;
            if (early) early = filter(s, [](World &w) { return w.quiet(); });
            if (!early) { fail(&s, K_BUSY, act_phase(s), "service call reports nothing to do while the shell is busy"); return; }
            s.early_idle = true;
        } else s.early_idle = false;
        if (s.read_zero) {
            s.idle = true;
            if (s.rx.empty() && (!s.snaps.empty())) free_snaps(s);
        }
        if (s.stuck > s.bound) fail(&s, K_LIVE, act_phase(s), "no progress in " + std::to_string(s.stuck) + " service calls, expected " + expected(s.w[0]));
    }
    // act_phase without copying the model on every call
    u64 ph_key = 0; int ph_val = 0; int ph_shell = -1;
    int act_phase_cheap(ShellRt &s)
    {
        World &w = s.w[0];
        if (w.q.empty()) return w.lastphase;
        if (w.q.front().type != T_DISPATCH) return w.q.front().phase;
        u64 key = res.stat[S_LINES];
        if (ph_shell != s.idx || ph_key != key) { ph_key = key; ph_shell = s.idx; ph_val = act_phase(s); }
        return ph_val;
    }

    void setup();
    void run();
};

// ------------------------------------------------------------------------------------------------ C callbacks
extern "C" {
static int cb_read(ush_object *self, char *ch) { Engine::CbScope c(*E); ShellRt *s = E->shell_of(self, "read"); return E->on_read(*s, ch); }
static int cb_write(ush_object *self, char ch) { Engine::CbScope c(*E); ShellRt *s = E->shell_of(self, "write"); return E->on_write(*s, ch); }
static void cb_exec(ush_object *self, const ush_file_descriptor *file, int argc, char *argv[])
{
    Engine::CbScope c(*E);
    ShellRt *s = E->shell_of(self, "exec");
    FRef f = E->ref_of(file);
    vector<string> args;
    if (argc < 1 || argc > 100000) E->fail(s, K_ARGS, P_DISP, "bad argument count " + std::to_string(argc));
    for (int i = 0; i < argc; i++) args.push_back(argv[i] ? argv[i] : "(null)");
    if (argv[argc] != nullptr) E->fail(s, K_ARGS, P_DISP, "argument vector does not end with NULL");
    E->call = Engine::CallState();
    E->call.argc = argc; E->call.argv = argv;
    s->active++;
    E->on_call(*s, file ? C_EXEC : C_GEXEC, file ? f : FRef(), args, "", nullptr, nullptr);
    s->active--;
    if (E->call.nested && !E->call.scribbled)
        for (int i = 0; i <= argc; i++)
            if (i < argc ? !argv[i] || args[(size_t)i] != argv[i] : argv[i] != nullptr) E->fail(s, K_ARGS, P_DISP, "the arguments changed while the callback serviced another shell");
}
static size_t cb_get(ush_object *self, const ush_file_descriptor *file, uint8_t **data)
{
    Engine::CbScope c(*E);
    ShellRt *s = E->shell_of(self, "get");
    size_t n = 0;
    E->call = Engine::CallState();
    s->active++;
    E->on_call(*s, C_GET, E->ref_of(file), {}, "", data, &n);
    s->active--;
    return n;
}
static void cb_set(ush_object *self, const ush_file_descriptor *file, uint8_t *data, size_t size)
{
    Engine::CbScope c(*E);
    ShellRt *s = E->shell_of(self, "set");
    string copy((const char *)data, size);
    E->call = Engine::CallState();
    E->call.data = data; E->call.size = size;
    s->active++;
    E->on_call(*s, C_SET, E->ref_of(file), {}, copy, nullptr, nullptr);
    s->active--;
    if (E->call.nested && !E->call.scribbled && memcmp(data, copy.data(), size) != 0) E->fail(s, K_CALL, P_ECHOC, "the data changed while the callback serviced another shell");
}
static void cb_process(ush_object *self, const ush_file_descriptor *file)
{
    Engine::CbScope c(*E);
    ShellRt *s = E->shell_of(self, "process");
    static const char *const st[] = { "start", "service", "finish", "other" };
    E->call = Engine::CallState();
    s->active++;
    E->on_call(*s, C_PROC, E->ref_of(file), {}, st[E->lib.proc_state(self)], nullptr, nullptr);
    s->active--;
}
// stand-ins for the Arduino core
int sim_serial_available(void)
{
    Engine::CbScope c(*E);
    ShellRt &s = E->sh[0];
    if (!E->board.serial) E->fail(&s, K_CALL, P_BOOT, "the serial port is used before it is opened");
    size_t n = 0;
    while (n < s.rx.size() && n < 64 && s.rx[n].first <= E->now) n++;
    if (n) return (int)n;
    char ch;
    E->on_read(s, &ch);
    return 0;
}
int sim_serial_read(void)
{
    Engine::CbScope c(*E);
    char ch = 0;
    return E->on_read(E->sh[0], &ch) ? (u8)ch : -1;
}
size_t sim_serial_write(u8 ch)
{
    Engine::CbScope c(*E);
    if (!E->board.serial) E->fail(&E->sh[0], K_CALL, P_BOOT, "the serial port is used before it is opened");
    return E->on_write(E->sh[0], (char)ch) ? 1 : 0;
}
void sim_serial_begin(unsigned long) { E->board.serial = true; }
void sim_pin_mode(int pin, int mode) { if (pin == 13) E->board.mode = mode; }
void sim_pin_write(int pin, int v) { if (pin == 13 && E->board.mode == 1) E->board.pin = v != 0; }
int sim_pin_read(int pin) { return pin == 13 ? E->board.pin : 0; }
unsigned long sim_millis(void) { E->time_last = E->clock; return (unsigned long)(uint32_t)E->clock; }
// stand-ins for the demo application's system calls
int sim_isatty(int) { return 1; }
int sim_tcgetattr(int, void *) { return 0; }
int sim_tcsetattr(int, int, const void *) { return 0; }
int sim_atexit(void (*)(void)) { return 0; }
int sim_fgetc(void *)
{
    Engine::CbScope c(*E);
    char ch = 0;
    if (!(E->plan.known & 2) && !E->block(E->sh[0])) siglongjmp(E->jb, 1);
    int r = E->on_read(E->sh[0], &ch);
    if (!r) { E->res.stat[S_EOF]++; return -1; }
    return (u8)ch;
}
int sim_fputc(int ch, void *)
{
    Engine::CbScope c(*E);
    if (!E->on_write(E->sh[0], (char)ch)) { E->res.stat[S_EOF]++; return -1; }
    return (u8)ch;
}
long sim_time(long *t) { E->time_last = E->clock; if (t) *t = (long)E->clock; return (long)E->clock; }
static int rand_at(u64 seed, u64 k) { Rng r(seed * 1000003 + k); return (int)(r.next() & 0x7fffffff); }
int sim_rand(void) { return rand_at(E->rand_seed, E->rand_k++); }
void sim_srand(unsigned s) { E->rand_seed = s; }
void sim_assert_fail(const char *file, int line)
{
    Engine::CbScope c(*E);
    if (E->expect_assert) { E->asserted = true; siglongjmp(E->jb, 1); }
    const char *b = strrchr(file, '/');
    E->fail(E->cur, K_ASSERT, E->cur ? E->act_phase(*E->cur) : P_IDLE, string("assertion at ") + (b ? b + 1 : file) + ":" + std::to_string(line));
    abort();
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    for (uint32_t *g = start; g < stop; g++) if (!*g) *g = g_nedge < MAXEDGE - 1 ? g_nedge++ : MAXEDGE - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    g_edge[*g & (MAXEDGE - 1)] = 1;
    if (g_measure) {
        uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
        if (sp < g_min_sp) g_min_sp = sp;
    }
    if (++g_edges_in_call > 3000000 && E && E->depth > 0) {
        bool m = g_measure; g_measure = false; (void)m;
        g_count_heap = false;
        E->fail(E->cur, K_HANG, E->cur ? E->act_phase(*E->cur) : P_IDLE, "one library call does not return");
    }
}
}
static void malloc_hook(const volatile void *, size_t) { if (g_count_heap) g_allocs++; }
static void free_hook(const volatile void *) {}

// ------------------------------------------------------------------------------------------------ demo model
// The demo's callbacks cannot be observed, so the model runs their documented behaviour itself.
struct DemoDev { string ram = string(256, '\0'), eeprom = string(32, '\xff'), rom; u64 k = 0; };
static DemoDev g_dev;
static const char *DEMO_CONFIG = "# system configuration\r\nfreq = 16MHz\r\nram = 4kB\r\n";
static const char *DEMO_README = "Welcome to MicroShell DEMO implementation!\r\nYou will see how most common features work.\r\nEnjoy!\r\n";

static const char *SKETCH_INFO = "Use MicroShell and make fun!\r\n";

void demo_tables(int variant, vector<Table> &t, vector<std::pair<string, int>> &mounts, vector<int> &groups)
{
    auto f = [](const char *n, int get, bool set, bool exec, const char *desc, const char *help) {
        FileSpec x; x.name = n; x.get = get; x.set = set; x.exec = exec;
        if (desc) { x.has_desc = true; x.desc = desc; }
        if (help) { x.has_help = true; x.help = help; }
        return x;
    };
    t.clear();
    groups.clear();
    if (variant == V_SKI) {
        t.push_back({});
        mounts = { {"/", 0} };
        return;
    }
    if (is_sketch(variant)) {
        t.push_back({ f("info.txt", G_SNAP, false, false, nullptr, nullptr) });
        t.push_back({ f("led", G_SNAP, true, false, nullptr, nullptr), f("time", G_SNAP, false, false, nullptr, nullptr) });
        t.push_back({ f("toggle", G_NONE, false, true, "toggle led", "usage: toggle\r\n"), f("set", G_NONE, false, true, "set led", "usage: set {0,1}\r\n") });
        t.push_back({ f("reboot", G_NONE, false, true, "reboot device", nullptr) });
        mounts = { {"/", 0}, {"/dev", 1}, {"/bin", 2} };
        groups = { 3 };
        return;
    }
    t.push_back({ f("readme.txt", G_SNAP, false, false, nullptr, nullptr) });
    t.push_back({ f("config", G_SNAP, false, false, "system configuration", nullptr), f("hostname", G_SNAP, true, false, "shell hostname", nullptr) });
    t.push_back({ f("null", G_UNTOUCHED, true, false, nullptr, nullptr), f("random", G_SNAP, false, false, nullptr, nullptr) });
    t.push_back({ f("spi", G_NONE, false, false, nullptr, "not implemented yet\r\n"), f("uart", G_NONE, false, false, nullptr, "not implemented yet\r\n") });
    t.push_back({ f("ram", G_SNAP, true, false, nullptr, nullptr), f("eeprom", G_SNAP, true, false, nullptr, nullptr), f("rom", G_SNAP, false, false, nullptr, nullptr) });
    t.push_back({ f("uptime", G_NONE, false, true, nullptr, "usage: uptime\r\n  show system uptime\r\n"),
                  f("print", G_NONE, false, true, nullptr, "usage: print <arg>\r\n  print argument to shell\r\n") });
    t.push_back({ f("reset", G_NONE, false, true, "reset shell", nullptr) });
    mounts = { {"/", 0}, {"/etc", 1}, {"/dev", 2}, {"/dev/bus", 3}, {"/dev/mem", 4}, {"/bin", 5} };
    groups = { 6 };
}
static u64 g_demo_start;
void Engine::demo_calls(World &w)
{
    while (true) {
        const Ev *h = w.head();
        if (!h || h->type != E_CALL) return;
        Ev c = *h;
        w.begin_call();
        string name = env.file(c.f).name;
        string data;
        bool present = true;
        res.stat[S_CALLBACKS]++;
        if (sketch) {
            if (name == "toggle") board.led = !board.led;
            else if (c.a == C_EXEC && name == "set") {
                if (c.args.size() == 2 && (c.args[1] == "0" || c.args[1] == "1")) board.led = c.args[1] == "1";
                else w.op_message(w.status(6), true, P_EXECP);
            } else if (name == "reboot") w.op_message("error: reboot not supported...", true, P_EXECP);
            else if (c.a == C_SET && name == "led") { if (c.s[0] == '0' || c.s[0] == '1') board.led = c.s[0] == '1'; }
            else if (name == "led") data = board.led ? "1\r\n" : "0\r\n";
            else if (name == "time") data = std::to_string((uint32_t)time_last) + "\r\n";
            else if (name == "info.txt") data = SKETCH_INFO;
        } else if (c.a == C_EXEC) {
            if (name == "reset") w.op_reset();
            else if (name == "print") { if (c.args.size() != 2) w.op_message(w.status(6), true, P_EXECP); else w.op_message(c.args[1], true, P_EXECP); }
            else if (name == "uptime") {
                if (c.args.size() != 1) w.op_message(w.status(6), true, P_EXECP);
                else w.op_printf("time: " + std::to_string((u64)(time_last - g_demo_start)) + "s\r\n", false, P_EXECP);
            }
        } else if (c.a == C_SET) {
            if (name == "ram") for (size_t i = 0; i < c.s.size() && i < 256; i++) g_dev.ram[i] = c.s[i];
            else if (name == "eeprom") for (size_t i = 0; i < c.s.size() && i < 32; i++) g_dev.eeprom[i] = c.s[i];
            else if (name == "hostname") w.host = string(c.s.c_str()).substr(0, 16);
        } else {
            if (name == "readme.txt") data = DEMO_README;
            else if (name == "config") data = DEMO_CONFIG;
            else if (name == "hostname") data = w.host;
            else if (name == "null") present = false;
            else if (name == "ram") data = g_dev.ram;
            else if (name == "eeprom") data = g_dev.eeprom;
            else if (name == "rom") data = g_dev.rom;
            else if (name == "random") { int r = rand_at(rand_seed, g_dev.k++); data.assign((const char *)&r, sizeof r); }
        }
        w.end_call(present, data);
    }
}

// Power on: the application's memory as loaded, then its own initialisation.
void Engine::app_start()
{
    g_dev = DemoDev();
    board = Board();
    rand_k = 0;
    if (!getenv("SIM_COV")) seg_restore(lib);
    ShellRt &s = sh[0];
    cur = &s;
    s.idle = s.refused = false;
    s.w.assign(1, World());
    s.w[0].start(&env, *s.spec);
    int id = 1;
    for (auto &m : s.spec->mounts) s.w[0].op_mount(m.first, m.second, id++);
    for (int g : s.spec->groups) s.w[0].op_gadd(id++, g);
    if (!in_lib([&] { lib.demo_open(); lib.demo_init(); }) || sketch) return;
    g_demo_start = time_last;
    for (int i = 0; i < 1024; i++) g_dev.rom += (char)rand_at(rand_seed, g_dev.k++);
    rand_k = g_dev.k;
}

// ------------------------------------------------------------------------------------------------ run
void Engine::setup()
{
    env.setup(lib.cfg, &plan.tables);
    if (plan.ro) {
        arena_size = 1 << 20;
        arena = (u8 *)mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (arena == MAP_FAILED) arena = nullptr;
        res.stat[S_RO]++;
    }
    fillrng = Rng(plan.fill);
    if (plan.fill) res.stat[S_JUNK]++;
    if (plan.shells.size() > 1) res.stat[S_MULTI]++;
    for (auto &t : plan.tables) {
        vector<string> fd;
        vector<u8> mem(t.size() * lib.file_size + 1);
        for (size_t i = 0; i < t.size(); i++) {
            const FileSpec &f = t[i];
            fd.push_back(f.data);
            lib.file_fill(mem.data(), i, cstr(f.name), f.has_desc ? cstr(f.desc) : nullptr, f.has_help ? cstr(f.help) : nullptr,
                          f.exec ? (void *)cb_exec : nullptr, f.get != G_NONE ? (void *)cb_get : nullptr, f.set ? (void *)cb_set : nullptr);
        }
        if (lib.proc_fill) for (size_t i = 0; i < t.size(); i++) if (t[i].has_proc) lib.proc_fill(mem.data(), i, (void *)cb_process);
        table_mem.push_back(cmem(mem.data(), t.size() * lib.file_size));
        filedata.push_back(fd);
    }
    sh.resize(plan.shells.size());
    vector<u8> io(lib.io_size);
    lib.io_fill(io.data(), (void *)cb_read, (void *)cb_write);
    void *iom = cmem(io.data(), lib.io_size);
    size_t files = 0, maxname = 8;
    for (auto &t : plan.tables) for (auto &f : t) { files++; maxname = std::max(maxname, f.name.size()); }
    for (size_t i = 0; i < sh.size(); i++) {
        ShellRt &s = sh[i];
        s.spec = &plan.shells[i];
        s.idx = (int)i;
        s.next = i;
        size_t nodes = s.spec->mounts.size() + s.spec->items.size();
        for (auto &m : s.spec->mounts) maxname = std::max(maxname, m.first.size());
        s.bound = 400 + 8 * (size_t)s.spec->in + 24 * (files * 4 + nodes + 16) * (std::min(maxname, (size_t)s.spec->in) + 2);
        s.tx_left = s.spec->tx.empty() ? 0 : s.spec->tx[0];
        if (demo) continue;
        s.obj = (u8 *)malloc(lib.obj_size);
        pool.push_back(s.obj);
        s.in = (char *)malloc((size_t)s.spec->in);
        s.out = (char *)malloc((size_t)s.spec->out);
        s.host = (char *)malloc(std::max(s.spec->host.size() + 1, (size_t)100));
        pool.push_back(s.in); pool.push_back(s.out); pool.push_back(s.host);
        vector<u8> d(lib.desc_size);
        lib.desc_fill(d.data(), (void *)iom, s.in, (size_t)s.spec->in, s.out, (size_t)s.spec->out, (size_t)s.spec->pmax, s.host, s.spec->gexec ? (void *)cb_exec : nullptr);
        s.desc = cmem(d.data(), lib.desc_size);
        by_obj[s.obj] = &s;
    }
    if (arena) mprotect(arena, arena_size, PROT_READ);
}

void Engine::run()
{
    setup();
    if (demo) {
        clock = sketch ? plan.fill % 5000 : 1000000 + plan.fill % 1000000;
        app_start();
        if (stop) return;
    } else for (auto &s : sh) { cur = &s; bring_up(s); if (stop) return; }
    size_t last = 0;
    u64 cap = 6000000;
    while (!stop) {
        ShellRt *n = nullptr;
        for (auto &s : sh) if (!s.done && (!n || s.next < n->next)) n = &s;
        if (!n) break;
        now = std::max(now, n->next);
        cur = n;
        if ((size_t)n->idx != last) { res.stat[S_SWITCH]++; last = (size_t)n->idx; }
        items(*n);
        if (stop || n->done) continue;
        if (opt.stop_after && res.services + 1 >= opt.stop_after) { stop = true; break; }
        service(*n);
        auto &p = n->spec->period;
        int d = p.empty() ? 1 : p[n->period_i++ % p.size()];
        n->next = now + (u64)std::max(1, d);
        if (res.services == cap / 4) for (auto &s : sh) s.drain = true;    // a slow link and much data: from here the link is fast
        if (res.services > cap) { fail(n, K_LIVE, act_phase(*n), "run does not end"); break; }
    }
    if (!stop && !demo)
        for (auto &s : sh) {
            cur = &s;
            free_snaps(s);
            if (!stop && !s.dead) tear_down(s, true);
            if (stop) break;
        }
    if (!stop) check_consts(cur);
    if (opt.log) for (auto &s : sh) flog(&s);
    if (!stop && plan.variant == V_STACK) {
        long b = stack_bound(plan);
        if (res.stack > b) fail(cur, K_STACK, P_IDLE, "a library call used " + std::to_string(res.stack) + " bytes of stack, bound " + std::to_string(b));
    }
}

long stack_bound(const Plan &p)
{
    long in = 0, pm = 0;
    for (auto &s : p.shells) { in = std::max(in, (long)s.in); pm = std::max(pm, (long)s.pmax); }
    return 2000 + 8 * in + 18 * pm;
}

Result run_plan(const Plan &p, const RunOpts &o)
{
    static bool hooked = false;
    if (!hooked) { __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook); hooked = true; }
    Lib &l = g_lib[p.variant];
    static bool keep = getenv("SIM_COV") != nullptr;   // coverage measurements keep the library's counters
    if (!keep) seg_restore(l);
    Engine e(p, o);
    E = &e;
    g_progress->running = 1;
    g_progress->hash = FNV0;
    g_progress->phase = P_BOOT; g_progress->lastact = P_BOOT; g_progress->tab_used = 0; g_progress->recov = 0; g_progress->services = 0;
    memset(g_probe, 0, sizeof g_probe);
    e.run();
    e.res.stat[S_VANISHED] = g_probe[PR_VANISHED]; e.res.stat[S_REPLACED] = g_probe[PR_REPLACED]; e.res.stat[S_NOFIT] = g_probe[PR_NOFIT]; e.res.stat[S_LONGPATH] = g_probe[PR_LONG];
    g_progress->running = 0;
    E = nullptr;
    e.res.ticks = e.now;
    e.res.stat[S_SERVICE] = e.res.services;
    e.res.nontrivial = e.res.stat[S_BYTES_OUT] > 0 && (e.res.stat[S_BYTES_IN] > 0 || e.res.stat[S_OP_IDLE] + e.res.stat[S_OP_MID] > 0);
    for (auto &s : e.sh) {
        for (auto &x : s.snaps) free(x.p);
        for (auto &n : s.nodes) free(n.second);
        for (auto &g : s.groups) free(g.second);
    }
    for (u8 *n : e.spare) free(n);
    for (void *q : e.pool) free(q);
    if (e.arena) munmap(e.arena, e.arena_size);
    u64 tail[3] = { (u64)e.res.kind, (u64)e.res.phase, e.res.services };
    e.res.hash = fnv(e.res.hash, tail, sizeof tail);
    return e.res;
}
