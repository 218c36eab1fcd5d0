// Driver: seeded exploration over many simulated runs, judging, minimisation and replay.
#include "exec.hpp"
#include "gen.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:abort_on_error=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
           "free_fill_byte=221:max_free_fill_size=4096:quarantine_size_mb=16:allocator_may_return_null=1:handle_abort=1:symbolize=1:"
           "malloc_context_size=3:detect_odr_violation=0:print_legend=0:print_summary=1";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0"; }

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------------------------------------ shared state
static const size_t HSLOTS = 1 << 23, NFAIL = 4096, MAXW = 64, MAXEDGES = 1 << 16;
struct FailRec { u64 index; int kind, phase, tab, recov, crash; };
struct Shared {
    std::atomic<u64> next, limit, nfail, distinct, distinct_nt, nontrivial;
    std::atomic<int> stop;
    FailRec fail[NFAIL];
    Progress prog[MAXW];
    u64 start_ms[MAXW];
    u64 stat[MAXW][S__N];
    u64 ticks[MAXW], runs[MAXW], services[MAXW];
    u64 phase_runs[MAXW][P__N], variant_runs[MAXW][V__N];
    u64 failkind[K__N][P__N];
    long stack[MAXW];
    u64 slow_ms[MAXW], slow_index[MAXW];
    u8 edges[MAXW][MAXEDGES];
    std::atomic<u64> h1[HSLOTS], h2[HSLOTS];
};
static Shared *g_sh;

static bool insert_hash(std::atomic<u64> *tab, u64 h)
{
    if (!h) h = 1;
    size_t i = h % HSLOTS;
    for (int probe = 0; probe < 64; probe++, i = (i + 1) % HSLOTS) {
        u64 v = tab[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            u64 z = 0;
            if (tab[i].compare_exchange_strong(z, h)) return true;
            if (z == h) return false;
        }
    }
    return false;
}

struct Args {
    string prop = "C01", lib, out, replay_dir = ".", file, known;
    u64 seed = 1, runs = 20000, index = 0, from = 0;
    double seconds = 60;
    int workers = 8;
    bool thorough = false, no_shrink = false, all_fail = false;
};
static Args A;

// ------------------------------------------------------------------------------------------------ judging in a child
struct Verdict {
    int kind = K_NONE, phase = P_IDLE, shell = 0, tab = 0, recov = 0, off = -1, last = -1, refused = 0, removed = 0, lastact = P_BOOT;
    u64 hash = 0, services = 0;
    string msg, exp, log;
};
static Progress *g_jprog;   // shared with judged children

static string clean(string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

static Verdict judge(const Plan &p, bool log = false, int timeout = 60, u64 stop_after = 0)
{
    Verdict v;
    int fd[2], fe[2];
    if (pipe(fd) || pipe(fe)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(fd[0]); close(fe[0]);
        dup2(fe[1], 2);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        alarm((unsigned)timeout);
        g_progress = g_jprog;
        RunOpts o;
        o.log = log;
        o.stop_after = stop_after;
        Result r = run_plan(p, o);
        std::ostringstream s;
        s << r.kind << " " << r.phase << " " << r.shell << " " << r.tab_used << " " << r.recov << " " << r.off << " " << r.last << " " << r.refused << " " << r.removed << " "
          << r.lastact << " " << r.hash << " " << r.services << "\n" << clean(r.msg) << "\n" << hexs(r.exp) << "\n" << r.log;
        string t = s.str();
        size_t k = 0;
        while (k < t.size()) { ssize_t n = write(fd[1], t.data() + k, t.size() - k); if (n <= 0) break; k += (size_t)n; }
        _exit(0);
    }
    close(fd[1]); close(fe[1]);
    string out, err;
    struct pollfd pf[2] = { { fd[0], POLLIN, 0 }, { fe[0], POLLIN, 0 } };
    int open = 2;
    char buf[65536];
    while (open > 0) {
        poll(pf, 2, -1);
        for (int i = 0; i < 2; i++)
            if (pf[i].fd >= 0 && pf[i].revents) {
                ssize_t n = read(pf[i].fd, buf, sizeof buf);
                if (n <= 0) { pf[i].fd = -1; open--; }
                else (i ? err : out).append(buf, (size_t)n);
            }
    }
    close(fd[0]); close(fe[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty()) {
        std::istringstream s(out);
        s >> v.kind >> v.phase >> v.shell >> v.tab >> v.recov >> v.off >> v.last >> v.refused >> v.removed >> v.lastact >> v.hash >> v.services;
        string x;
        std::getline(s, x);
        std::getline(s, v.msg);
        std::getline(s, x);
        v.exp = unhex(x);
        std::ostringstream rest;
        rest << s.rdbuf();
        v.log = rest.str();
        return v;
    }
    bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    if ((hang && !g_jprog->in_lib) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
        v.msg = "the simulator took too long or was ended";     // says nothing about the library
        return v;
    }
    v.kind = hang ? K_HANG : K_SAN;
    v.phase = g_jprog->phase;
    v.lastact = g_jprog->lastact;
    v.shell = g_jprog->shell;
    v.tab = g_jprog->tab_used;
    v.recov = g_jprog->recov;
    v.services = g_jprog->services;
    v.hash = g_jprog->hash;
    if (hang) v.msg = "one library call does not return (wall clock limit)";
    else {
        size_t k = err.find("SUMMARY: "), e;
        if (k != string::npos) {
            e = err.find('\n', k);
            v.msg = err.substr(k + 9, e - k - 9);
            size_t par = v.msg.find(" (");
            if (par != string::npos) v.msg.resize(par);
            std::istringstream l(err);
            string ln;
            while (std::getline(l, ln)) {       // the innermost frame in the code under test
                size_t a = ln.find(" in "), b = ln.rfind('/');
                if (ln.compare(0, 5, "    #") || a == string::npos || (ln.find("/src/") == string::npos && ln.find("/examples/") == string::npos) || ln.find("/compiler-rt/") != string::npos || ln.find("/sim/") != string::npos) continue;
                size_t fn = ln.find(' ', a + 4);
                v.msg += " in " + ln.substr(a + 4, fn - a - 4) + (b != string::npos ? " (" + ln.substr(b + 1) + ")" : "");
                break;
            }
        }
        if ((k = err.find("runtime error: ")) != string::npos) {
            e = err.find('\n', k);
            size_t b = err.rfind('\n', k);
            b = b == string::npos ? 0 : b + 1;
            v.msg = "UndefinedBehaviorSanitizer: " + err.substr(b, e - b);
        }
        if (v.msg.empty()) v.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit code " + std::to_string(WEXITSTATUS(st));
    }
    v.msg = clean(v.msg);
    v.hash = fnv_u(fnv_u(v.hash, (u64)v.kind), (u64)v.phase);
    if (log) {
        if (v.services > 1) v.log = judge(p, true, timeout, v.services).log;
        v.log += "FAIL " + string(KIND_NAME[v.kind]) + " in " + PHASE_NAME[v.phase] + ": " + v.msg + "\n";
        std::istringstream l(err);
        string ln;
        int n = 0;
        while (std::getline(l, ln) && n < 14) {     // the stack, without what differs between processes
            size_t k = ln.find(" in ");
            if (ln.find(" in judge(") != string::npos) break;
            if (ln.find("    #") == 0 && k != string::npos) { v.log += "   " + ln.substr(k) + "\n"; n++; }
        }
    }
    return v;
}

// ------------------------------------------------------------------------------------------------ plan transformations
static Plan ideal(Plan p)   // the same inputs and actions over a perfect link, serviced without pause
{
    for (auto &s : p.shells) {
        s.period = { 1 };
        s.tx.clear();
        s.rxjunk = false;
        for (auto &i : s.items) if (i.kind == I_RX) i.n = 0;
    }
    return p;
}
static bool in(int x, std::initializer_list<int> l) { for (int y : l) if (x == y) return true; return false; }
static Plan idle_between(Plan p)    // ideal, and the application waits for the shell before every action
{
    p = ideal(p);
    for (auto &s : p.shells) {
        vector<Item> o;
        for (auto &i : s.items) {
            Item w; w.kind = I_IDLE;
            if (i.kind == I_OP) o.push_back(w);
            if (in(i.kind, { I_STEPS, I_BYTES, I_MSG, I_TAKEN })) continue;
            o.push_back(i);
        }
        s.items = o;
    }
    return p;
}
static Plan drop_bytes(Plan p, const string &which)
{
    for (auto &s : p.shells)
        for (auto &i : s.items)
            if (i.kind == I_RX) {
                string o;
                for (char c : i.s) if (which.find(c) == string::npos) o += c;
                i.s = o;
            }
    return p;
}
static Plan drop_ops(Plan p, std::function<bool(int)> which)
{
    auto strip = [&](vector<Action> &v) { vector<Action> o; for (auto &a : v) { if (!which(a.op)) o.push_back(a); else if (!o.empty() && o.back().op == A_OTHER) o.pop_back(); } v = o; };
    for (auto &t : p.tables) for (auto &f : t) { strip(f.on_exec); strip(f.on_get); strip(f.on_set); strip(f.proc); }
    for (auto &s : p.shells) {
        strip(s.gact);
        vector<Item> o;
        for (auto &i : s.items) if (!(i.kind == I_OP && which(i.op.op))) o.push_back(i);
        s.items = o;
    }
    return p;
}
static bool op_recov(int o) { return o == A_RESET || o == A_REINIT || o == A_POWER; }
static bool op_tree(int o) { return o == A_MOUNT || o == A_UNMOUNT || o == A_REROOT || o == A_CHDIR; }
static bool op_group(int o) { return o == A_GADD || o == A_GDEL; }
static bool op_print(int o) { return o == A_PRINT || o == A_PRINTNN || o == A_STATUS || o == A_PRINTF || o == A_PRINTFMT || o == A_PRINTBAD || o == A_FLUSH || o == A_PRINTARG; }
static bool op_proc(int o) { return o == A_PROC; }
static Plan drop_lines(Plan p, const string &word) // without the lines in which a command's name occurs
{
    for (auto &s : p.shells)
        for (auto &i : s.items) if (i.kind == I_RX && i.s.find(word) != string::npos) i.s.clear();
    return p;
}
static Plan drop_mounts(Plan p) { p = drop_ops(p, op_tree); for (auto &s : p.shells) if (s.mounts.size() > 1) s.mounts.resize(1); return p; }
static Plan drop_groups(Plan p) { p = drop_ops(p, op_group); for (auto &s : p.shells) s.groups.clear(); return p; }
static Plan solo(Plan p, int k) { ShellSpec s = p.shells[(size_t)k]; p.shells.assign(1, s); return p; }
static Plan clean_edits(Plan p) // every line typed as it reads after the edits
{
    for (auto &s : p.shells) {
        string line;
        int esc = 0;
        for (auto &i : s.items) {
            if (i.kind != I_RX) continue;
            string o;
            for (char c : i.s) {
                if (c == 3) { line.clear(); esc = 0; }
                else if (c == 8 || c == 0x7f) { if (!line.empty()) line.pop_back(); }
                else if (c == '\t') { o += line + "\t"; line.clear(); }
                else if (c == 0x1b) esc = 1;
                else if (esc == 1) esc = c == '[' || c == 'O' ? 2 : 0;
                else if (esc == 2) esc = 0;
                else if (c == '\r' || c == '\n') { o += line + c; line.clear(); }
                else if (c) { line += c; if ((int)line.size() >= s.in) line.clear(); }
            }
            i.s = o;
        }
    }
    return p;
}

// ------------------------------------------------------------------------------------------------ attribution
static bool ok(const Plan &p) { return judge(p).kind == K_NONE; }

static bool any_fail = false;
// Is the failure a violation of the property the check is about? `cheap` asks without executing anything.
static bool mine(const string &prop, const Plan &p, const Verdict &v)
{
    int k = v.kind, ph = v.phase;
    int act = ph == P_PROMPT || ph == P_ECHO ? v.lastact : ph;
    bool own_kind = !in(k, { K_HEAP, K_STACK, K_DEINIT });
    auto own = [&](std::initializer_list<int> l) { return own_kind && in(act, l); };
    if (k == K_NONE) return false;
    if (prop == "C20" || any_fail) return true;
    if (prop == "C12") return in(k, { K_SAN, K_ASSERT, K_DATA }) || v.removed;
    if (prop == "C17") return in(k, { K_BUSY, K_IOCOUNT, K_HANG, K_LIVE, K_REOFFER }) || v.refused || (k == K_MISSING && v.exp.size() && ph != P_ECHO) || k == K_EXTRA;
    if (prop == "C21") return in(k, { K_HEAP, K_STACK });
    if (prop == "C01") {
        if (k == K_REOFFER || k == K_IOCOUNT || v.refused) return true;
        if (ph == P_ECHO && in(k, { K_MISSING, K_OUT, K_EXTRA })) return true;
        if (k == K_OUT && v.off >= 0 && (v.off == v.last || (v.exp.size() > 1 && v.off == (u8)v.exp[1]))) return true;
        if (k == K_EXTRA && v.off == v.last) return true;
        return ok(ideal(p)) || ok(idle_between(p));
    }
    if (prop == "C02") return in(ph, { P_ECHO, P_CTRLC }) || (own_kind && (k == K_ARGS || ph == P_DISP)) || (own_kind && ok(clean_edits(p)));
    if (prop == "C03") return own_kind && (k == K_ARGS || ph == P_DISP || act == P_DISP || (k == K_CALL && act == P_EXECP) || in(k, { K_ASSERT, K_SAN }));
    if (prop == "C04") return own_kind && (in(ph, { P_DISP, P_PROMPT, P_EXECP }) || k == K_CALL || act == P_DISP);
    if (prop == "C05") {
        if (own({ P_CD, P_PWD, P_CHDIR, P_QUERY, P_DISP }) || (own_kind && ph == P_PROMPT) || (own_kind && k == K_CALL)) return true;
        if (own_kind && in(act, { P_LS, P_CAT, P_XXD, P_HELP, P_ECHOC, P_EXECP, P_TREE }))
            return in(k, { K_SAN, K_ASSERT, K_STATUS }) || v.exp.compare(0, 5, "error") == 0 || v.off == 'e' || v.off == 'b' || v.exp.compare(0, 4, "blad") == 0;
        return false;
    }
    auto command = [&](int phase, const char *name) { return own({ phase }) || (own_kind && ok(drop_lines(p, name))); };
    if (prop == "C06") return command(P_CAT, "cat");
    if (prop == "C07") return command(P_XXD, "xxd");
    if (prop == "C08") return command(P_LS, "ls");
    if (prop == "C09") return command(P_HELP, "help");
    if (prop == "C10") return command(P_ECHOC, "echo");
    if (prop == "C11") return own({ P_TAB }) || (own_kind && v.tab && ok(drop_bytes(p, "\t")));
    if (prop == "C13") return own({ P_TREE, P_CHDIR, P_QUERY }) || (own_kind && ok(drop_ops(p, op_tree))) || own({ P_LS, P_CD, P_PWD }) || (own_kind && ph == P_PROMPT)
        || (own({ P_TAB, P_DISP, P_EXECP, P_HELP, P_CAT }) && ok(drop_mounts(p)));
    if (prop == "C14") return own({ P_GROUP, P_HELP, P_DISP }) || (own_kind && ok(drop_ops(p, op_group))) || (own({ P_TAB, P_EXECP }) && ok(drop_groups(p)));
    if (prop == "C15") {
        if (k == K_SELF) return true;
        if (!own_kind || p.shells.size() < 2) return false;
        if (v.shell >= 0 && v.shell < (int)p.shells.size()) return ok(solo(p, v.shell));
        return false;
    }
    if (prop == "C16") {
        if (k == K_DEINIT || in(act, { P_RECOV, P_BOOT, P_CTRLC })) return true;
        if (!own_kind && k != K_HEAP) return false;
        if (ok(drop_bytes(drop_ops(p, op_recov), "\x03"))) return true;
        Plan z = p;
        z.fill = 0;
        return p.fill && ok(z);
    }
    if (prop == "C18") return own({ P_APIP, P_EXECP }) || (own_kind && ok(drop_ops(p, op_print)));
    if (prop == "C22") return own({ P_PROC }) || (own_kind && ok(drop_ops(p, op_proc)));
    if (prop == "C19") {
        if (p.variant == V_STOCK || !lib_loaded(V_STOCK)) return false;
        Plan z = p;
        z.variant = V_STOCK;
        return ok(z);
    }
    return false;
}

// ------------------------------------------------------------------------------------------------ minimisation
struct Shrinker {
    string prop;
    Plan best;
    Verdict bv;
    double until;
    int evals = 0;
    bool keep(const Plan &c)
    {
        if (wall() > until || evals > 3000) return false;
        evals++;
        Verdict v = judge(c, false, 20);
        if (v.kind != bv.kind || v.phase != bv.phase) return false;
        if (!mine(prop, c, v)) return false;
        best = c;
        bv = v;
        return true;
    }
    template <class T> void ddmin(std::function<vector<T> &(Plan &)> get)
    {
        size_t n = get(best).size();
        for (size_t chunk = std::max((size_t)1, n / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < get(best).size();) {
                Plan c = best;
                auto &v = get(c);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + (long)i, v.begin() + (long)e);
                if (!keep(c)) i += chunk;
                if (wall() > until) return;
            }
            if (chunk == 1) break;
        }
    }
    void str(std::function<string &(Plan &)> get)
    {
        size_t n = get(best).size();
        for (size_t chunk = std::max((size_t)1, n / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < get(best).size();) {
                Plan c = best;
                get(c).erase(i, chunk);
                if (!keep(c)) i += chunk;
                if (wall() > until) return;
            }
            if (chunk == 1) break;
        }
    }
    void run(double secs)
    {
        until = wall() + secs;
        for (int round = 0; round < 3; round++) {
            string before = plan_write(best);
            for (size_t k = best.shells.size(); k-- > 0 && best.shells.size() > 1;) { Plan c = best; c.shells.erase(c.shells.begin() + (long)k); keep(c); }
            for (size_t k = 0; k < best.shells.size(); k++) {
                auto it = [k](Plan &p) -> vector<Item> & { return p.shells[k].items; };
                // everything after the failure is never reached: drop from the end first
                ddmin<Item>(it);
                { Plan c = best; c.shells[k].tx.clear(); keep(c); }
                { Plan c = best; c.shells[k].period = { 1 }; keep(c); }
                { Plan c = best; c.shells[k].rxjunk = false; keep(c); }
                { Plan c = best; c.shells[k].gexec = false; keep(c); }
                ddmin<Action>([k](Plan &p) -> vector<Action> & { return p.shells[k].gact; });
                if (best.shells[k].tx.size() > 2) { Plan c = best; c.shells[k].tx = { 1, 1 }; keep(c); }
                ddmin<std::pair<string, int>>([k](Plan &p) -> vector<std::pair<string, int>> & { return p.shells[k].mounts; });
                ddmin<int>([k](Plan &p) -> vector<int> & { return p.shells[k].groups; });
                for (size_t i = 0; i < best.shells[k].items.size(); i++) {
                    int kind = best.shells[k].items[i].kind;
                    if (kind == I_RX) {
                        if (best.shells[k].items[i].n) { Plan c = best; c.shells[k].items[i].n = 0; keep(c); }
                        str([k, i](Plan &p) -> string & { return p.shells[k].items[i].s; });
                    } else if (in(kind, { I_STEPS, I_BYTES, I_MSG })) {
                        for (int n : { 0, best.shells[k].items[i].n / 2, best.shells[k].items[i].n - 1 })
                            if (n >= 0 && n < best.shells[k].items[i].n) { Plan c = best; c.shells[k].items[i].n = n; keep(c); }
                    } else if (kind == I_OP) str([k, i](Plan &p) -> string & { return p.shells[k].items[i].op.s; });
                }
            }
            if (!is_app(best.variant))
                for (size_t t = 0; t < best.tables.size(); t++) {
                    ddmin<FileSpec>([t](Plan &p) -> vector<FileSpec> & { return p.tables[t]; });
                    for (size_t f = 0; f < best.tables[t].size(); f++) {
                        auto fs = [t, f](Plan &p) -> FileSpec & { return p.tables[t][f]; };
                        { Plan c = best; auto &x = fs(c); x.on_exec.clear(); x.on_get.clear(); x.on_set.clear(); x.proc.clear(); x.has_proc = false; keep(c); }
                        ddmin<Action>([fs](Plan &p) -> vector<Action> & { return fs(p).on_exec; });
                        ddmin<Action>([fs](Plan &p) -> vector<Action> & { return fs(p).on_get; });
                        ddmin<Action>([fs](Plan &p) -> vector<Action> & { return fs(p).on_set; });
                        ddmin<Action>([fs](Plan &p) -> vector<Action> & { return fs(p).proc; });
                        { Plan c = best; auto &x = fs(c); x.has_desc = x.has_help = false; x.desc = x.help = ""; keep(c); }
                        str([fs](Plan &p) -> string & { return fs(p).data; });
                    }
                }
            if (best.reuse) { Plan c = best; c.reuse = 0; keep(c); }
            if (best.fill) { Plan c = best; c.fill = 0; keep(c); }
            if (best.ro) { Plan c = best; c.ro = 0; keep(c); }
            if (best.variant != V_STOCK && !is_app(best.variant) && best.variant != V_STACK) { Plan c = best; c.variant = V_STOCK; keep(c); }
            if (plan_write(best) == before || wall() > until) break;
        }
    }
};

// ------------------------------------------------------------------------------------------------ exploration
static void worker(int w)
{
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("SIM_STDERR")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); }
    Shared &S = *g_sh;
    g_progress = &S.prog[w];
    while (!S.stop.load()) {
        u64 i = S.next.fetch_add(1);
        if (i >= S.limit.load()) break;
        S.start_ms[w] = (u64)(wall() * 1000);
        std::atomic_thread_fence(std::memory_order_seq_cst);
        S.prog[w].seed_index = i + 1;
        Plan p = gen_plan(A.prop, A.seed, i, A.thorough);
        if (!lib_loaded(p.variant)) p.variant = p.variant == V_STACK || p.variant == V_DEMO ? p.variant : V_STOCK;
        Result r = run_plan(p);
        S.prog[w].seed_index = 0;
        u64 took = (u64)(wall() * 1000) - S.start_ms[w];
        if (took > S.slow_ms[w]) { S.slow_ms[w] = took; S.slow_index[w] = i; }
        S.runs[w]++;
        S.ticks[w] += r.ticks;
        S.services[w] += r.services;
        for (int k = 0; k < S__N; k++) S.stat[w][k] += r.stat[k];
        for (int k = 0; k < P__N; k++) if (r.phases >> k & 1) S.phase_runs[w][k]++;
        S.variant_runs[w][p.variant]++;
        if (p.variant == V_STACK && r.stack > S.stack[w]) S.stack[w] = r.stack;
        bool isnew = insert_hash(S.h2, r.hash);
        if (insert_hash(S.h1, r.sched)) S.distinct++;
        if (r.nontrivial) { S.nontrivial++; if (isnew) S.distinct_nt++; }
        if (r.kind != K_NONE) {
            u64 k = S.nfail.fetch_add(1);
            if (k < NFAIL) S.fail[k] = { i, r.kind, r.phase, r.tab_used, r.recov, 0 };
        }
        if ((S.runs[w] & 63) == 1) { vector<u8> b; lib_edges_seen(&b); memcpy(S.edges[w], b.data(), std::min(b.size(), MAXEDGES)); }
    }
    vector<u8> b;
    lib_edges_seen(&b);
    memcpy(S.edges[w], b.data(), std::min(b.size(), MAXEDGES));
    _exit(0);
}

static string js(const string &s)
{
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static string verdict_line(const Verdict &v)
{
    return string(any_fail ? "(nearly every run fails) " : "") + KIND_NAME[v.kind] + " in " + PHASE_NAME[v.phase] + " (shell " + std::to_string(v.shell) + "): " + v.msg;
}

static int explore()
{
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_sh == MAP_FAILED) { perror("mmap"); return 3; }
    Shared &S = *g_sh;
    S.limit = A.from + A.runs;
    S.next = A.from;
    double t0 = wall(), deadline = t0 + A.seconds;
    int W = std::min(A.workers, (int)MAXW);
    vector<pid_t> pids((size_t)W, 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) worker(w);
        pids[(size_t)w] = p;
    };
    for (int w = 0; w < W; w++) spawn(w);
    std::map<string, u64> foreign;
    std::set<u64> judged;
    u64 seen = 0, crashes = 0, unstable = 0, lost = 0;
    bool found = false;
    Plan fp;
    Verdict fv;
    u64 findex = 0;
    int alive = W;
    std::map<std::pair<int, int>, int> tried;
    vector<FailRec> queue;
    double budget = 0;  // time spent judging
    int ff_kind = 0;    // first failure that was attributed to another property
    Plan ffp;
    Verdict ffv;
    u64 ff = 0;
    while (true) {
        int st;
        pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            for (int w = 0; w < W; w++) {
                if (pids[(size_t)w] != p) continue;
                pids[(size_t)w] = 0;
                alive--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    u64 i = S.prog[w].seed_index;
                    crashes++;
                    if (getenv("SIM_DEBUG")) fprintf(stderr, "worker %d ended with status %x at seed index %llu\n", w, (unsigned)st, (unsigned long long)i - 1);
                    if (i) queue.push_back({ i - 1, K_SAN, S.prog[w].phase, S.prog[w].tab_used, S.prog[w].recov, 1 });
                    S.prog[w].seed_index = 0;
                    if (wall() < deadline && crashes < 3000 && !S.stop) { spawn(w); alive++; }
                }
            }
        }
        // a worker that makes no progress
        for (int w = 0; w < W; w++)
            if (pids[(size_t)w] && S.prog[w].seed_index && (u64)(wall() * 1000) > S.start_ms[w] + 60000) kill(pids[(size_t)w], SIGKILL);
        u64 nf = std::min((u64)NFAIL, S.nfail.load());
        for (; seen < nf; seen++) queue.push_back(S.fail[seen]);
        // judge what is new, a few of every class
        vector<FailRec> q;
        q.swap(queue);
        std::sort(q.begin(), q.end(), [](const FailRec &a, const FailRec &b) { return a.index < b.index; });
        for (auto &f : q) {
            if (found || judged.count(f.index)) continue;
            int &n = tried[{ f.kind, f.phase }];
            if (n++ >= 25 || budget > 60) { foreign["not examined"]++; continue; }
            judged.insert(f.index);
            double b0 = wall();
            Plan pl = gen_plan(A.prop, A.seed, f.index, A.thorough);
            if (!lib_loaded(pl.variant)) pl.variant = pl.variant == V_STACK || pl.variant == V_DEMO ? pl.variant : V_STOCK;
            Verdict v = judge(pl), v2 = judge(pl);
            if (v.kind == K_NONE || v.kind != v2.kind || v.hash != v2.hash) {
                if (v.kind == K_NONE && v2.kind == K_NONE && f.crash) lost++;   // the worker itself was ended (memory, load): both repetitions are clean
                else unstable++;
                fprintf(stderr, "seed index %llu: not reproduced (%s / %s)\n", (unsigned long long)f.index, verdict_line(v).c_str(), verdict_line(v2).c_str());
            } else if (mine(A.prop, pl, v)) {
                found = true; fp = pl; fv = v; findex = f.index;
                S.stop = 1;
            } else {
                foreign[string(KIND_NAME[v.kind]) + "/" + PHASE_NAME[v.phase]]++;
                if (!ff_kind) { ff_kind = v.kind; ffp = pl; ffv = v; ff = f.index; }
            }
            if (A.all_fail) printf("FAIL index=%llu variant=%s %s%s\n", (unsigned long long)f.index, VARIANT_NAME[pl.variant], verdict_line(v).c_str(), found ? " [own]" : "");
            if (A.all_fail) { found = false; S.stop = 0; }
            budget += wall() - b0;
        }
        if (alive == 0) {
            nf = std::min((u64)NFAIL, S.nfail.load());
            if ((seen >= nf && queue.empty()) || found) break;
            continue;
        }
        if (wall() > deadline) S.stop = 1;
        usleep(20000);
    }
    // Hardly any run gets to its end: nothing can be said in favour of the property, and the system does not provide it
    u64 done_runs = 0;
    for (int w = 0; w < W; w++) done_runs += S.runs[w];
    if (!found && ff_kind && done_runs + crashes >= 20 && S.nfail.load() + crashes >= (done_runs + crashes) * 9 / 10) {
        found = any_fail = true;
        fp = ffp; fv = ffv; findex = ff;
    }
    double t1 = wall();
    int slowest = 0;
    for (int w = 0; w < W; w++) if (S.slow_ms[w] > S.slow_ms[slowest]) slowest = w;
    int rc = 0;
    string replay;
    if (found) {
        Shrinker sk;
        sk.prop = A.prop; sk.best = fp; sk.bv = fv; sk.until = 0;
        if (!A.no_shrink) sk.run(60);
        Verdict a = judge(sk.best, true), b = judge(sk.best, true);
        if (a.kind != b.kind || a.hash != b.hash || a.log != b.log || a.kind == K_NONE || !mine(A.prop, sk.best, a)) {
            fprintf(stderr, "minimised plan is not stable, keeping the original\n");
            if (getenv("SIM_DEBUG")) fprintf(stderr, "kinds %d %d hashes %d logs %d mine %d\nA: %s\nB: %s\nplan %s\n", a.kind, b.kind, a.hash == b.hash, a.log == b.log, mine(A.prop, sk.best, a), a.log.substr(a.log.size() > 1500 ? a.log.size() - 1500 : 0).c_str(), b.log.substr(b.log.size() > 1500 ? b.log.size() - 1500 : 0).c_str(), plan_write(sk.best).c_str());
            sk.best = fp;
            a = judge(fp, true);
            b = judge(fp, true);
        }
        if (a.kind == K_NONE || a.kind != b.kind || a.hash != b.hash) { fprintf(stderr, "violation does not reproduce\n"); rc = 3; }
        else {
            replay = A.replay_dir + "/" + A.prop + "-" + std::to_string(A.seed) + "-" + std::to_string(findex) + ".plan";
            std::ofstream o(replay);
            o << "# property " << A.prop << " VERIF_SEED " << A.seed << " seed index " << findex << " variant " << VARIANT_NAME[sk.best.variant] << "\n"
              << "# violation: " << verdict_line(a) << "\n"
              << "#expect " << a.kind << " " << a.phase << " " << a.hash << "\n" << plan_write(sk.best);
            std::istringstream l(a.log);
            string ln;
            o << "\n# ---- recorded history\n";
            while (std::getline(l, ln)) o << "# " << ln << "\n";
            rc = 1;
            printf("violation: %s\n", verdict_line(a).c_str());
            printf("found at run %llu, minimised in %d evaluations\n", (unsigned long long)findex, sk.evals);
        }
    } else if ((unstable || lost > 8) && foreign.empty()) rc = 3;
    // ---------------------------------------------------------------- report
    u64 runs = 0, ticks = 0, services = 0, st[S__N] = { 0 }, pr[P__N] = { 0 }, vr[V__N] = { 0 };
    long stack = 0;
    vector<u8> edges(MAXEDGES, 0);
    for (int w = 0; w < W; w++) {
        runs += S.runs[w]; ticks += S.ticks[w]; services += S.services[w];
        stack = std::max(stack, S.stack[w]);
        for (int k = 0; k < S__N; k++) st[k] += S.stat[w][k];
        for (int k = 0; k < P__N; k++) pr[k] += S.phase_runs[w][k];
        for (int k = 0; k < V__N; k++) vr[k] += S.variant_runs[w][k];
        for (size_t k = 0; k < MAXEDGES; k++) edges[k] |= S.edges[w][k];
    }
    u64 ne = 0;
    for (size_t k = 1; k < MAXEDGES; k++) ne += edges[k];
    if (const char *ef = getenv("SIM_EDGES")) {     // tools/coverage.py
        std::ofstream o(ef);
        for (size_t k = 1; k < MAXEDGES; k++) if (edges[k]) o << k << "\n";
    }
    if (!A.out.empty()) {
        std::ofstream o(A.out);
        o << "{\n\"runs\": " << runs << ", \"seed_from\": " << A.from << ", \"wall\": " << (t1 - t0) << ", \"ticks\": " << ticks << ", \"services\": " << services
          << ", \"distinct_schedules\": " << S.distinct.load() << ", \"distinct_nontrivial\": " << S.distinct_nt.load() << ", \"nontrivial\": " << S.nontrivial.load()
          << ", \"edges\": " << ne << ", \"edges_total\": " << lib_edges_total() << ", \"workers\": " << W << ", \"crashes\": " << crashes
          << ", \"unstable\": " << unstable << ", \"max_stack\": " << stack << ", \"slowest_ms\": " << S.slow_ms[slowest] << ", \"slowest_index\": " << S.slow_index[slowest] << ",\n\"stat\": {";
        for (int k = 0; k < S__N; k++) o << (k ? ", " : "") << js(STAT_NAME[k]) << ": " << st[k];
        o << "},\n\"phases\": {";
        for (int k = 0; k < P__N; k++) o << (k ? ", " : "") << js(PHASE_NAME[k]) << ": " << pr[k];
        o << "},\n\"variants\": {";
        bool first = true;
        for (int k = 0; k < V__N; k++) if (vr[k]) { o << (first ? "" : ", ") << js(VARIANT_NAME[k]) << ": " << vr[k]; first = false; }
        o << "},\n\"foreign\": {";
        first = true;
        for (auto &f : foreign) { o << (first ? "" : ", ") << js(f.first) << ": " << f.second; first = false; }
        o << "},\n\"samples\": [";
        first = true;
        for (u64 i = A.from; i < A.from + 2; i++) {
            Plan p = gen_plan(A.prop, A.seed, i, A.thorough);
            if (!lib_loaded(p.variant)) p.variant = V_STOCK;
            Verdict v = judge(p, true);
            string text = plan_write(p), lg = v.log;
            if (text.size() > 2500) text = text.substr(0, 2500) + "...";
            if (lg.size() > 2500) lg = lg.substr(0, 2500) + "...";
            o << (first ? "" : ",\n") << "{\"index\": " << i << ", \"plan\": " << js(text) << ", \"history\": " << js(lg) << ", \"result\": " << js(v.kind ? verdict_line(v) : "holds")
              << ", \"event_hash\": " << js(std::to_string(v.hash)) << "}";
            first = false;
        }
        o << "],\n\"replay\": " << js(replay) << ", \"violation\": " << (rc == 1 ? "true" : "false") << "\n}\n";
    }
    if (!replay.empty()) printf("REPLAY %s\n", replay.c_str());
    return rc;
}

static int replay(const string &file)
{
    std::ifstream f(file);
    if (!f) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
    std::ostringstream s;
    s << f.rdbuf();
    Plan p;
    string err;
    if (!plan_parse(s.str(), p, err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
    if (!lib_loaded(p.variant)) { fprintf(stderr, "build variant %s is not available\n", VARIANT_NAME[p.variant]); return 3; }
    Verdict v = judge(p, true);
    printf("%s", v.log.c_str());
    printf("verdict: %s\n", v.kind ? verdict_line(v).c_str() : "holds");
    printf("event hash: %llu, service calls: %llu\n", (unsigned long long)v.hash, (unsigned long long)v.services);
    size_t k = s.str().find("#expect ");
    if (k != string::npos) {
        int ek, ep;
        u64 eh;
        std::istringstream e(s.str().substr(k + 8));
        e >> ek >> ep >> eh;
        bool same = ek == v.kind && ep == v.phase && eh == v.hash;
        printf("recorded violation %s\n", same ? "reproduced exactly" : "NOT reproduced");
        return same ? 1 : v.kind ? 2 : 0;
    }
    return v.kind ? 1 : 0;
}

int main(int argc, char **argv)
{
    if (argc < 2) { fprintf(stderr, "usage: sim explore|replay|gen|hash ...\n"); return 3; }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    string mode = argv[1];
    for (int i = 2; i < argc; i++) {
        string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return string(argv[++i]); };
        if (a == "--prop") A.prop = val();
        else if (a == "--lib") A.lib = val();
        else if (a == "--out") A.out = val();
        else if (a == "--replay-dir") A.replay_dir = val();
        else if (a == "--seed") A.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--runs") A.runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") A.from = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--index") A.index = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--seconds") A.seconds = atof(val().c_str());
        else if (a == "--workers") A.workers = atoi(val().c_str());
        else if (a == "--thorough") A.thorough = true;
        else if (a == "--no-shrink") A.no_shrink = true;
        else if (a == "--all-fail") A.all_fail = true;
        else A.file = a;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    g_jprog = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int n = 0;
    for (int v = 0; v < V__N; v++) {
        if (access((A.lib + "/lib_" + VARIANT_NAME[v] + ".so").c_str(), R_OK) != 0) continue;
        string err;
        if (!lib_load(v, A.lib, err)) { fprintf(stderr, "cannot load variant %s: %s\n", VARIANT_NAME[v], err.c_str()); return 3; }
        n++;
    }
    if (!n) { fprintf(stderr, "no build variants in %s\n", A.lib.c_str()); return 3; }
    if (mode == "explore") return explore();
    if (mode == "replay") return replay(A.file);
    if (mode == "gen") {
        Plan p = gen_plan(A.prop, A.seed, A.index, A.thorough);
        printf("%s", plan_write(p).c_str());
        return 0;
    }
    if (mode == "hash") {   // event hashes of a range of runs, for comparing executions
        for (u64 i = A.from; i < A.from + A.runs; i++) {
            Plan p = gen_plan(A.prop, A.seed, i, A.thorough);
            if (!lib_loaded(p.variant)) p.variant = V_STOCK;
            Result r = run_plan(p);
            printf("%llu %llu %llu %d\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)r.sched, r.kind);
        }
        return 0;
    }
    return 3;
}
