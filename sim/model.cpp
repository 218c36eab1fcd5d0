#include "model.hpp"
#include <cstring>
#include <cstdio>

u64 g_probe[PR__N];

// ---------------------------------------------------------------- environment
void ModelEnv::setup(const Cfg &c, const vector<Table> *t)
{
    cfg = c;
    tables = t;
    static const char *en[] = { "error", "ok", "directory not found", "nested directories exist", "cannot find parent node",
        "directory already mounted", "syntax error", "wrong arguments", "file not executable", "file not writable",
        "file not readable", "no help available", "file not found", "read only file" };
    static const char *pl[] = { "blad", "w porzadku", "nie ma katalogu", "sa podkatalogi", "brak rodzica", "juz zamontowany",
        "zla skladnia", "zle argumenty", "nie mozna wykonac", "nie mozna pisac", "nie mozna czytac", "brak pomocy",
        "nie ma pliku", "tylko do odczytu" };
    const char **x = c.translated ? pl : en;
    string sfx = c.translated == 2 ? " 100%d%s%n \\x41 a text that is longer than most of the output buffers" : "";
    txt.st[0] = x[1] + sfx;
    for (int i = 1; i < 13; i++) txt.st[i] = x[0] + sfx + ": " + x[i + 1] + sfx;
    if (c.styles) { txt.magenta = "\x1b[35m"; txt.green = "\x1b[32m"; txt.yellow = "\x1b[33m"; txt.reset = "\x1b[0m"; }
    else { txt.magenta = txt.green = txt.yellow = txt.reset = ""; }
    builtins.clear();
    if (!c.feat_cmds) return;
    auto add = [&](int on, const char *n, const char *d, const char *h) {
        if (!on) return;
        FileSpec f;
        f.name = n; f.has_desc = true; f.desc = d; f.has_help = true; f.help = h; f.exec = true;
        builtins.push_back(f);
    };
    add(c.c_help, "help", "list available commands", "usage: help [file]\r\n");
    add(c.c_ls, "ls", "list directory content", "usage: ls [path]\r\n");
    add(c.c_cd, "cd", "change current directory", "usage: cd <path>\r\n");
    add(c.c_pwd, "pwd", "print current directory", "usage: pwd\r\n");
    add(c.c_cat, "cat", "print files content", "usage: cat <files...>\r\n");
    add(c.c_xxd, "xxd", "dump file hex content", "usage: xxd <file>\r\n");
    add(c.c_echo, "echo", "print string to file",
        "usage: echo <string> > <file>\r\n       echo [string]\r\n       * can be ascii-hex encoded string with \\xNN format.\r\n");
}

// ---------------------------------------------------------------- paths
size_t m_levels(const string &p)
{
    if (p == "/" || p.empty()) return 0;
    size_t n = 1;
    for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') n++;
    return n;
}
string m_path_level(size_t level, const string &in)
{
    if (level == 0) return "/";
    string o;
    size_t i = 1, k = 0;
    while (i <= level && k < in.size()) {
        o += in[k++];
        if (k < in.size() && in[k] == '/') i++;
    }
    return o;
}
string m_path_upper(string p)
{
    if (p.size() == 1) return "";
    for (size_t k = p.size(); k-- > 0;) {
        if (p[k] != '/') continue;
        return k == 0 ? p.substr(0, 1) : p.substr(0, k);
    }
    return p;
}
string m_path_last(const string &p)
{
    if (p.size() == 1) return p;
    size_t k = p.rfind('/');
    return k == string::npos ? p : p.substr(k + 1);
}
string m_collapse(const string &p)
{
    if (p == "/") return p;
    // components: what follows a separator up to the next one; the character after a separator always belongs to the component
    vector<string> comp;
    size_t i = 0;
    while (i < p.size()) {
        if (p[i] != '/') { i++; continue; }
        i++;
        string c;
        if (i < p.size()) { c += p[i]; i++; while (i < p.size() && p[i] != '/') { c += p[i]; i++; } }
        comp.push_back(c);
    }
    vector<string> out;
    for (auto &c : comp) {
        if (c == "..") { if (!out.empty()) out.pop_back(); }
        else if (c == ".") continue;
        else out.push_back(c);
    }
    if (out.empty()) return "/";
    string r;
    for (auto &c : out) r += "/" + c;
    return r;
}
int World::get_by_path(const string &p) const
{
    size_t lv = m_levels(p);
    if (lv == 0) return root;
    if (root < 0) return -1;
    const vector<int> *list = &nodes.at(root).children;
    size_t from = 0;
    int cur = -1;
    for (size_t i = 1; i <= lv; i++) {
        string want = m_path_level(i, p);
        cur = -1;
        for (size_t k = from; k < list->size(); k++)
            if (nodes.at((*list)[k]).path == want) { cur = (*list)[k]; break; }
        if (cur < 0) return -1;
        if (i == lv) return cur;
        list = &nodes.at(cur).children;
    }
    return -1;
}
int World::parent_by_path(const string &p) const
{
    string u = m_path_upper(p);
    if (u.empty()) return -1;
    return get_by_path(u);
}
string World::abs_path(const string &in) const
{
    string base, sep;
    if (in.empty() || in[0] != '/') {
        base = nodes.at(cwd).path;
        if (base != "/") sep = "/";
    }
    if (base.size() + sep.size() + in.size() >= (size_t)P) { g_probe[PR_LONG]++; return "."; }
    string a = base + sep + in;
    if (a.size() > 1 && a.back() == '/') a.pop_back();
    return m_collapse(a);
}
static string join_path(const string &d, const string &n) { return d == "/" ? d + n : d + "/" + n; }
FRef World::find(const string &name) const
{
    for (auto &g : groups) {
        auto &t = (*env->tables)[g.second];
        for (size_t i = 0; i < t.size(); i++) if (t[i].name == name) { FRef r; r.table = g.second; r.idx = (int)i; return r; }
    }
    for (size_t i = 0; i < env->builtins.size(); i++) if (env->builtins[i].name == name) { FRef r; r.table = -1; r.idx = (int)i; return r; }
    string a = abs_path(name);
    int p = parent_by_path(a);
    if (p < 0) return FRef();
    vector<int> order{p};
    int pp = nodes.at(p).parent;
    if (pp >= 0) {
        auto &ch = nodes.at(pp).children;
        size_t k = 0;
        while (k < ch.size() && ch[k] != p) k++;
        for (k++; k < ch.size(); k++) order.push_back(ch[k]);
    }
    for (int n : order) {
        auto &nd = nodes.at(n);
        auto &t = (*env->tables)[nd.table];
        for (size_t i = 0; i < t.size(); i++) {
            if (nd.path.size() + t[i].name.size() + 2 > (size_t)P + 1) continue;
            if (join_path(nd.path, t[i].name) == a) { FRef r; r.table = nd.table; r.idx = (int)i; return r; }
        }
    }
    return FRef();
}

// ---------------------------------------------------------------- parsing
static bool is_nl(char c) { return c == '\n' || c == '\r'; }
static string cstr_at(const string &b, size_t p) { string o; while (p < b.size() && b[p]) o += b[p++]; return o; }

// the grammar of a command line; `line` ends in a newline
vector<string> m_parse(const string &line, string *newbuf)
{
    enum { SEARCH, QUOTE, STD } st = SEARCH;
    bool esc = false;
    string out;
    size_t argc = 0;
    for (char ch : line) {
        if (is_nl(ch)) { out += '\0'; break; }
        if (st == SEARCH) {
            if (ch == ' ') continue;
            argc++;
            if (ch == '"') st = QUOTE;
            else if (ch == '\\') { esc = true; st = STD; }
            else { out += ch; st = STD; }
        } else if (esc) {
            if (ch == 'x') out += '\\';
            out += ch;
            esc = false;
        } else if (ch == '\\') esc = true;
        else if (ch == '"') st = st == QUOTE ? STD : QUOTE;
        else if (ch == ' ' && st == STD) { out += '\0'; st = SEARCH; }
        else out += ch;
    }
    vector<string> args;
    size_t p = 0;
    for (size_t i = 0; i < argc; i++) { args.push_back(cstr_at(out, p)); p += args.back().size() + 1; }
    if (newbuf) *newbuf = out;
    return args;
}
vector<string> World::parse_line()
{
    size_t e = 0;
    while (e < buf.size() && !is_nl(buf[e])) e++;
    return m_parse(buf.substr(0, e + 1));
}
static int hexd(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return 0; }
string m_decode(const string &in)
{
    string o;
    for (size_t i = 0; i < in.size(); i++) {
        if (in[i] != '\\') { o += in[i]; continue; }
        if (++i >= in.size()) break;
        if (in[i] != 'x') { o += in[i]; continue; }
        if (i + 2 >= in.size()) break;
        o += (char)(hexd(in[i + 1]) * 16 + hexd(in[i + 2]));
        i += 2;
    }
    return o;
}

// ---------------------------------------------------------------- life cycle
void World::start(const ModelEnv *e, const ShellSpec &s)
{
    env = e;
    N = s.in; C = s.out; P = s.pmax; gexec = s.gexec; host = s.host;
    nodes.clear(); root = cwd = -1; groups.clear();
    buf.assign(N, '\0');
    boot();
}
void World::boot()
{
    q.clear(); tail.clear(); stale.clear();
    in_call = msg = false;
    guard = 0;
    in_pos = 0; esc = 0;
    push_out("uShell 0.1.0\r\n", P_BOOT);
    push_prompt();
}
void World::push_out(const string &s, int phase, bool ob)
{
    if (s.empty()) return;
    Ev e; e.type = E_OUT; e.phase = phase; e.s = s; e.ob = ob;
    q.push_back(e);
}
static Ev mk(int type, int phase, int a = 0) { Ev e; e.type = type; e.phase = phase; e.a = a; return e; }
void World::push_prompt() { q.push_back(mk(T_PROMPT, P_PROMPT, 0)); }

// ---------------------------------------------------------------- silent steps
bool World::tau_at_head() const { return !q.empty() && q.front().type >= T_DISPATCH; }
void World::settle() { while (tau_at_head()) step_tau(); }
bool World::quiet() { settle(); return q.empty(); }
const Ev *World::head() { settle(); return q.empty() ? nullptr : &q.front(); }

void World::step_tau()
{
    Ev e = q.front();
    q.pop_front();
    switch (e.type) {
    case T_DISPATCH: dispatch(); break;
    case T_PROMPT: {
        std::deque<Ev> rest; rest.swap(q);
        push_out(env->txt.magenta + "[" + host + " ", e.phase);
        q.push_back(mk(T_PATH, e.phase, e.a));
        for (auto &x : rest) q.push_back(x);
        break;
    }
    case T_PATH: {
        std::deque<Ev> rest; rest.swap(q);
        push_out(m_path_last(nodes.at(cwd).path) + "]$ " + env->txt.reset, e.phase);
        if (e.a) push_out(cstr_at(buf, 0), P_TAB);
        else { in_pos = 0; esc = 0; buf.assign((size_t)N, '\0'); }
        for (auto &x : rest) q.push_back(x);
        break;
    }
    case T_CATITEM: cat_item(e); break;
    case T_TAB: tab(); break;
    }
}

// ---------------------------------------------------------------- observables
bool World::match_write(char c)
{
    const Ev *h = head();
    return h && h->type == E_OUT && h->s[h->pos] == c;
}
void World::accept_write()
{
    Ev &h = q.front();
    lastphase = h.phase;
    if (h.phase == P_PROMPT && guard == 1) guard = 0;
    h.pos++;
    if (h.pos >= h.s.size()) q.pop_front();
}

void World::input(char ch)
{
    guard = 0;
    lastphase = P_ECHO;
    string echo;
    switch (ch) {
    case '\x03':
        push_out("^C\r\n", P_CTRLC);
        push_prompt();
        lastphase = P_CTRLC;
        return;
    case '\x08': case '\x7f':
        if (in_pos > 0) { in_pos--; buf[in_pos] = '\0'; echo = "\x08 \x08"; }
        break;
    case '\t':
        if (env->cfg.autocomp) { q.push_back(mk(T_TAB, P_TAB)); guard = 2; }
        break;
    case '\x1b':
        esc = 1;
        break;
    default:
        if (esc == 0) {
            buf[in_pos++] = ch;
            if (in_pos >= (size_t)N) in_pos = 0;
            buf[in_pos] = '\0';
            if (ch == '\r') echo = "\r\n"; else if (ch) echo = string(1, ch);
            if (is_nl(ch)) {
                push_out(echo, P_ECHO);
                q.push_back(mk(T_DISPATCH, P_DISP));
                return;
            }
        } else if (esc == 1) esc = (ch == '[' || ch == 'O') ? 2 : 0;
        else esc = 0;
        break;
    }
    push_out(echo, P_ECHO);
}

// ---------------------------------------------------------------- messages
void World::message_q(std::deque<Ev> &dst, const string &text, bool newline, int phase, bool ob)
{
    dst.clear();
    Ev e; e.type = E_OUT; e.phase = phase; e.ob = ob; e.s = text;
    if (!text.empty()) dst.push_back(e);
    if (newline) { Ev n; n.type = E_OUT; n.phase = phase; n.s = "\r\n"; dst.push_back(n); }
    dst.push_back(mk(T_PROMPT, P_PROMPT));
}
void World::set_msg(std::deque<Ev> m)
{
    if (in_call) { tail.swap(m); msg = true; }
    else { q.swap(m); tail.clear(); guard = 0; }
}
void World::op_message(const string &text, bool newline, int phase)
{
    std::deque<Ev> m;
    message_q(m, text, newline, phase, false);
    stale.clear();
    set_msg(m);
}
bool World::printf_safe()
{
    // the remainder of the text in the output buffer must be known
    if (in_call) return true;
    if (q.empty()) return false;        // decided by the caller, which knows whether the shell really waits for input
    const Ev &h = q.front();
    if (h.type != E_OUT) return false;
    return h.phase == P_PROMPT || (h.ob && (h.phase == P_APIP || h.phase == P_EXECP));
}
void World::op_printf(const string &text, bool fmt_err, int phase)
{
    string r;
    if (in_call) {
        if (msg || !tail.empty()) { if (!tail.empty() && tail.front().type == E_OUT && tail.front().ob) r = tail.front().s.substr(tail.front().pos); }
        if (!msg && r.empty()) r = stale;
    } else if (!q.empty() && q.front().type == E_OUT && q.front().ob) r = q.front().s.substr(q.front().pos);
    string s = cstr_at(r, 0) + text;    // a marked overflow ends in a NUL, which a continuation replaces
    size_t cap = (size_t)C;
    if (fmt_err || s.size() > cap - 1) {
        string em = fmt_err ? "...format error\r\n" : "...overflow error\r\n";
        if (s.size() > cap - 1) s.resize(cap - 1);
        if (cap - s.size() > em.size()) s += em;
        else {
            size_t end = cap > em.size() + 1 ? cap - em.size() - 1 : 0;
            s = s.substr(0, end) + em;
            s.resize(cap - 1);
            s += '\0';
        }
    }
    std::deque<Ev> m;
    message_q(m, s, false, phase, true);
    stale.clear();
    set_msg(m);
}
void World::op_flush(const string &text, bool newline, int phase)
{
    std::deque<Ev> m;
    message_q(m, text.substr(0, (size_t)C - 1), newline, phase, true);
    stale.clear();
    set_msg(m);
}
void World::op_reset()
{
    cwd = root;
    std::deque<Ev> m;
    message_q(m, "uShell 0.1.0\r\n", false, P_RECOV, false);
    stale.clear();
    set_msg(m);
}

void World::push_next(std::deque<Ev> &d, FRef f, int next)
{
    if (next == N_PROMPT) { d.push_back(mk(T_PROMPT, P_PROMPT)); return; }
    Ev c = mk(E_CALL, P_PROC, C_PROC);
    c.f = f;
    c.s = next == N_SERVICE ? "service" : "finish";
    c.pos = cur.pos + 1;
    d.push_back(c);
}
void World::op_process(FRef f)
{
    if (!tail.empty() && tail.front().type == E_OUT && tail.front().ob) stale = tail.front().s;
    tail.clear();
    msg = false;
    if (env->file(f).has_proc) {
        Ev c = mk(E_CALL, P_PROC, C_PROC);
        c.f = f;
        c.s = "start";
        tail.push_back(c);      // pos counts the invocations
    } else message_q(tail, "", true, P_PROC, false);
}
void World::end_process(int kind, int next, const string &text)
{
    in_call = false;
    if (kind == ST_TEXT || kind == ST_BIN) {
        stale.clear();
        tail.clear();
        Ev e; e.type = E_OUT; e.phase = P_PROC; e.s = text;
        if (!text.empty()) tail.push_back(e);
        push_next(tail, cur.f, next);
    } else if (kind == ST_GOTO) {
        if (!tail.empty() && tail.front().type == E_OUT && tail.front().ob) stale = tail.front().s;
        tail.clear();
        push_next(tail, cur.f, next);
    } else if (tail.empty()) { tail.push_back(cur); tail.back().pos++; }    // nothing done: the same step again
    q.clear();
    q.swap(tail);
    msg = false;
}

// ---------------------------------------------------------------- tree and groups
enum { ST_OK, ST_NOT_FOUND, ST_CHILDS, ST_NO_PARENT, ST_MOUNTED, ST_SYNTAX, ST_ARGS, ST_NOEXEC, ST_NOWRITE, ST_NOREAD, ST_NOHELP, ST_NOFILE, ST_RO };

int World::op_mount(const string &path, int table, int id)
{
    if (get_by_path(path) >= 0) return ST_MOUNTED;
    int p = parent_by_path(path);
    if (p < 0 && path != "/") return ST_NO_PARENT;
    MNode n;
    n.table = table; n.path = path; n.parent = p;
    nodes[id] = n;
    if (p >= 0) { auto &c = nodes[p].children; c.insert(c.begin(), id); }
    else { root = id; cwd = id; }
    return ST_OK;
}
int World::op_unmount(const string &path, int &id)
{
    id = -1;
    int p = parent_by_path(path), n = get_by_path(path);
    if (n < 0 || (n != root && p < 0)) return ST_NOT_FOUND;
    if (!nodes[n].children.empty()) return ST_CHILDS;
    if (p < 0) { id = n; nodes.erase(n); root = -1; return ST_OK; }
    auto &c = nodes[p].children;
    for (size_t k = 0; k < c.size(); k++)
        if (c[k] == n) {
            c.erase(c.begin() + k);
            if (cwd == n) cwd = p;
            id = n;
            nodes.erase(n);
            return ST_OK;
        }
    return ST_NOT_FOUND;
}
void World::op_gadd(int id, int table) { groups.insert(groups.begin(), {id, table}); }
int World::op_gdel(int id)
{
    for (size_t k = 0; k < groups.size(); k++) if (groups[k].first == id) { groups.erase(groups.begin() + k); return ST_OK; }
    return ST_NOT_FOUND;
}
int World::op_chdir(const string &path)
{
    if (path.empty()) return ST_NOT_FOUND;
    int n = get_by_path(abs_path(path));
    if (n < 0) return ST_NOT_FOUND;
    cwd = n;
    return ST_OK;
}
bool World::busy_listing() const
{
    if (guard) return true;
    for (auto &e : q) if (e.phase == P_LS || e.phase == P_HELP || e.phase == P_TAB) return true;
    return false;
}

// ---------------------------------------------------------------- command dispatch
void World::dispatch()
{
    vector<string> args = parse_line();
    tail.clear();
    msg = false;
    stale.clear();
    if (args.empty()) { push_prompt(); return; }
    tail.push_back(mk(T_PROMPT, P_PROMPT));
    if (gexec) {
        Ev c = mk(E_CALL, P_DISP, C_GEXEC);
        c.args = args;
        q.push_back(c);
        return;
    }
    resolve(args);
}
void World::status_tail(int s, int phase)
{
    std::deque<Ev> m;
    message_q(m, status(s), true, phase, false);
    tail.swap(m);
    stale.clear();
}
void World::resolve(const vector<string> &args)
{
    FRef f = find(args[0]);
    q.clear();
    if (f.none()) { status_tail(ST_SYNTAX, P_DISP); q.swap(tail); return; }
    const FileSpec &fs = env->file(f);
    if (!fs.exec) { status_tail(ST_NOEXEC, P_DISP); q.swap(tail); return; }
    if (f.table >= 0) {
        Ev c = mk(E_CALL, P_DISP, C_EXEC);
        c.f = f;
        c.args = args;
        q.push_back(c);
        return;
    }
    builtin(fs.name, args);
}
void World::start_process(std::deque<Ev> m)
{
    // output of an unfinished message of the same command is dropped
    stale.clear();
    if (!tail.empty() && tail.front().type == E_OUT && tail.front().ob) stale = tail.front().s;
    tail.clear();
    msg = false;
    q.swap(m);
}
string World::listing_name(const FileSpec &f) const
{
    if (!f.has_desc) return trunc(f.name) + "\r\n";
    string n = f.name;
    while (n.size() < (size_t)env->cfg.align) n += ' ';
    return trunc(n + " " + env->txt.yellow + "- ") + f.desc + env->txt.reset + "\r\n";
}
string World::ls_text(int node) const
{
    auto &n = nodes.at(node);
    auto &x = env->txt;
    string o = "d---- " + x.green + "." + x.reset + "\r\n";
    if (n.parent >= 0) o += "d---- " + x.green + ".." + x.reset + "\r\n";
    for (int c : n.children) o += "d---- " + x.green + m_path_last(nodes.at(c).path) + "/" + x.reset + "\r\n";
    for (auto &f : (*env->tables)[n.table]) {
        string fl = "-";
        fl += f.get != G_NONE ? 'r' : '-';
        fl += f.set ? 'w' : '-';
        fl += f.exec ? 'x' : '-';
        fl += f.has_help ? 'h' : '-';
        o += trunc(fl + " ") + listing_name(f);
    }
    return o;
}
string World::help_text() const
{
    string o;
    for (auto &g : groups) for (auto &f : (*env->tables)[g.second]) o += listing_name(f);
    for (auto &f : env->builtins) o += listing_name(f);
    return o;
}
string World::xxd_text(const string &d) const
{
    string o;
    size_t cols = (size_t)env->cfg.cols, off = 0;
    do {
        char b[32];
        snprintf(b, sizeof b, "%08lX: ", (unsigned long)off);
        o += trunc(b);
        string h, a;
        for (size_t i = 0; i < cols; i++) {
            if (off + i < d.size()) {
                u8 c = (u8)d[off + i];
                snprintf(b, sizeof b, "%02X ", c);
                h += b;
                a += (c >= 0x20 && c <= 0x7e) ? (char)c : '.';
            } else { h += "   "; a += ' '; }
        }
        o += trunc(h + " ") + trunc(a) + "\r\n";
        off += cols;
    } while (off < d.size());
    return o;
}

void World::builtin(const string &name, const vector<string> &args)
{
    size_t argc = args.size();
    auto fail = [&](int s, int phase) { status_tail(s, phase); q.swap(tail); tail.clear(); };
    std::deque<Ev> m;
    auto out_prompt = [&](const string &text, int phase) {
        Ev e; e.type = E_OUT; e.phase = phase; e.s = text;
        if (!text.empty()) m.push_back(e);
        m.push_back(mk(T_PROMPT, P_PROMPT));
    };
    if (name == "cd") {
        if (argc != 2) return fail(ST_ARGS, P_CD);
        int s = op_chdir(args[1]);
        if (s != ST_OK) return fail(s, P_CD);
        q.swap(tail);
    } else if (name == "pwd") {
        if (argc != 1) return fail(ST_ARGS, P_PWD);
        message_q(m, nodes.at(cwd).path, true, P_PWD, false);
        q.swap(m);
    } else if (name == "help") {
        if (argc > 2) return fail(ST_ARGS, P_HELP);
        if (argc == 2) {
            FRef f = find(args[1]);
            if (f.none()) return fail(ST_NOFILE, P_HELP);
            if (!env->file(f).has_help) return fail(ST_NOHELP, P_HELP);
            message_q(m, env->file(f).help, false, P_HELP, false);
            q.swap(m);
            return;
        }
        out_prompt(help_text(), P_HELP);
        start_process(m);
        guard = 1;
    } else if (name == "ls") {
        if (argc > 2) return fail(ST_ARGS, P_LS);
        int n = argc == 1 ? cwd : get_by_path(abs_path(args[1]));
        if (n < 0) return fail(ST_NOT_FOUND, P_LS);
        out_prompt(ls_text(n), P_LS);
        start_process(m);
        guard = 1;
    } else if (name == "cat") {
        if (argc < 2) return fail(ST_ARGS, P_CAT);
        for (size_t i = 1; i < argc; i++) {
            FRef f = find(args[i]);
            if (f.none()) return fail(ST_NOFILE, P_CAT);
            if (env->file(f).get == G_NONE) return fail(ST_NOREAD, P_CAT);
        }
        Ev e = mk(T_CATITEM, P_CAT, 1);
        e.args = args;
        m.push_back(e);
        start_process(m);
    } else if (name == "xxd") {
        if (argc != 2) return fail(ST_ARGS, P_XXD);
        FRef f = find(args[1]);
        if (f.none()) return fail(ST_NOFILE, P_XXD);
        if (env->file(f).get == G_NONE) return fail(ST_NOREAD, P_XXD);
        Ev c = mk(E_CALL, P_XXD, C_GET);
        c.f = f;
        q.push_back(c);
    } else if (name == "echo") {
        FRef f;
        if (argc == 4) {
            if (args[2] != ">") return fail(ST_ARGS, P_ECHOC);
            f = find(args[3]);
            if (f.none()) return fail(ST_NOFILE, P_ECHOC);
            if (!env->file(f).set) return fail(ST_NOWRITE, P_ECHOC);
            Ev c = mk(E_CALL, P_ECHOC, C_SET);
            c.f = f;
            c.s = m_decode(args[1]);
            q.push_back(c);
        } else if (argc == 2) {
            string d = m_decode(args[1]);
            message_q(m, cstr_at(d, 0), true, P_ECHOC, false);
            q.swap(m);
        } else if (argc == 1) {
            message_q(m, "", true, P_ECHOC, false);
            q.swap(m);
        } else return fail(ST_ARGS, P_ECHOC);
    }
}

void World::cat_item(const Ev &e)
{
    // q is empty here: a cat item is always the last thing queued
    size_t i = (size_t)e.a;
    if (i >= e.args.size()) { push_prompt(); return; }
    FRef f = find(e.args[i]);
    if (f.none()) { g_probe[PR_VANISHED]++; status_tail(ST_NOFILE, P_CAT); q.swap(tail); tail.clear(); return; }
    if (env->file(f).get == G_NONE) { g_probe[PR_REPLACED]++; status_tail(ST_NOREAD, P_CAT); q.swap(tail); tail.clear(); return; }
    Ev c = mk(E_CALL, P_CAT, C_GET);
    c.f = f;
    q.push_back(c);
    Ev n = mk(T_CATITEM, P_CAT, e.a + 1);
    n.args = e.args;
    q.push_back(n);
}

// ---------------------------------------------------------------- callbacks
bool World::match_call(int kind, FRef f, const vector<string> &args, const string &data, string &why, int &wkind)
{
    const Ev *h = head();
    if (!h || h->type != E_CALL) {
        wkind = K_CALL;
        why = h ? "unexpected callback, expected output " + show(h->s.substr(h->pos, 60)) : string("unexpected callback, nothing expected");
        return false;
    }
    if (h->a != kind || !(h->f == f)) { wkind = K_CALL; why = "wrong callback or wrong file"; return false; }
    if ((kind == C_GEXEC || kind == C_EXEC) && h->args != args) {
        wkind = K_ARGS;
        why = "arguments:";
        for (auto &a : args) why += " " + show(a);
        why += " expected:";
        for (auto &a : h->args) why += " " + show(a);
        return false;
    }
    if (kind == C_PROC && h->s != data) { wkind = K_ARGS; why = "processing step " + data + ", expected " + h->s; return false; }
    if (kind == C_SET && h->s != data) { wkind = K_ARGS; why = "written data " + show(data) + " expected " + show(h->s); return false; }
    return true;
}
void World::begin_call()
{
    cur = q.front();
    lastphase = cur.phase;
    q.pop_front();
    in_call = true;
    if (cur.a == C_GET || cur.a == C_PROC) { tail.clear(); msg = false; }
    if (cur.a == C_SET) msg = false;
}
void World::end_call(bool present, const string &data)
{
    in_call = false;
    switch (cur.a) {
    case C_GEXEC: resolve(cur.args); break;
    case C_EXEC: case C_SET: q.clear(); q.swap(tail); break;
    case C_GET:
        if (cur.phase == P_XXD) {
            std::deque<Ev> m;
            Ev e; e.type = E_OUT; e.phase = P_XXD; e.s = xxd_text(data);
            m.push_back(e);
            m.push_back(mk(T_PROMPT, P_PROMPT));
            start_process(m);
        } else {
            if (present) {
                if (!data.empty()) {
                    Ev e; e.type = E_OUT; e.phase = P_CAT; e.s = data;
                    q.push_front(e);
                }
                stale.clear();
                tail.clear();
            } else if (msg) q.swap(tail);
            tail.clear();
        }
        msg = false;
        break;
    }
}

// ---------------------------------------------------------------- completion
vector<string> World::candidates(const string &word) const
{
    vector<string> out;
    auto starts = [&](const string &n) { return n.compare(0, word.size(), word) == 0; };
    for (auto &g : groups) for (auto &f : (*env->tables)[g.second]) if (starts(f.name)) out.push_back(f.name);
    for (auto &f : env->builtins) if (starts(f.name)) out.push_back(f.name);
    for (auto &f : (*env->tables)[nodes.at(cwd).table]) if (starts(f.name)) out.push_back(f.name);
    for (int c : nodes.at(listing_dir(word)).children) { string n = m_path_last(nodes.at(c).path); if (starts(n)) out.push_back(n); }
    return out;
}
int World::listing_dir(const string &word) const    // whose subdirectories may complete the word
{
    if (!word.empty()) { int p = parent_by_path(abs_path(word)); if (p >= 0) return p; }
    return cwd;
}
void World::tab()
{
    string line = cstr_at(buf, 0);
    in_pos = line.size();
    size_t w = line.rfind(' ');
    size_t idx = w == string::npos ? 0 : w + 1;
    string word = line.substr(idx);
    auto setline = [&](const string &l) { for (size_t i = 0; i < l.size(); i++) buf[i] = l[i]; buf[l.size()] = '\0'; in_pos = l.size(); };
    vector<string> c = candidates(word);
    if (c.empty()) return;
    if (c.size() == 1) {
        if (idx + c[0].size() >= (size_t)N) { g_probe[PR_NOFIT]++; return; }
        string suffix = c[0].substr(word.size());
        setline(line.substr(0, idx) + c[0]);
        push_out(suffix, P_TAB);
        return;
    }
    string ext = word;
    while (true) {
        if (idx + ext.size() + 1 >= (size_t)N) { g_probe[PR_NOFIT]++; break; }
        if (ext.size() >= c.back().size()) break;
        string nx = ext + c.back()[ext.size()];
        vector<string> c2;
        if (listing_dir(nx) == listing_dir(ext)) {
            for (auto &n : c) if (n.compare(0, nx.size(), nx) == 0) c2.push_back(n);
        } else c2 = candidates(nx);
        if (c2.size() < c.size()) break;
        ext = nx;
        c = c2;
    }
    setline(line.substr(0, idx) + ext);
    if (ext.size() > word.size()) { push_out(ext.substr(word.size()), P_TAB); return; }
    string o = "\r\n";
    for (auto &n : candidates(word)) o += n + "\r\n";
    push_out(o, P_TAB);
    q.push_back(mk(T_PROMPT, P_TAB, 1));
}

string World::key() const
{
    string k;
    auto num = [&](long v) { k += std::to_string(v); k += ','; };
    auto str = [&](const string &s) { num((long)s.size()); k += s; };
    num(root); num(cwd); num((long)in_pos); num(esc); num(guard); num(in_call); num(msg);
    str(buf); str(stale);
    for (auto &n : nodes) { num(n.first); num(n.second.table); num(n.second.parent); for (int c : n.second.children) num(c); k += ';'; }
    for (auto &g : groups) num(g.first);
    for (const std::deque<Ev> *d : { &q, &tail }) {
        k += '|';
        for (auto &e : *d) { num(e.type); num(e.phase); num((long)e.pos); num(e.a); num(e.ob); str(e.s); num(e.f.table); num(e.f.idx); for (auto &a : e.args) str(a); }
    }
    return k;
}
