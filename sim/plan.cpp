#include "plan.hpp"
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>

const char *const PHASE_NAME[P__N] = {
    "boot", "prompt", "echo", "ctrlc", "dispatch", "execprint", "cat", "xxd", "ls", "help", "echocmd", "cd", "pwd", "tab",
    "apiprint", "idle", "tree", "group", "chdir", "query", "recovery", "process"
};
const char *const KIND_NAME[K__N] = {
    "none", "output", "missing", "extra", "call", "args", "status", "query", "busy", "iocount", "hang", "live", "assert",
    "sanitizer", "heap", "stack", "self", "data", "deinit", "reoffer", "build"
};
const char *const ACT_NAME[A__N] = {
    "print", "printnn", "status", "printf", "printfmt", "printbad", "flush", "reset",
    "mount", "unmount", "gadd", "gdel", "chdir", "setdata", "qpath", "qfile", "qabs", "qparent",
    "reinit", "power", "reroot", "host", "proc", "printarg", "scribble", "other", "service", "step"
};
static const char *const ITEM_NAME[I__N] = { "rx", "idle", "steps", "bytes", "msg", "op", "taken" };

// quoted, printable, reversible rendering
string show(const string &s)
{
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\r') o += "\\r";
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == 0x1b) o += "\\e";
        else if (c >= 0x20 && c < 0x7f) o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o + "\"";
}

string hexs(const string &s) { string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
string unhex(const string &s) { string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }

struct Lex {
    const string &t; size_t p = 0; bool bad = false;
    explicit Lex(const string &x) : t(x) {}
    void ws() { while (p < t.size() && (t[p] == ' ')) p++; }
    bool eol() { ws(); return p >= t.size(); }
    string word() { ws(); string o; while (p < t.size() && t[p] != ' ') o += t[p++]; if (o.empty()) bad = true; return o; }
    long num() { string w = word(); char *e; long v = strtol(w.c_str(), &e, 10); if (*e || w.empty()) bad = true; return v; }
    u64 unum() { string w = word(); char *e; u64 v = strtoull(w.c_str(), &e, 10); if (*e || w.empty()) bad = true; return v; }
    static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
    string str() {
        ws();
        string o;
        if (p >= t.size() || t[p] != '"') { bad = true; return o; }
        p++;
        while (p < t.size() && t[p] != '"') {
            if (t[p] == '\\' && p + 1 < t.size()) {
                char c = t[p + 1]; p += 2;
                if (c == 'r') o += '\r'; else if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'e') o += '\x1b';
                else if (c == 'x') {
                    if (p + 1 >= t.size() || hexv(t[p]) < 0 || hexv(t[p + 1]) < 0) { bad = true; return o; }
                    o += (char)(hexv(t[p]) * 16 + hexv(t[p + 1])); p += 2;
                } else o += c;
            } else o += t[p++];
        }
        if (p >= t.size()) bad = true; else p++;
        return o;
    }
};

static string wact(const Action &a)
{
    std::ostringstream o;
    o << ACT_NAME[a.op] << " " << a.a << " " << a.b << " " << show(a.s);
    return o.str();
}
static Action ract(Lex &l)
{
    Action a;
    string n = l.word();
    a.op = -1;
    for (int i = 0; i < A__N; i++) if (n == ACT_NAME[i]) a.op = i;
    if (a.op < 0) { l.bad = true; a.op = 0; }
    a.a = (int)l.num(); a.b = (int)l.num(); a.s = l.str();
    return a;
}
static string wvec(const vector<int> &v) { std::ostringstream o; o << v.size(); for (int x : v) o << " " << x; return o.str(); }
static vector<int> rvec(Lex &l) { vector<int> v; long n = l.num(); if (n < 0 || n > 100000) { l.bad = true; return v; } for (long i = 0; i < n && !l.bad; i++) v.push_back((int)l.num()); return v; }

string plan_write(const Plan &p)
{
    std::ostringstream o;
    o << "plan 1\nseed " << p.seed << "\nprop " << p.prop << "\nvariant " << p.variant << "\nro " << p.ro << "\nfill " << p.fill << "\n";
    if (p.reuse) o << "reuse " << p.reuse << "\n";
    if (p.known) o << "known " << p.known << "\n";
    for (auto &t : p.tables) {
        o << "table\n";
        for (auto &f : t) {
            o << " file " << show(f.name) << " get " << f.get << " set " << f.set << " exec " << f.exec << "\n";
            if (f.has_desc) o << "  desc " << show(f.desc) << "\n";
            if (f.has_help) o << "  help " << show(f.help) << "\n";
            if (!f.data.empty()) o << "  data " << show(f.data) << "\n";
            for (auto &a : f.on_exec) o << "  onexec " << wact(a) << "\n";
            for (auto &a : f.on_get) o << "  onget " << wact(a) << "\n";
            for (auto &a : f.on_set) o << "  onset " << wact(a) << "\n";
            if (f.has_proc) o << "  process\n";
            for (auto &a : f.proc) o << "  onproc " << wact(a) << "\n";
        }
    }
    for (auto &s : p.shells) {
        o << "shell in " << s.in << " out " << s.out << " pmax " << s.pmax << " host " << show(s.host) << " gexec " << s.gexec
          << " rxjunk " << s.rxjunk << "\n";
        for (auto &a : s.gact) o << " gact " << wact(a) << "\n";
        for (auto &m : s.mounts) o << " mount " << show(m.first) << " " << m.second << "\n";
        o << " groups " << wvec(s.groups) << "\n period " << wvec(s.period) << "\n tx " << wvec(s.tx) << "\n";
        for (auto &i : s.items) {
            o << " " << ITEM_NAME[i.kind] << " " << i.n;
            if (i.kind == I_RX) o << " " << show(i.s);
            if (i.kind == I_OP) o << " " << wact(i.op);
            o << "\n";
        }
    }
    o << "end\n";
    return o.str();
}

bool plan_parse(const string &text, Plan &p, string &err)
{
    p = Plan();
    p.tables.clear();
    std::istringstream in(text);
    string line;
    int ln = 0;
    bool ended = false;
    while (std::getline(in, line)) {
        ln++;
        Lex l(line);
        if (l.eol()) continue;
        if (line[0] == '#') continue;
        string k = l.word();
        if (k == "plan") l.num();
        else if (k == "seed") p.seed = l.unum();
        else if (k == "prop") p.prop = l.word();
        else if (k == "variant") p.variant = (int)l.num();
        else if (k == "ro") p.ro = (int)l.num();
        else if (k == "reuse") p.reuse = (int)l.num();
        else if (k == "known") p.known = (int)l.num();
        else if (k == "fill") p.fill = l.unum();
        else if (k == "table") p.tables.emplace_back();
        else if (k == "file") {
            if (p.tables.empty()) { l.bad = true; }
            else {
                FileSpec f;
                f.name = l.str(); l.word(); f.get = (int)l.num(); l.word(); f.set = l.num() != 0; l.word(); f.exec = l.num() != 0;
                p.tables.back().push_back(f);
            }
        } else if (k == "desc" || k == "help" || k == "data" || k == "onexec" || k == "onget" || k == "onset" || k == "process" || k == "onproc") {
            if (p.tables.empty() || p.tables.back().empty()) { l.bad = true; }
            else {
                FileSpec &f = p.tables.back().back();
                if (k == "desc") { f.has_desc = true; f.desc = l.str(); }
                else if (k == "help") { f.has_help = true; f.help = l.str(); }
                else if (k == "data") f.data = l.str();
                else if (k == "onexec") f.on_exec.push_back(ract(l));
                else if (k == "process") f.has_proc = true;
                else if (k == "onproc") f.proc.push_back(ract(l));
                else if (k == "onget") f.on_get.push_back(ract(l));
                else f.on_set.push_back(ract(l));
            }
        } else if (k == "shell") {
            ShellSpec s;
            l.word(); s.in = (int)l.num(); l.word(); s.out = (int)l.num(); l.word(); s.pmax = (int)l.num();
            l.word(); s.host = l.str(); l.word(); s.gexec = l.num() != 0; l.word(); s.rxjunk = l.num() != 0;
            p.shells.push_back(s);
        } else if (k == "end") { ended = true; break; }
        else if (p.shells.empty()) l.bad = true;
        else {
            ShellSpec &s = p.shells.back();
            if (k == "gact") s.gact.push_back(ract(l));
            else if (k == "mount") { string m = l.str(); int t = (int)l.num(); s.mounts.push_back({m, t}); }
            else if (k == "groups") s.groups = rvec(l);
            else if (k == "period") s.period = rvec(l);
            else if (k == "tx") s.tx = rvec(l);
            else {
                Item it;
                it.kind = -1;
                for (int i = 0; i < I__N; i++) if (k == ITEM_NAME[i]) it.kind = i;
                if (it.kind < 0) l.bad = true;
                else {
                    it.n = (int)l.num();
                    if (it.kind == I_RX) it.s = l.str();
                    if (it.kind == I_OP) it.op = ract(l);
                    s.items.push_back(it);
                }
            }
        }
        if (l.bad) { err = "line " + std::to_string(ln) + ": " + line; return false; }
    }
    if (!ended) { err = "truncated plan"; return false; }
    return true;
}
