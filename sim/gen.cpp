// Seeded generation of plans. Every property has a profile that biases the mix towards the behaviour it is about.
#include "gen.hpp"
#include "exec.hpp"
#include <cstring>

struct Profile {
    int shells_min = 1, shells_max = 1;
    int lines_min = 3, lines_max = 10;
    int tiny = 15, small = 25;              // per cent of runs with tiny / small buffers (else medium)
    int shortpath = 15;                     // per cent of runs with a short path limit
    int harsh = 50;                         // per cent of runs with an imperfect link or pacing
    int typeahead = 35;                     // per cent of lines sent without waiting for the shell
    int noise = 15;                         // per cent of lines with edits
    int tabs = 5;                           // per cent of lines with completion
    int ctrlc = 3;
    int ops = 15;                           // per cent chance of an application action around a line
    int mid = 40;                           // per cent of those actions that hit the shell in the middle of something
    int cbact = 15;                         // per cent of callbacks that act
    int gexec = 20;
    int junk = 40, ro = 25;
    int othervar = 15;                      // per cent of runs on another build variant
    int bigdata = 5;
    int proc = 5;                           // per cent of files with a processing callback, and of executions that start one
    vector<std::pair<int, int>> ops_w;      // action, weight
    // command weights: help help1 ls ls1 cd pwd cat xxd echow echop echo0 exec unknown garbage blank longline
    vector<int> cmd = { 4, 5, 5, 6, 8, 5, 8, 5, 8, 5, 2, 14, 4, 8, 3, 3 };
};
enum { Q_HELP, Q_HELP1, Q_LS, Q_LS1, Q_CD, Q_PWD, Q_CAT, Q_XXD, Q_ECHOW, Q_ECHOP, Q_ECHO0, Q_EXEC, Q_UNKNOWN, Q_GARBAGE, Q_BLANK, Q_LONG };

static const vector<std::pair<int, int>> OPS_TREE = { {A_MOUNT, 8}, {A_UNMOUNT, 8}, {A_CHDIR, 3}, {A_QPATH, 2}, {A_QFILE, 1}, {A_REROOT, 1} };
static const vector<std::pair<int, int>> OPS_PRINT = { {A_PRINT, 6}, {A_PRINTNN, 3}, {A_STATUS, 3}, {A_PRINTF, 10}, {A_PRINTFMT, 4}, {A_PRINTBAD, 1}, {A_FLUSH, 4} };
static const vector<std::pair<int, int>> OPS_RECOV = { {A_RESET, 10}, {A_REINIT, 5}, {A_POWER, 6}, {A_MOUNT, 1}, {A_GADD, 1} };
static const vector<std::pair<int, int>> OPS_GROUP = { {A_GADD, 10}, {A_GDEL, 8} };
static const vector<std::pair<int, int>> OPS_ALL = { {A_MOUNT, 4}, {A_UNMOUNT, 4}, {A_CHDIR, 2}, {A_QPATH, 1}, {A_QPARENT, 1}, {A_QFILE, 1}, {A_QABS, 1}, {A_PRINT, 2}, {A_PRINTNN, 1},
    {A_STATUS, 1}, {A_PRINTF, 3}, {A_PRINTFMT, 1}, {A_FLUSH, 1}, {A_RESET, 2}, {A_REINIT, 1}, {A_POWER, 1}, {A_GADD, 3}, {A_GDEL, 3}, {A_SETDATA, 3}, {A_REROOT, 1} };

static Profile profile(const string &prop, Rng &r)
{
    Profile p;
    p.ops_w = OPS_ALL;
    if (prop == "C01") { p.harsh = 100; p.ops = 5; p.typeahead = 60; p.tabs = 8; p.noise = 20; p.lines_max = 8; p.othervar = 5; }
    else if (prop == "C02") { p.noise = 85; p.ops = 8; p.mid = 70; p.ctrlc = 15; p.tiny = 35; p.small = 35; p.cmd = { 1, 0, 1, 0, 1, 2, 1, 0, 2, 6, 1, 14, 4, 14, 4, 14 }; p.cbact = 5; }
    else if (prop == "C03") { p.noise = 10; p.ops = 6; p.mid = 60; p.gexec = 60; p.cmd = { 0, 0, 0, 0, 0, 1, 1, 0, 3, 4, 0, 40, 3, 30, 6, 4 }; p.cbact = 3; p.lines_max = 14; p.tiny = 10; }
    else if (prop == "C04") { p.gexec = 55; p.cmd = { 1, 2, 1, 1, 6, 1, 1, 1, 1, 1, 0, 40, 14, 8, 6, 2 }; p.ops = 8; p.ops_w = OPS_GROUP; p.lines_max = 14; }
    else if (prop == "C05") { p.cmd = { 0, 3, 2, 10, 34, 14, 6, 3, 4, 0, 0, 12, 1, 1, 1, 1 }; p.ops = 12; p.ops_w = OPS_TREE; p.shortpath = 40; p.lines_max = 16; p.cbact = 5; p.tabs = 2; }
    else if (prop == "C06") { p.cmd = { 0, 0, 1, 0, 5, 0, 50, 0, 4, 0, 0, 2, 0, 0, 1, 1 }; p.bigdata = 25; p.ops = 20; p.ops_w = { {A_MOUNT, 2}, {A_UNMOUNT, 5}, {A_GDEL, 4}, {A_GADD, 2}, {A_SETDATA, 4}, {A_CHDIR, 2} }; p.mid = 70; p.cbact = 15; }
    else if (prop == "C07") { p.cmd = { 0, 0, 0, 0, 3, 0, 2, 60, 4, 0, 0, 1, 0, 0, 1, 1 }; p.bigdata = 25; p.ops = 15; p.mid = 70; p.ops_w = { {A_MOUNT, 3}, {A_UNMOUNT, 4}, {A_GDEL, 3}, {A_GADD, 3}, {A_SETDATA, 3}, {A_CHDIR, 4}, {A_RESET, 1}, {A_PRINT, 1}, {A_QPATH, 1}, {A_QFILE, 1} }; p.small = 30; p.tiny = 20; p.cbact = 12; }
    else if (prop == "C08") { p.cmd = { 0, 0, 25, 30, 12, 0, 1, 0, 0, 0, 0, 1, 0, 0, 1, 0 }; p.ops = 20; p.ops_w = OPS_TREE; p.small = 30; p.tiny = 20; }
    else if (prop == "C09") { p.cmd = { 25, 35, 0, 0, 4, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0 }; p.ops = 20; p.ops_w = OPS_GROUP; p.small = 30; p.tiny = 20; }
    else if (prop == "C10") { p.cmd = { 0, 0, 0, 0, 4, 0, 8, 4, 45, 25, 6, 1, 0, 0, 1, 2 }; p.ops = 12; p.mid = 60; p.cbact = 20; }
    else if (prop == "C11") { p.tabs = 75; p.cmd = { 2, 5, 2, 8, 8, 2, 10, 4, 8, 3, 0, 16, 4, 2, 0, 2 }; p.tiny = 15; p.small = 45; p.ops = 12; p.ops_w = { {A_GADD, 4}, {A_GDEL, 3}, {A_MOUNT, 4}, {A_UNMOUNT, 3}, {A_CHDIR, 2}, {A_PRINT, 1}, {A_RESET, 1} }; p.cbact = 3; }
    else if (prop == "C12") { p.tiny = 35; p.small = 30; p.shortpath = 45; p.noise = 35; p.tabs = 25; p.ops = 30; p.cbact = 30; p.junk = 70; p.ro = 45; p.othervar = 20; p.gexec = 30; p.cmd = { 4, 5, 5, 6, 8, 4, 8, 6, 8, 5, 2, 12, 4, 12, 3, 8 }; p.bigdata = 10; }
    else if (prop == "C13") { p.ops = 75; p.ops_w = OPS_TREE; p.cmd = { 0, 1, 14, 14, 14, 8, 6, 1, 2, 0, 0, 8, 1, 0, 1, 0 }; p.tabs = 12; p.lines_max = 18; p.cbact = 25; }
    else if (prop == "C14") { p.ops = 75; p.ops_w = OPS_GROUP; p.cmd = { 14, 14, 0, 0, 2, 0, 6, 0, 2, 0, 0, 35, 2, 0, 1, 0 }; p.tabs = 12; p.lines_max = 18; p.cbact = 25; }
    else if (prop == "C15") { p.shells_min = 2; p.shells_max = 4; p.harsh = 70; p.ops = 12; p.othervar = 10; p.tabs = 12; p.lines_max = 8; }
    else if (prop == "C16") { p.ops = 45; p.mid = 75; p.ops_w = OPS_RECOV; p.ctrlc = 15; p.junk = 90; p.noise = 20; p.tabs = 10; p.cbact = 20; p.cmd = { 5, 4, 8, 5, 14, 6, 8, 10, 6, 5, 1, 14, 3, 5, 2, 3 }; }
    else if (prop == "C17") { p.harsh = 100; p.ops = 10; p.typeahead = 60; p.bigdata = 10; p.tabs = 12; p.cbact = 20; }
    else if (prop == "C18") { p.ops = 60; p.ops_w = OPS_PRINT; p.cbact = 90; p.cmd = { 1, 1, 2, 1, 2, 1, 2, 1, 4, 2, 0, 40, 1, 0, 1, 0 }; p.small = 40; p.tiny = 15; p.gexec = 35; p.tabs = 3; }
    else if (prop == "C19") { p.othervar = 100; p.tabs = 15; p.cmd = { 6, 6, 6, 6, 6, 4, 8, 8, 8, 5, 2, 10, 4, 3, 1, 1 }; p.noise = 15; }
    else if (prop == "C21") { p.bigdata = 40; p.tabs = 10; p.cmd = { 5, 3, 6, 5, 6, 2, 14, 8, 10, 3, 1, 10, 2, 4, 1, 6 }; p.othervar = 0; p.ops = 15; p.lines_max = 8; p.small = 60; p.tiny = 30; }
    else if (prop == "C22") { p.proc = 75; p.ops = 40; p.mid = 90; p.cbact = 40; p.cmd = { 2, 1, 3, 1, 3, 1, 3, 1, 6, 1, 0, 45, 1, 0, 1, 0 }; p.ops_w = { {A_PRINT, 4}, {A_PRINTNN, 2}, {A_STATUS, 1}, {A_FLUSH, 1}, {A_PRINTF, 2},
        {A_RESET, 4}, {A_REINIT, 1}, {A_POWER, 2}, {A_CHDIR, 4}, {A_MOUNT, 3}, {A_UNMOUNT, 4}, {A_GADD, 2}, {A_GDEL, 3}, {A_QPATH, 1}, {A_SETDATA, 1} }; p.small = 35; p.tabs = 8; }
    if (prop == "C01" || prop == "C15" || prop == "C16" || prop == "C17" || prop == "C18" || prop == "C21") p.proc = 20;
    // sometimes mix in what the property is not about: other commands, completions, actions, multi-step commands
    if (r.chance(25)) {
        int top = 0;
        for (int w : p.cmd) top = std::max(top, w);
        for (auto &w : p.cmd) w = std::max(w, top / (r.chance(50) ? 6 : 15));
        p.tabs = std::max(p.tabs, 8);
        if (r.chance(40)) p.ops_w.insert(p.ops_w.end(), OPS_ALL.begin(), OPS_ALL.end());
        if (r.chance(30)) p.proc = std::max(p.proc, 15);
    }
    // swarm: sometimes switch a whole dimension off or to the extreme
    if (r.chance(15)) p.noise = 0;
    if (r.chance(15)) p.ops = 0;
    if (r.chance(15)) p.tabs = std::min(p.tabs, 5);
    if (r.chance(10)) p.typeahead = 100;
    if (r.chance(10)) p.typeahead = 0;
    return p;
}

struct Gen {
    Rng r;
    Profile pf;
    Plan p;
    string prop;
    vector<string> dirs;        // directories thought to be mounted (of the shell being generated)
    vector<string> otherdirs;   // paths used for further mounts
    string cwd;
    vector<int> dirtab;
    std::map<string, int> tabof;
    vector<int> groups;
    int in, out, pmax;
    bool multi = false;         // several shells

    explicit Gen(u64 s) : r(s) {}

    // ---------------------------------------------------------------- names and data
    string name()
    {
        static const vector<string> pool = { "a", "ab", "abc", "abd", "b", "ba", "dev", "data", "date", "dump", "f", "file", "file1", "file2", "file.txt", "t",
            "test", "tee", "x", "xx", "e", "h", "l", "p", "c", "set", "get", "reset", "info", "led", "list", "log", "A", "File", "-a", "~", "f1", "file10" };
        int k = (int)r.below(100);
        if (k < 70) return r.pick(pool);
        if (k < 76) return string("f") + (char)('0' + r.below(10));
        if (k < 80) return r.pick(vector<string>{ "ls", "help", "echo", "cat", "cd", "pwd", "xxd" });
        if (k < 83) return "my file";
        if (k < 85) return "q\"uote";
        if (k < 87) return "back\\slash";
        if (k < 89) return "\xc3\xb3\xff";
        if (k < 91) return ".hid";
        if (k < 92) return "..x";
        if (k < 93) return ">";
        if (k < 94) return "a/b";
        if (k < 95) return r.pick(vector<string>{ "%s%n", "100%", "#x", "$a", "'q'", "a;b", "*", "=", "x y", "end ", "a\tb" });
        string s;
        int n = k < 98 ? r.range(12, 24) : r.range(30, 70);
        string base = r.pick(pool);
        while ((int)s.size() < n) s += base + "_";
        s.resize(n);
        return s;
    }
    string dname()
    {
        static const vector<string> pool = { "a", "b", "ab", "abc", "dev", "mem", "bus", "data", "d1", "d2", "t", "etc", "bin", "file", "log", "A", "Dev", "-", "~" };
        int k = (int)r.below(100);
        if (k < 86) return r.pick(pool);
        if (k < 90) return "my dir";
        if (k < 91) return ".d";
        if (k < 92) return r.pick(vector<string>{ "...", "%s", "d ", "x.y", "..d" });
        if (k < 94) return r.chance(70) ? "very_long_directory_name_0123456789" : r.chance(30) ? "\xc3\xa9\xfe" : string((size_t)r.range(12, 70), (char)r.range('a', 'c'));
        return string("n") + (char)('0' + r.below(10)) + r.pick(pool);
    }
    string text(int maxlen)
    {
        string t = text0(maxlen);
        if (r.chance(10)) t += r.pick(vector<string>{ "\n", "\r\n", "\r", " ", "\\", "\"", "%" });
        if (r.chance(3)) t = r.pick(vector<string>{ "\n", "\r\n", " ", "-", "\x1b" }) + t;
        return t;
    }
    string text0(int maxlen)
    {
        static const vector<string> pool = { "hello", "ok", "a b c", "value=42", "line1\r\nline2", "x", "0123456789", "%d%s", "\xe2\x82\xac", "tab\there", "done.", "\x1b[1mbold\x1b[0m", "\n", "100%%" };
        int k = (int)r.below(100);
        if (k < 5) return "";
        if (k < 70) return r.pick(pool);
        string s;
        int n = (int)r.below((u64)std::max(1, maxlen));
        if (r.chance(20)) n = std::max(0, out + r.range(-2, 1));        // about the size of the output buffer
        else if (r.chance(8)) n = std::max(0, out - r.range(15, 21));   // what an error text leaves of it
        for (int i = 0; i < n; i++) s += (char)r.range(0x20, 0x7e);
        return s;
    }
    string bytes(int n)
    {
        string s;
        if (r.chance(15)) {     // lines which repeat
            string u = bytes(r.pick(vector<int>{ 1, 1, 1, 2, 4, 7, 8, 16, 32 }));
            if (r.chance(40)) u.assign(u.size(), r.chance(50) ? '\0' : r.chance(50) ? '\xff' : ' ');
            while ((int)s.size() < n) s += u;
            s.resize((size_t)n);
            for (int k = r.chance(50) ? 0 : r.range(1, 3); k > 0 && n > 0; k--) s[r.below((u64)n)] = (char)r.below(256);
            return s;
        }
        int mode = (int)r.below(4);
        for (int i = 0; i < n; i++) s += mode == 0 ? (char)r.range(0x20, 0x7e) : mode == 1 ? (char)r.below(256) : mode == 2 ? (char)(i & 0xff) : (char)("\0\n\r\x1b\x7f\x80\xff\x1f\x20\x7e"[r.below(10)]);
        return s;
    }
    string filedata()
    {
        int k = (int)r.below(100);
        if (k < 8) return "";
        if (k < 14) return bytes(1);
        if (k < 60) return bytes(r.range(1, 24));
        if (k < 100 - pf.bigdata) return bytes(r.range(1, 70));
        return bytes(r.pick(vector<int>{ 7, 8, 9, 15, 16, 17, 24, 128, 255, 256, 257, r.range(100, 700) }));
    }

    // ---------------------------------------------------------------- actions
    Action act(const vector<std::pair<int, int>> &w, bool incall)
    {
        int tot = 0;
        for (auto &x : w) tot += x.second;
        int k = (int)r.below((u64)tot);
        Action a;
        for (auto &x : w) { if (k < x.second) { a.op = x.first; break; } k -= x.second; }
        switch (a.op) {
        case A_PRINT: case A_PRINTNN: a.s = text(60); break;
        case A_PRINTF: case A_PRINTFMT: a.s = r.chance(25) ? text(out * 2) : text(30); a.a = (int)r.below(1000); break;
        case A_FLUSH: a.s = r.chance(25) ? text(out * 2) : text(30); a.b = r.chance(50) ? 0 : r.range(1, 2); break;
        case A_STATUS: a.a = (int)r.below(13); break;
        case A_MOUNT: {
            a.a = (int)r.below(p.tables.size());
            int z = (int)r.below(100);
            if (z < 60 || otherdirs.empty()) { string d = anydir(); a.s = (d == "/" ? "" : d) + "/" + dname(); }
            else if (z < 75) a.s = r.pick(otherdirs);
            else if (z < 85) a.s = anydir();
            else if (z < 92) a.s = "/" + dname() + "/" + dname();
            else a.s = r.pick(vector<string>{ "", "/", "a", "//", "/a/", "a/b", "/a//b", ".", "/..", "/." });
            otherdirs.push_back(a.s);
            if (!incall && r.chance(70)) { dirs.push_back(a.s); tabof[a.s] = a.a; }
            break;
        }
        case A_UNMOUNT: {
            int z = (int)r.below(100);
            if (z < 45) a.s = anydir();
            else if (z < 85 && !otherdirs.empty()) a.s = r.pick(otherdirs);
            else if (z < 90) a.s = cwd;
            else a.s = r.pick(vector<string>{ "", "/", "a", "//", "/a/", "/nope", "." });
            break;
        }
        case A_CHDIR: case A_QPATH: case A_QPARENT: case A_QFILE: case A_QABS: a.s = r.chance(60) ? path_dir() : path_file(); break;
        case A_GADD: a.a = (int)r.below(p.tables.size()); groups.push_back(a.a); break;
        case A_GDEL: a.a = (int)r.below(12); a.b = r.chance(15) ? r.range(1, 4) : 0; break;
        case A_SETDATA: a.a = (int)r.below(p.tables.size()); a.b = (int)r.below(8); a.s = filedata(); break;
        case A_PROC: a.a = (int)r.below(p.tables.size()); a.b = (int)r.below(8); break;
        case A_REROOT: a.a = (int)r.below(p.tables.size()); if (r.chance(40)) { a.b = (int)r.below(8) | 1; a.s = r.chance(60) ? anydir() : "/" + dname(); } break;
        case A_PRINTARG: a.a = (int)r.below(4); a.b = r.chance(30); break;
        case A_OTHER: a.a = (int)r.below(3); break;
        case A_SERVICE: a.b = r.chance(50) ? r.range(1, 12) : r.range(12, 200); break;
        case A_HOST: a.s = r.pick(vector<string>{ "h", "host2", "", "a-long-host", "100%" }); if (r.chance(10)) a.s = string((size_t)r.range(16, 99), 'H'); break;
        }
        return a;
    }
    vector<std::pair<int, int>> incall_ops()
    {
        if (prop == "C13") return { {A_MOUNT, 6}, {A_UNMOUNT, 6}, {A_CHDIR, 3}, {A_PRINT, 1} };
        if (prop == "C14") return { {A_GADD, 6}, {A_GDEL, 6}, {A_PRINT, 1} };
        if (prop == "C18") return { {A_PRINT, 4}, {A_PRINTNN, 2}, {A_STATUS, 2}, {A_PRINTF, 14}, {A_PRINTFMT, 5}, {A_PRINTBAD, 1}, {A_FLUSH, 3}, {A_PRINTARG, 3} };
        if (prop == "C16") return { {A_RESET, 8}, {A_PRINT, 2}, {A_PRINTF, 2} };
        return { {A_PRINT, 5}, {A_PRINTNN, 2}, {A_STATUS, 3}, {A_PRINTF, 8}, {A_PRINTFMT, 2}, {A_FLUSH, 1}, {A_RESET, 2}, {A_MOUNT, 2}, {A_UNMOUNT, 2}, {A_GADD, 1}, {A_GDEL, 1},
                 {A_CHDIR, 2}, {A_SETDATA, 2}, {A_HOST, 1}, {A_QPATH, 1}, {A_PRINTARG, 3}, {A_SCRIBBLE, 2} };
    }
    vector<Action> cbacts(int pct)
    {
        vector<Action> v;
        if (!r.chance(pct)) return v;
        int n = r.chance(60) ? 1 : r.range(2, 4);
        auto w = incall_ops();
        if (multi && r.chance(35))
            for (int i = r.range(1, 3); i > 0; i--) {
                v.push_back(act({ {A_OTHER, 1} }, true));
                v.push_back(act({ {A_SERVICE, 8}, {A_PRINT, 2}, {A_PRINTF, 1}, {A_RESET, 1}, {A_CHDIR, 1}, {A_MOUNT, 1}, {A_UNMOUNT, 1}, {A_GADD, 1}, {A_GDEL, 1} }, true));
            }
        for (int i = 0; i < n; i++) {
            v.push_back(act(w, true));
            if (v.back().op == A_UNMOUNT && !v.back().s.empty() && r.chance(50)) { Action a = v.back(); a.op = A_MOUNT; a.a = (int)r.below(p.tables.size()); v.push_back(a); }
        }
        if ((prop == "C13" || prop == "C05") ? r.chance(15) : r.chance(2)) for (auto &a : move_dir()) v.push_back(a);
        return v;
    }
    // a directory goes, another one comes, all at once
    vector<Action> move_dir()
    {
        vector<Action> v;
        auto put = [&](int op, const string &d) { Action a; a.op = op; a.s = d; a.a = (int)r.below(p.tables.size()); v.push_back(a); };
        string d = r.chance(30) ? cwd : anydir(), e = r.chance(70) ? (r.chance(50) ? "" : anydir()) + "/" + dname() : d;
        if (e.compare(0, 2, "//") == 0) e = e.substr(1);
        if (r.chance(40)) put(A_CHDIR, d);
        put(A_UNMOUNT, d);
        put(A_MOUNT, e);
        if (r.chance(70)) put(A_CHDIR, e);
        if (r.chance(30)) put(A_CHDIR, anydir());
        return v;
    }

    // ---------------------------------------------------------------- tables and tree
    void tables()
    {
        int n = r.range(3, 7);
        // names first, so that actions can refer to any table
        p.tables.assign((size_t)n, Table());
        for (int t = 0; t < n; t++) {
            int files = r.chance(8) ? 0 : r.range(1, 5);
            if (prop == "C21" && r.chance(25)) files = r.range(20, 120);
            if (r.chance(4)) files = r.range(8, 20);
            for (int i = 0; i < files; i++) {
                FileSpec f;
                // now and then the same name in several tables, with other capabilities
                f.name = t > 0 && !p.tables[0].empty() && r.chance(18) ? p.tables[0][r.below(p.tables[0].size())].name : name();
                f.has_desc = r.chance(45);
                if (f.has_desc) f.desc = text(30);
                f.has_help = r.chance(45);
                if (f.has_help) f.help = r.chance(6) ? "" : r.chance(20) ? text(80) + "\r\n" : "usage: " + f.name + "\r\n";
                f.get = r.chance(35) ? G_NONE : r.chance(82) ? G_SNAP : r.pick(vector<int>{ G_VOLATILE, G_UNTOUCHED, G_NULL, G_EMPTY });
                if ((prop == "C06" || prop == "C07") && r.chance(60) && f.get == G_NONE) f.get = G_SNAP;
                f.set = r.chance(50);
                f.exec = r.chance(60);
                f.data = filedata();
                if (prop == "C21" && r.chance(12)) f.data = bytes(r.range(3000, 9000));
                p.tables[(size_t)t].push_back(f);
            }
        }
    }
    void callbacks()
    {
        for (auto &t : p.tables)
            for (auto &f : t) {
                if (f.exec) f.on_exec = cbacts(pf.cbact);
                if (f.get != G_NONE) f.on_get = cbacts(pf.cbact / 4);
                if (f.set) f.on_set = cbacts(pf.cbact / 2);
            }
        if (r.chance(60) && prop != "C22") return;
        for (size_t t = 0; t < p.tables.size(); t++)
            for (size_t i = 0; i < p.tables[t].size(); i++) {
                FileSpec &f = p.tables[t][i];
                if (r.chance(pf.proc)) processing(f, (int)t, (int)i);
                auto start = [&](vector<Action> &v) {
                    Action a = act({ {A_PROC, 1} }, true);
                    if (r.chance(80)) { a.a = (int)t; a.b = (int)i; }
                    v.insert(r.chance(80) ? v.end() : v.begin() + (long)r.below(v.size() + 1), a);
                };
                if (f.exec && r.chance(pf.proc)) start(f.on_exec);
                if (f.set && r.chance(pf.proc / 3)) start(f.on_set);
            }
    }
    void processing(FileSpec &f, int t, int i)
    {
        f.has_proc = true;
        int n = r.chance(70) ? r.range(1, 5) : r.chance(50) ? 0 : r.range(6, 30);
        for (int i = 0; i < n; i++) {
            if (r.chance(pf.cbact / 3)) for (auto &a : cbacts(100)) if (a.op != A_RESET || r.chance(10)) f.proc.push_back(a);
            if (r.chance(4)) { f.proc.push_back(act({ {A_PROC, 1} }, true)); if (r.chance(40)) { f.proc.back().a = t; f.proc.back().b = i; } }
            Action e;
            e.op = A_STEP;
            int k = (int)r.below(100);
            e.a = k < 45 ? ST_TEXT : k < 65 ? ST_BIN : k < 80 ? ST_GOTO : ST_WAIT;
            k = (int)r.below(100);
            e.b = k < (i + 1 == n ? 20 : 70) ? N_SERVICE : k < 88 ? N_FINISH : N_PROMPT;
            if (e.a == ST_TEXT) e.s = text(60);
            if (e.a == ST_BIN) e.s = r.chance(6) ? "" : bytes(r.range(1, r.chance(85) ? 40 : 400));
            f.proc.push_back(e);
        }
        if (r.chance(15)) for (auto &a : cbacts(100)) f.proc.push_back(a);
    }
    string anydir() { return dirs.empty() ? string("/") : r.pick(dirs); }
    string parent_of(const string &d) { size_t k = d.rfind('/'); return k == 0 || k == string::npos ? "/" : d.substr(0, k); }

    void tree(ShellSpec &s)
    {
        dirs.clear(); otherdirs.clear(); tabof.clear(); groups.clear();
        auto add = [&](const string &d) { int t = (int)r.below(p.tables.size()); s.mounts.push_back({d, t}); dirs.push_back(d); tabof[d] = t; };
        add("/");
        int n = r.range(0, 7);
        if (prop == "C05" || prop == "C08" || prop == "C13" || prop == "C11") n = r.range(2, 9);
        if (prop == "C21" && r.chance(20)) n = r.range(20, 60);
        for (int i = 0; i < n; i++) {
            string par = anydir();
            string d = (par == "/" ? "" : par) + "/" + dname();
            if (std::find(dirs.begin(), dirs.end(), d) != dirs.end() && !r.chance(5)) continue;
            add(d);
        }
        int g = r.range(0, 2);
        if (prop == "C14" || prop == "C09") g = r.range(1, 4);
        for (int i = 0; i < g; i++) { int t = (int)r.below(p.tables.size()); if (!p.tables[(size_t)t].empty()) { s.groups.push_back(t); groups.push_back(t); } }
        cwd = "/";
    }

    // ---------------------------------------------------------------- paths
    string rel(const string &target)    // a way to write an absolute path relative to the directory thought current
    {
        if (target.empty() || target[0] != '/' || cwd.empty() || cwd[0] != '/') return target;
        if (target == "/") return cwd == "/" ? "." : r.chance(50) ? "/" : ups();
        if (cwd != "/" && target.compare(0, cwd.size() + 1, cwd + "/") == 0) return target.substr(cwd.size() + 1);
        if (cwd == "/") return target.substr(1);
        // climb to a common ancestor
        string base = cwd, up;
        while (base != "/" && target.compare(0, base.size() + 1, base + "/") != 0) { up += "../"; base = parent_of(base); }
        return up + (base == "/" ? target.substr(1) : target.substr(base.size() + 1));
    }
    string ups() { string u = ".."; for (size_t i = 1; i < cwd.size(); i++) if (cwd[i] == '/') u += "/.."; return u; }
    string decorate(string s)
    {
        int k = (int)r.below(100);
        if (k < 62) return s;
        if (k < 72) return s + "/";
        if (k < 77) return "./" + s;
        if (k < 81) { size_t q = s.find('/', 1); return q == string::npos ? s : s.substr(0, q) + "/." + s.substr(q); }
        if (k < 85) { size_t q = s.find('/', 1); return q == string::npos ? "../" + s : s.substr(0, q) + "/zz/.." + s.substr(q); }
        if (k < 88) return "/.." + (s.size() && s[0] == '/' ? s : "/" + s);
        if (k < 90) return s + "/..";
        if (k < 92) return s + "//";
        if (k < 94) { size_t q = s.find('/', 1); return q == string::npos ? "//" + s : s.substr(0, q) + "/" + s.substr(q); }
        if (k < 97) { string l = s; while ((int)l.size() < pmax + r.range(-3, 3)) l = r.chance(50) ? "./" + l : "../" + l; return l; }
        return s + "x";
    }
    // words that mean something to other shells, or to a careless implementation
    string word()
    {
        static const vector<string> w = { "-", "--", "-l", "-a", "-la", "-n", "-e", "-v", "-h", "-?", "--help", "--version", "?", "*", "/*", "~", "...", "....", ". .", ".. ", " ..", "|", ">", ">>", "<", "&", "&&", ";", "#", "!", "!!", "$", "$?", "%", "%s", "%d",
            "@", "=", "+", ":", "^", "`", "'", "''", "/?", "/-", "-r", "exit", "quit", "clear", "reset", "version", "all", "on", "off", "0", "1", "-1", "255", "0x", "x", "help", "ls", "cd", "pwd", "cat", "echo", "xxd", "LS", "Help", "null", "root", "home", "dev", "/dev", "/root", "/home", "//", "./", "../", ".", "..", "..\\", "C:" };
        return r.pick(w);
    }
    string words() { string t = word(); for (int n = r.chance(80) ? 0 : r.range(1, 2); n > 0; n--) t += " " + word(); return t; }
    string path_dir()
    {
        if (r.chance(4)) return word();
        int k = (int)r.below(100);
        if (k < 8) return "..";
        if (k < 11) return ".";
        if (k < 14) return "/";
        if (k < 18) return "../" + dname();
        if (k < 24) return "/" + dname();
        string d = k < 30 && !otherdirs.empty() ? r.pick(otherdirs) : anydir();
        if (d.empty()) return "";
        return decorate(r.chance(50) ? d : rel(d[0] == '/' ? d : "/" + d));
    }
    string fname(int t) { auto &tb = p.tables[(size_t)t]; return tb.empty() ? name() : tb[r.below(tb.size())].name; }
    string fname_where(int t, int what)     // 0 any 1 readable 2 writable 3 executable
    {
        auto &tb = p.tables[(size_t)t];
        vector<string> v;
        for (auto &f : tb) if (what == 0 || (what == 1 && f.get != G_NONE) || (what == 2 && f.set) || (what == 3 && f.exec)) v.push_back(f.name);
        return v.empty() ? fname(t) : r.pick(v);
    }
    string path_file(int what = 0)
    {
        if (r.chance(4)) return word();
        int k = (int)r.below(100);
        if (k < 1 && r.chance(60)) return r.pick(vector<string>{ "", "", " ", ".", "/", "..", "~" });
        if (k < 6) return name();
        if (k < 10) return decorate(cwd + "/" + name());
        if (k < 22 && !groups.empty()) return fname_where(r.pick(groups), what);
        string d = anydir();
        if (r.chance(45) && tabof.count(cwd)) d = cwd;
        int t = tabof.count(d) ? tabof[d] : (int)r.below(p.tables.size());
        string f = fname_where(t, what);
        if (d == cwd && r.chance(75)) return f;
        string full = (d == "/" ? "" : d) + "/" + f;
        if (full.empty() || full[0] != '/') return f;
        return r.chance(80) ? (r.chance(50) ? full : rel(full)) : decorate(r.chance(50) ? full : rel(full));
    }

    // ---------------------------------------------------------------- command lines
    string quote(const string &a, bool rawx = false)     // one way to type an argument
    {
        if (a.empty()) return "\"\"";
        string o;
        int mode = (int)r.below(100);
        auto esc = [&](char c, bool inq) {
            string e;
            if (rawx && c == '\\') { e += c; return e; }
            if (c == '"' || c == '\\') e += '\\';
            else if (c == ' ' && !inq) e += '\\';
            e += c;
            return e;
        };
        if (mode < 55) { for (char c : a) o += esc(c, false); return o; }
        if (mode < 80) { o = "\""; for (char c : a) o += esc(c, true); return o + "\""; }
        bool q = false;
        for (size_t i = 0; i < a.size(); i++) {
            if (r.chance(20)) { o += '"'; q = !q; }
            if (!rawx && r.chance(12) && a[i] != 'x') { o += '\\'; o += a[i]; }
            else o += esc(a[i], q);
        }
        if (q) o += '"';
        return o;
    }
    string spaces() { return r.chance(85) ? " " : string((size_t)(r.chance(85) ? r.range(2, 5) : r.range(6, 18)), ' '); }
    string join(const vector<string> &v)
    {
        string o = r.chance(6) ? string((size_t)(r.chance(80) ? r.range(1, 3) : r.range(4, 16)), ' ') : "";
        for (size_t i = 0; i < v.size(); i++) { if (i) o += spaces(); o += v[i]; }
        if (r.chance(8)) o += spaces();
        return o;
    }
    string escaped_text()
    {
        string o;
        int n = r.range(0, 10);
        for (int i = 0; i < n; i++) {
            int k = (int)r.below(100);
            char b[8];
            if (k < 45) o += (char)r.range('a', 'z');
            else if (k < 75) { snprintf(b, sizeof b, r.chance(50) ? "\\x%02x" : "\\x%02X", (unsigned)r.below(256)); o += b; }
            else if (k < 80) o += "\\x00";
            else if (k < 84) o += "\\xg1";
            else if (k < 87) o += "\\x4";
            else if (k < 90) o += "\\\\\\\\";
            else if (k < 93) o += "\\\\\\\\x41";
            else o += r.pick(vector<string>{ "0", "9", "x", "_", "%" });
        }
        if (r.chance(10)) o += r.pick(vector<string>{ "\\", "\\x", "\\xa", "\\\\" });
        return o;
    }
    string garbage(int n)
    {
        string o;
        static const string al = "aab \"\"\\\\x  >/.le\x01\x80\xff'#;|&$*~?=-<%";
        for (int i = 0; i < n; i++) o += al[r.below(al.size())];
        return o;
    }
    string longtext() { string s; int n = r.range(0, std::max(8, in)); for (int i = 0; i < n; i++) s += (char)r.range('!', 'z'); return s; }
    string extra() { return r.chance(80) ? "" : spaces() + quote(text(8)); }
    string command()
    {
        if (in <= 12 && r.chance(35)) {     // what fits a tiny line
            if (r.chance(40)) { string t = command_at(); if ((int)t.size() < in) return t; }
            string o;
            for (int n = r.range(1, std::max(1, in - 1)); n > 0; n--) o += "\"\\x a"[r.below(5)];
            return o;
        }
        return command_at();
    }
    string command_at()
    {
        int tot = 0;
        for (int w : pf.cmd) tot += w;
        int k = (int)r.below((u64)tot), c = 0;
        while (k >= pf.cmd[(size_t)c]) { k -= pf.cmd[(size_t)c]; c++; }
        switch (c) {
        case Q_HELP: return join({ "help" });
        case Q_HELP1: return join({ "help", r.chance(40) ? r.pick(vector<string>{ "ls", "cd", "help", "echo", "cat", "xxd", "pwd" }) : quote(r.chance(5) ? word() : path_file()) }) + (r.chance(6) ? " x" : "");
        case Q_LS: return join({ "ls" });
        case Q_LS1: return join({ "ls", quote(r.chance(90) ? path_dir() : path_file()) }) + (r.chance(5) ? " x" : "");
        case Q_CD: {
            string d = path_dir();
            if (d.size() && d[0] == '/' && std::find(dirs.begin(), dirs.end(), d) != dirs.end()) cwd = d;
            else if (r.chance(60)) {
                string t = anydir();
                if (t.size() && t[0] == '/') { d = rel(t); cwd = t; }
            }
            return join({ "cd", quote(d) }) + (r.chance(4) ? " x" : "");
        }
        case Q_PWD: return join({ "pwd" }) + (r.chance(4) ? " x" : "");
        case Q_CAT: {
            vector<string> v = { "cat" };
            int n = r.chance(60) ? 1 : r.range(2, 5);
            if (r.chance(2)) n = 0;
            for (int i = 0; i < n; i++) v.push_back(quote(path_file(r.chance(90) ? 1 : 0)));
            return join(v);
        }
        case Q_XXD: return join({ "xxd", quote(path_file(r.chance(90) ? 1 : 0)) }) + (r.chance(4) ? " x" : "");
        case Q_ECHOW: return join({ "echo", r.chance(6) ? quote(longtext()) : r.chance(6) ? quote(words()) : r.chance(4) ? quote(path_file(2)) : r.chance(60) ? quote(escaped_text(), true) : quote(text(20)), r.chance(95) ? ">" : ">>", quote(path_file(r.chance(90) ? 2 : 0)) }) + (r.chance(4) ? " x" : "");
        case Q_ECHOP: return join({ "echo", r.chance(6) ? quote(longtext()) : r.chance(8) ? quote(words()) : r.chance(60) ? quote(escaped_text(), true) : quote(text(20)) }) + (r.chance(4) ? " x" : "");
        case Q_ECHO0: return join({ "echo" });
        case Q_EXEC: {
            vector<string> v = { quote(path_file(r.chance(85) ? 3 : 0)) };
            int n = (int)r.below(5);
            for (int i = 0; i < n; i++) v.push_back(r.chance(5) ? quote(words()) : r.chance(75) ? quote(text(12)) : r.chance(50) ? quote(escaped_text(), true) : "\"\"");
            return join(v);
        }
        case Q_UNKNOWN:
            if (r.chance(25)) {     // a command's name as a path
                string n = r.pick(vector<string>{ "ls", "cd", "pwd", "help", "echo", "cat", "xxd" });
                if (groups.size() && r.chance(50)) { auto &t = p.tables[(size_t)r.pick(groups)]; if (t.size()) n = t[r.below(t.size())].name; }
                return join({ quote(r.pick(vector<string>{ "./", "/", "../", "./../", "//" }) + n), text(5) });
            }
            if (r.chance(25)) return r.chance(50) ? join({ quote(word()) }) : join({ quote(word()), quote(word()) });
            if (r.chance(8)) return join({ r.pick(vector<string>{ "ls", "pwd", "help", "echo a", "cd ..", "cat a" }), word(), r.pick(vector<string>{ "ls", "pwd", "a", "echo b" }) });
            return join({ r.pick(vector<string>{ "nope", "l", "lss", "hel", "LS", "ls/", "/", ".", "..", "//", "\"\"" }) });
        case Q_GARBAGE: return garbage(r.range(1, 24));
        case Q_BLANK: return string((size_t)r.below(4), ' ');
        default: { string s; int n = in + r.range(-3, 4); string b = r.chance(50) ? command_simple() : garbage(n); while ((int)s.size() < n) s += b.empty() ? "x" : b + " "; s.resize((size_t)std::max(0, n)); return s; }
        }
    }
    string command_simple() { return r.pick(vector<string>{ "echo abc", "ls", "pwd", "aaaa bbbb", "\"q q\" z" }); }

    string noisy(const string &l)
    {
        string o;
        for (size_t i = 0; i <= l.size(); i++) {
            if (r.chance(14)) {
                int k = (int)r.below(100);
                if (k < 35) { int n = r.range(1, 3); for (int j = 0; j < n; j++) o += (char)r.range('a', 'z'); for (int j = 0; j < n; j++) o += r.chance(50) ? '\x08' : '\x7f'; }
                else if (k < 60) o += r.pick(vector<string>{ "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1bOP", "\x1bx", "\x1b[3", "\x1b\x1b[A", "\x1b[\x1bOA", "\x1b[\x7f""A", "\x1b\x08[A" });
                else if (k < 64) o += (r.chance(30) ? "\x1b" : r.chance(50) ? "\x1b[" : "\x1bO") + string(1, (char)r.range(32, 126));
                else if (k < 72) { int n = r.range(1, 4); for (int j = 0; j < n; j++) o += '\x7f'; }
                else if (k < 80) { char c = (char)r.range(1, 31); o += strchr("\x03\b\t\n\r\x1b", c) ? '\x0b' : c; }
                else if (k < 85) o += '\0';
                else if (k < 92) o += (char)r.range(0x80, 0xff);
                else o += "\x1b";
            }
            if (i < l.size()) o += l[i];
        }
        return o;
    }
    string tabbed(const string &l)
    {
        string o = l;
        int k = (int)r.below(100);
        if (k < 55 && o.size() > 1) o.resize((size_t)r.range(1, (int)o.size()));
        else if (k < 65) { size_t q = o.find(' '); if (q != string::npos) o = o.substr(0, q + 1); }
        else if (k < 72) o = string("") + (r.chance(50) ? " " : "");
        o += '\t';
        if (r.chance(45)) o += '\t';
        if (r.chance(30)) { o += r.pick(vector<string>{ "b", "1", ".", "x", " ", "\x7f", "\x1b[A" }); if (r.chance(50)) o += '\t'; }
        if (r.chance(25)) o += " " + r.pick(vector<string>{ "a", "f", "d", "fi", "" }) + "\t";
        return o;
    }
    string typed()
    {
        string l = command();
        if (r.chance(pf.tabs)) l = tabbed(l);
        if (r.chance(pf.noise)) l = noisy(l);
        if (r.chance(pf.ctrlc)) l = l.substr(0, r.below(l.size() + 1)) + '\x03' + (r.chance(50) ? "" : command());
        int k = (int)r.below(100);
        if (k < 70) l += '\n';
        else if (k < 88) l += '\r';
        else if (k < 95) l += "\r\n";
        return l;
    }

    // ---------------------------------------------------------------- schedule
    int logn(int max) { int n = 1; while (n < max && r.chance(80)) n *= 2; n = std::min(n, max); return (int)r.below((u64)n + 1); }
    // one line again and again, with the application acting one step later each time
    void sweep()
    {
        ShellSpec &s = p.shells[0];
        p.shells.resize(1);
        bool ideal = r.chance(70);
        if (ideal) s.tx.clear();
        auto rx = [&](const string &t) { Item it; it.kind = I_RX; it.s = t; s.items.push_back(it); };
        string l = command() + "\n";
        if (r.chance(pf.tabs)) l = tabbed(l);
        string d = r.chance(70) ? anydir() : "";
        int k = logn(120), n = r.range(8, 26), by = r.chance(70) ? I_STEPS : I_MSG;
        if (by == I_MSG) k = logn(30);
        bool late = r.chance(80);
        for (int i = 0; i < n; i++) {
            if (d.size()) { rx("cd " + quote(d) + "\n"); add(s, I_IDLE, 0); }
            rx(l);
            if (late) add(s, I_TAKEN, 0);
            add(s, by, k + i);
            Item it; it.kind = I_OP; it.op = act(pf.ops_w, false);
            s.items.push_back(it);
            add(s, I_IDLE, 0);
            if (r.chance(10)) { rx("pwd\n"); add(s, I_IDLE, 0); }
        }
    }
    // files of a running transfer disappear, or come back as something else
    void vanish()
    {
        ShellSpec &s = p.shells[0];
        p.shells.resize(1);
        s.in = std::max(s.in, 64); s.pmax = std::max(s.pmax, 40);
        if (r.chance(50)) s.tx.clear();
        Table t, u;
        int n = r.range(2, 5);
        for (int i = 0; i < n; i++) {
            FileSpec f;
            f.name = r.chance(80) ? "v" + std::to_string(i) : name();
            f.get = r.chance(80) ? G_SNAP : r.pick(vector<int>{ G_VOLATILE, G_UNTOUCHED, G_NULL, G_EMPTY });
            f.exec = r.chance(40);
            f.data = filedata();
            if (r.chance(15)) f.on_get = cbacts(100);
            t.push_back(f);
            if (r.chance(20)) continue;
            f.data = filedata();
            if (r.chance(50)) f.get = G_NONE;
            u.push_back(f);
        }
        int a = (int)p.tables.size(), b = a + 1;
        p.tables.push_back(t);
        p.tables.push_back(u);
        bool group = r.chance(35);
        string d = (r.chance(50) ? "" : anydir()) + "/v";
        if (d.compare(0, 2, "//") == 0) d = d.substr(1);
        auto op = [&](int o, int table) { Item it; it.kind = I_OP; it.op.op = o; it.op.a = table; if (!group) it.op.s = d; s.items.push_back(it); };
        auto rx = [&](const string &l) { Item it; it.kind = I_RX; it.s = l; s.items.push_back(it); };
        for (int k = r.range(3, 10), at = logn(200); k > 0; k--, at += r.chance(70) ? 1 : r.range(2, 9)) {
            add(s, I_IDLE, 0);
            op(group ? A_GADD : A_MOUNT, a);
            if (r.chance(30)) rx("cd " + quote(group ? anydir() : d) + "\n");
            string l = "cat";
            for (int i = r.range(2, 5); i > 0; i--) l += " " + quote(r.chance(10) ? path_file(1) : (group ? "" : r.chance(70) ? d + "/" : "") + t[r.below(t.size())].name);
            rx(l + "\n");
            add(s, I_TAKEN, 0);
            if (r.chance(60)) add(s, I_STEPS, at); else if (r.chance(50)) add(s, I_MSG, r.range(1, 8)); else add(s, I_BYTES, r.range(1, 60));
            op(group ? A_GDEL : A_UNMOUNT, group ? 9999 : 0);
            if (r.chance(75)) op(group ? A_GADD : A_MOUNT, b);
            add(s, I_IDLE, 0);
            if (r.chance(30)) rx(typed());
            add(s, I_IDLE, 0);
            op(group ? A_GDEL : A_UNMOUNT, group ? 9999 : 0);
        }
    }
    vector<int> period()
    {
        vector<int> v;
        if (r.chance(40)) return { 1 };
        int n = r.range(1, 5);
        for (int i = 0; i < n; i++) v.push_back(r.chance(80) ? r.range(1, 6) : r.range(10, 200));
        return v;
    }
    vector<int> link()
    {
        int k = (int)r.below(100);
        if (k < 15) return {};
        if (k < 35) return { 1, 1 };
        if (k < 50) return { 1, r.range(2, 6) };
        if (k < 60) return { r.range(20, 60), r.range(30, 120) };
        if (k < 65) return { r.range(1, 30), r.range(200, 600) };
        vector<int> v;
        int n = 2 * r.range(1, 4);
        for (int i = 0; i < n; i++) v.push_back(i % 2 ? r.range(0, 5) : r.range(0, 6));
        if (v[0] == 0) v[0] = 1;
        return v;
    }
    int size_pick(int t, int lo_tiny)
    {
        if (t < pf.tiny) return r.range(lo_tiny, 12);
        if (t < pf.tiny + pf.small) return r.range(12, 40);
        return r.pick(vector<int>{ 64, 80, 128, 200, 256, r.range(48, 256) });
    }

    void shell(bool harsh)
    {
        ShellSpec s;
        int t = (int)r.below(100);
        s.in = in = size_pick(t, 2);
        s.out = out = r.chance(70) ? std::max(4, size_pick(t, 4)) : std::max(4, size_pick((int)r.below(100), 4));
        s.pmax = pmax = r.chance(pf.shortpath) ? r.range(2, 24) : r.pick(vector<int>{ 64, 128, 255, 256 });
        s.host = r.pick(vector<string>{ "h", "host", "microshell", "", "a b", "0123456789abcdef", "%s%d", "dev/1" });
        if (r.chance(6)) { s.host.clear(); for (int n = r.range(1, 96); n > 0; n--) s.host += (char)r.range('!', '~'); }
        s.gexec = r.chance(pf.gexec);
        tree(s);
        if (s.gexec) s.gact = cbacts(pf.cbact / 2 + 10);
        s.period = harsh ? period() : vector<int>{ 1 };
        if (harsh) s.tx = link();
        s.rxjunk = r.chance(30);
        int lines = r.range(pf.lines_min, pf.lines_max);
        for (int i = 0; i < lines; i++) {
            Item it;
            it.kind = I_RX;
            it.n = harsh ? r.pick(vector<int>{ 0, 0, 0, 1, 2, 7, 40 }) : 0;
            it.s = typed();
            bool op = r.chance(pf.ops);
            if (op && r.chance(100 - pf.mid)) { add_ops(s); add(s, I_IDLE, 0); op = false; }
            s.items.push_back(it);
            if (op) {
                // hit the shell somewhere between the first key and the end of what the line produces
                int k = (int)r.below(100);
                if (r.chance(35)) {     // anywhere in what follows the newline
                    add(s, I_TAKEN, 0);
                    if (r.chance(70)) add(s, I_STEPS, logn(r.chance(70) ? 200 : 1500));
                    else add(s, I_MSG, (int)r.below(30));
                } else if (k < 25) { add(s, I_MSG, r.chance(70) ? (int)r.below(12) : (int)r.below(60)); add(s, I_STEPS, (int)r.below(24)); }
                else if (k < 45) add(s, I_STEPS, (int)r.below(60 + 4 * it.s.size()));
                else if (k < 70) add(s, I_BYTES, (int)r.below(20 + 2 * it.s.size()));
                else if (k < 90) { add(s, I_BYTES, (int)it.s.size() + 1); add(s, I_STEPS, (int)r.below(it.s.size() + 12)); }
                else add(s, I_IDLE, 0);
                add_ops(s);
                if (r.chance(50)) add(s, I_STEPS, (int)r.below(40));
            }
            if (!r.chance(pf.typeahead)) add(s, I_IDLE, 0);
        }
        p.shells.push_back(s);
    }
    void add(ShellSpec &s, int kind, int n) { Item i; i.kind = kind; i.n = n; s.items.push_back(i); }
    void add_ops(ShellSpec &s)
    {
        int n = r.chance(65) ? 1 : r.range(2, 4);
        if ((prop == "C13" || prop == "C05") ? r.chance(12) : r.chance(1)) for (auto &a : move_dir()) { Item it; it.kind = I_OP; it.op = a; s.items.push_back(it); }
        for (int i = 0; i < n; i++) {
            Item it; it.kind = I_OP; it.op = act(pf.ops_w, false);
            s.items.push_back(it);
            if (it.op.op == A_UNMOUNT && !it.op.s.empty() && r.chance(35)) {    // another directory takes its place
                it.op.op = A_MOUNT; it.op.a = (int)r.below(p.tables.size());
                s.items.push_back(it);
            }
            if (r.chance(25)) add(s, I_STEPS, (int)r.below(12));
        }
    }

    // ---------------------------------------------------------------- demo application
    string demo_line()
    {
        static const vector<string> rd = { "/dev/mem/ram", "/dev/mem/eeprom", "/dev/mem/rom", "/etc/hostname", "/etc/config", "/dev/null", "/dev/random", "/readme.txt", "mem/ram", "ram", "eeprom", "hostname" };
        static const vector<string> wr = { "/dev/mem/ram", "/dev/mem/eeprom", "/dev/mem/eeprom", "/etc/hostname", "/etc/hostname", "/dev/null", "/dev/mem/rom", "/dev/random", "/etc/config", "/readme.txt", "ram", "hostname", "eeprom" };
        static const vector<string> dr = { "/dev/mem", "/etc", "/", "/dev", "/bin", "..", "/dev/bus", "mem", "dev" };
        int k = (int)r.below(100);
        auto val = [&]() {
            int z = (int)r.below(100);
            if (z < 40) return escaped_text();
            if (z < 60) return string((size_t)r.pick(vector<int>{ 1, 14, 15, 16, 17, 18, 31, 32, 33, 40, 100, 200, 225 }), (char)r.range('a', 'z'));
            if (z < 75) { string o; int n = r.range(1, 45); for (int i = 0; i < n; i++) o += (char)r.range('A', 'Z'); return o; }
            if (z < 90) { string o; int n = r.range(1, 40); char b[8]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "\\x%02x", (unsigned)r.below(256)); o += b; } return o; }
            return text(20);
        };
        if (k < 34) {
            string t = r.pick(wr), v = val();
            if (t.find("eeprom") != string::npos && r.chance(90)) for (int n = 0; v.size() > 34 && n < 20; n++) v = val();   // longer ones end the run (known finding)
            return "echo " + quote(v, true) + " > " + t;
        }
        if (k < 52) return "cat " + r.pick(rd) + (r.chance(20) ? " " + r.pick(rd) : "");
        if (k < 62) return "xxd " + r.pick(rd);
        if (k < 70) return "cd " + r.pick(dr);
        if (k < 78) return r.chance(90) ? "/bin/uptime" : "/bin/uptime x";
        if (k < 85) return r.chance(80) ? "/bin/print " + quote(text(20)) : "/bin/print";
        if (k < 88) return "reset";
        if (k < 91) return "ls" + (r.chance(60) ? " " + r.pick(dr) : "");
        if (k < 93) return "help" + (r.chance(60) ? " " + r.pick(vector<string>{ "/bin/uptime", "/bin/print", "/dev/bus/spi", "/dev/bus/uart", "reset", "/etc/config" }) : "");
        if (k < 95) return "pwd";
        if (k < 98) return tabbed(r.pick(vector<string>{ "re", "cat /d", "cd e", "h", "cd m", "x" }));
        return garbage(20);
    }
    string sketch_line()
    {
        static const vector<string> rd = { "/info.txt", "/dev/led", "/dev/led", "/dev/time", "led", "time", "info.txt", "../dev/led", "dev/time" };
        static const vector<string> dr = { "/dev", "/bin", "/", "..", "dev", "bin", "." };
        int k = (int)r.below(100);
        if (p.variant == V_SKI) k = r.pick(vector<int>{ 50, 56, 60, 63, 66, 75, 80, 87, 95, 97, 99 });
        if (k < 14) return r.pick(vector<string>{ "/bin/toggle", "toggle", "/bin/toggle x", "/bin/toggle" });
        if (k < 28) return r.pick(vector<string>{ "/bin/set ", "set ", "/bin/set " }) + r.pick(vector<string>{ "1", "0", "1", "0", "2", "", "01", "1 0", "\"1\"", "'0'", "on", "-1", "1x" });
        if (k < 42) return "echo " + r.pick(vector<string>{ "1", "0", "10", "01", "x", "\\x31", "\\x30\\x31", "\"\"", "\\x00", quote(escaped_text(), true) }) + " > " + r.pick(vector<string>{ "/dev/led", "led", "/dev/led", "/dev/time", "/info.txt", "/dev" });
        if (k < 54) return "cat " + r.pick(rd) + (r.chance(30) ? " " + r.pick(rd) : "") + (r.chance(10) ? " " + r.pick(rd) : "");
        if (k < 59) return "xxd " + r.pick(rd);
        if (k < 65) return "cd " + r.pick(dr);
        if (k < 70) return "reboot";
        if (k < 75) return "ls" + (r.chance(60) ? " " + r.pick(dr) : "");
        if (k < 82) return "help" + (r.chance(60) ? " " + r.pick(vector<string>{ "/bin/set", "/bin/toggle", "reboot", "set", "/dev/led", "ls" }) : "");
        if (k < 84) return "pwd";
        if (k < 92) return tabbed(r.pick(vector<string>{ "re", "cat /d", "cd b", "h", "cat /dev/l", "/bin/s", "cat i", "t", "" }));
        if (k < 95) return "echo " + quote(text(40), true);
        return garbage(40);
    }
    void demo()
    {
        p.variant = V_DEMO;
        if (r.chance(40)) p.variant = r.pick(vector<int>{ V_SKB, V_SKB128, V_SKA, V_SKA128, V_SKI });
        if (!lib_loaded(p.variant)) p.variant = V_DEMO;
        bool sk = is_sketch(p.variant);
        ShellSpec s;
        s.in = s.out = s.pmax = !sk ? 256 : p.variant == V_SKB128 || p.variant == V_SKA128 ? 128 : 32;
        s.host = sk ? "arduino" : "host";
        demo_tables(p.variant, p.tables, s.mounts, s.groups);
        in = out = pmax = s.in;
        bool harsh = r.chance(60);
        s.period = harsh ? period() : vector<int>{ 1 };
        if (harsh) s.tx = link();
        int lines = r.range(3, 12);
        for (int i = 0; i < lines; i++) {
            Item it;
            it.kind = I_RX;
            it.n = harsh ? r.pick(vector<int>{ 0, 0, 1, 5 }) : 0;
            it.s = sk ? sketch_line() : demo_line();
            if (r.chance(8)) it.s = noisy(it.s);
            it.s += r.chance(80) ? '\n' : '\r';
            if (r.chance(30)) {
                Item c; c.kind = I_OP; c.op.op = A_SETDATA;
                c.op.a = r.pick(vector<int>{ 1, 5, 59, 3600, 86400, -1, -7, -100, 1000000, 2000000000, 0 });
                s.items.push_back(c);
            }
            s.items.push_back(it);
            if (r.chance(10)) { Item c; c.kind = I_OP; c.op.op = A_SETDATA; c.op.a = r.range(1, 100); add(s, I_STEPS, (int)r.below(80)); s.items.push_back(c); }
            if (r.chance(4)) {
                Item c; c.kind = I_OP; c.op.op = A_POWER;
                add(s, r.chance(50) ? I_STEPS : I_BYTES, (int)r.below(60));
                s.items.push_back(c);
            }
            if (!r.chance(35)) add(s, I_IDLE, 0);
        }
        p.shells.push_back(s);
    }

    // a line that does not fit any 8 or 16 bit counter
    void hugeline()
    {
        p.shells.resize(1);
        auto &s = p.shells[0];
        int n = r.chance(50) ? r.range(2000, 9000) : r.range(65500, 66100);
        in = s.in = 80000; s.pmax = std::max(s.pmax, 100);
        s.period = { 1 };
        for (auto &x : s.tx) x = std::min(x, 3);
        string t = "echo \"";
        for (int i = 0; i < n; i++) { int k = (int)r.below(40); t += k == 0 ? "\\\\x4" + string(1, (char)r.range('0', '9')) : string(1, (char)r.range('a', 'z')); }
        t += "\"";
        if (r.chance(70)) t += " > " + quote(path_file(2));
        Item it, idle;
        it.kind = I_RX; it.s = t + "\n";
        s.items.resize(std::min(s.items.size(), (size_t)2));
        s.items.insert(s.items.begin(), it);
        s.items.insert(s.items.begin() + 1, idle);
    }

    // one file that does not fit any 8 or 16 bit counter, printed once
    void huge()
    {
        auto &t = p.tables[(size_t)p.shells[0].mounts[0].second];
        if (t.empty()) return;
        auto &f = t[r.below(t.size())];
        f.get = G_SNAP;
        f.on_get.clear();
        f.data = bytes(r.chance(50) ? r.range(2000, 9000) : r.range(65500, 66100));
        string n;
        for (char c : "/" + f.name) { if (c == '"' || c == '\\') n += '\\'; n += c; }
        Item it;
        it.kind = I_RX;
        it.s = string(prop == "C07" ? "xxd" : "cat") + " \"" + n + "\"\n";
        p.shells.resize(1);
        auto &s = p.shells[0];
        s.in = std::max(s.in, 200); s.pmax = std::max(s.pmax, 200);
        s.period = { 1 };
        for (auto &x : s.tx) x = std::min(x, 20);
        s.items.resize(std::min(s.items.size(), (size_t)2));
        s.items.insert(s.items.begin(), it);
        Item idle;
        s.items.insert(s.items.begin() + 1, idle);
    }

    // one dimension far beyond what the rest of the runs use: counters and sizes of 8 and 16 bits
    void scale()
    {
        ShellSpec &s = p.shells[0];
        p.shells.resize(1);
        if (s.tx.size()) s.tx = r.chance(50) ? vector<int>{} : vector<int>{ 1, 1 };
        s.period = { 1 };
        for (auto &i : s.items) { i.n = std::min(i.n, 60); }
        in = s.in = std::max(s.in, 100);
        pmax = s.pmax = std::max(s.pmax, 100);
        out = s.out;
        auto line = [&](const string &t) { Item it; it.kind = I_RX; it.s = t + "\n"; s.items.push_back(it); add(s, I_IDLE, 0); };
        switch ((int)r.below(prop == "C22" ? 10 : 9)) {
        case 0:     // buffers and limits
            in = s.in = r.pick(vector<int>{ 257, 300, 513, 1025, 5000 });
            out = s.out = r.chance(10) ? 70000 : r.pick(vector<int>{ 257, 300, 513, 1025, 5000 });
            if (out > 60000) {
                Item it; it.kind = I_OP; it.op.op = r.pick(vector<int>{ A_PRINTF, A_PRINTFMT, A_FLUSH });
                it.op.s = string((size_t)r.range(32000, 72000), 'p'); it.op.a = 7;
                s.items.push_back(it); add(s, I_IDLE, 0);
                for (auto &x : s.tx) x = std::min(x, 3);
            }
            pmax = s.pmax = r.pick(vector<int>{ 257, 300, 513, 1025, 5000 });
            for (int i = 0; i < 3; i++) {
                string l = "echo \"";
                int n = r.range(230, in - 20);
                while ((int)l.size() < n) l += (char)r.range('a', 'z');
                line(l + "\"" + (r.chance(50) ? " > " + quote(path_file(2)) : ""));
                string d = rel(anydir());
                n = r.range(200, std::min(in, pmax) - 30);
                string pre = r.pick(vector<string>{ "./", "../", "x/", "x/../" });
                while ((int)d.size() < n) d = pre + d;
                line((r.chance(50) ? "ls " : "cd ") + quote(d));
                if (r.chance(40)) {
                    string f = r.chance(50) ? path_file(1) : rel(anydir());
                    line(l + "\" " + f.substr(0, (size_t)r.range(0, (int)f.size())) + "\t");
                }
                line(typed());
            }
            break;
        case 1: {   // files
            auto &t = p.tables[(size_t)s.mounts[0].second];
            int n = prop == "C21" ? r.pick(vector<int>{ 257, 600, 1000 }) : r.pick(vector<int>{ 254, 255, 256, 257, 300 });
            for (int i = (int)t.size(); i < n; i++) { FileSpec f; f.name = "f" + std::to_string(i); f.exec = r.chance(50); f.get = r.chance(50) ? G_SNAP : G_NONE; f.data = "x"; t.push_back(f); }
            line(r.pick(vector<string>{ "ls", "ls /", "help", "\t", "f2\t", "f25\t" }));
            line("/f" + std::to_string(r.range(250, n - 1)));
            line("cat /f" + std::to_string(r.range(250, n - 1)));
            line(typed());
            break;
        }
        case 2: {   // directories
            int n = r.pick(vector<int>{ 254, 255, 256, 257, 280 });
            if (r.chance(30)) n = r.range(20, 60);
            bool deep = n < 100, longnames = deep && r.chance(40);
            string base = "/", seg = longnames ? "/" + string((size_t)r.range(5, 30), 'L') : "/q";
            for (int i = 0; i < n; i++) {
                if (longnames && base.size() > 600) break;
                string d = (base == "/" ? "" : base) + (deep ? seg : "/n" + std::to_string(i));
                s.mounts.push_back({ d, (int)r.below(p.tables.size()) });
                if (deep) base = d;
            }
            if (deep) in = s.in = pmax = s.pmax = longnames ? 800 : 256;
            line("cd " + s.mounts[(size_t)r.range((int)s.mounts.size() / 2, (int)s.mounts.size() - 1)].first);
            auto look = [&]() { for (int i = r.range(1, 3); i > 0; i--) line(r.pick(vector<string>{ "nope", "ls", "ls ..", "ls nope", "cd nope", "cat nope", "./nope", "no\t", "\t", "../n1\t", "help nope", "xxd ../nope", "cd ../nope", "echo x > nope" })); };
            look();
            if (longnames) {
                Action a; a.a = (int)r.below(p.tables.size());
                for (int i = r.range(1, 6); i > 0; i--) {
                    Item it; it.kind = I_OP;
                    a.op = r.pick(vector<int>{ A_MOUNT, A_UNMOUNT, A_UNMOUNT, A_QPATH, A_QPARENT, A_CHDIR });
                    a.s = s.mounts[s.mounts.size() - 1 - r.below(std::min(s.mounts.size(), (size_t)8))].first;
                    if (r.chance(40)) a.s += "/" + dname();
                    it.op = a; s.items.push_back(it);
                }
                look();
            }
            line("cd /");
            if (r.chance(30)) look();
            line(r.pick(vector<string>{ "ls", "cd n\t", "ls n25\t", "ls q/\t" }));
            line(typed());
            break;
        }
        case 3: {   // arguments
            in = s.in = r.pick(vector<int>{ 600, 1100, 3000 });
            for (int i = 0; i < 3; i++) {
                int n = r.range(250, 300);
                string l = i == 0 ? "cat" : quote(path_file(3));
                string f = quote(path_file(1));
                if (i == 0) n = std::min(n, (in - 10) / (int)(f.size() + 1));
                for (int k = 0; k < n && (int)l.size() < in - 10; k++) l += " " + (i == 0 ? f : string(1, (char)('a' + k % 26)));
                line(l);
                line(typed());
            }
            break;
        }
        case 4:     // commands entered
            for (int i = r.range(257, 300); i > 0; i--) {
                Item it; it.kind = I_RX;
                it.s = r.chance(5) ? typed() : r.pick(vector<string>{ "a\n", "pwd\n", "\n", "cd\n", "x\x7f\n", "e\x03", "l\t\x03", "echo a\n" });
                s.items.push_back(it);
                if (r.chance(20)) add(s, I_IDLE, 0);
            }
            break;
        case 5: {   // time: nothing to read, or nothing taken, for a very long while
            int n = r.pick(vector<int>{ 260, 1100, 33000, 66000 });
            if (r.chance(50)) { Item it; it.kind = I_STEPS; it.n = n; s.items.insert(s.items.begin() + (long)r.below(s.items.size()), it); s.tx.clear(); }
            else s.tx = { r.range(1, 90), n, 2000, 1 };
            break;
        }
        case 7: {   // actions
            auto w = pf.ops_w;
            Action a = act(w, false), b = a;
            if (a.op == A_MOUNT) b.op = A_UNMOUNT;
            if (a.op == A_UNMOUNT) { b.op = A_MOUNT; b.a = (int)r.below(p.tables.size()); }
            if (a.op == A_GADD) { b.op = A_GDEL; b.a = b.b = 0; }
            if (a.op == A_REINIT || a.op == A_POWER) break;
            bool brief = a.op <= A_FLUSH && r.chance(80);
            for (int i = brief ? r.range(20, 60) : r.range(257, 300); i > 0; i--) {
                Item it; it.kind = I_OP;
                it.op = a; s.items.push_back(it);
                if (r.chance(30)) add(s, I_STEPS, r.range(1, 9));
                it.op = b; s.items.push_back(it);
                if (r.chance(3)) add(s, I_IDLE, 0);
            }
            add(s, I_IDLE, 0);
            line(typed());
            line(r.pick(vector<string>{ "ls", "help", "pwd", "ls /" }));
            break;
        }
        case 8: {   // the same thing again and again in one line
            in = s.in = r.pick(vector<int>{ 300, 1100, 5000 });
            pmax = s.pmax = r.chance(50) ? in + 100 : s.pmax;
            for (int i = r.range(1, 3); i > 0; i--) {
                string unit = r.pick(vector<string>{ " ", " ", " ", "\"\"", "\" \"", "\\\\", "\\ ", "\\x", "/", "./", "../", "a", "a ", "\"\" ", "\x1b", "\x1b[", "\x1b[A", "\x7f", "a\x7f", "\t", ">", ".", "\\\\x41", "'" });
                string a = r.chance(70) ? r.pick(vector<string>{ "echo", "ls", "cd", "cat", "xxd", "help", quote(path_file(3)) }) : "", b = r.chance(70) ? text(10) : "", run;
                int n = r.range(200, std::max(200, in - (int)a.size() - 20));
                while ((int)(run.size() + unit.size()) <= n) run += unit;
                line(a + (r.chance(70) ? " " : "") + run + b);
                line(typed());
            }
            break;
        }
        case 9: {   // steps of a processing command
            FileSpec *f = nullptr;
            for (size_t t = 0; t < p.tables.size(); t++) for (size_t i = 0; i < p.tables[t].size(); i++) if (p.tables[t][i].exec && p.tables[t][i].has_proc && (!f || r.chance(30))) f = &p.tables[t][i];
            if (!f) break;
            vector<Action> v;
            for (int i = r.range(254, 300); i > 0; i--) {
                Action e; e.op = A_STEP; e.a = (int)r.below(ST__N); e.b = N_SERVICE;
                if (e.a == ST_TEXT || e.a == ST_BIN) e.s = string(1, (char)r.range('a', 'z'));
                v.push_back(e);
            }
            f->proc.insert(f->proc.begin(), v.begin(), v.end());
            break;
        }
        case 6: {   // groups
            vector<int> ok;
            for (size_t t = 0; t < p.tables.size(); t++) if (!p.tables[t].empty()) ok.push_back((int)t);
            if (ok.empty()) break;
            for (int i = r.range(60, 260); i > 0; i--) s.groups.push_back(r.pick(ok));
            line("help");
            line(typed());
            break;
        }
        }
    }

    Plan make(const string &pr, u64 seed, bool thorough)
    {
        prop = pr;
        p.seed = seed;
        p.prop = pr;
        p.tables.clear();
        p.fill = r.next() % 1000000 + 2;
        if (prop == "C20") { pf = profile(prop, r); demo(); return p; }
        pf = profile(prop, r);
        if (prop == "C15" && r.chance(30)) {    // all shells do the same kind of thing at the same time
            auto &w = pf.cmd[r.below(pf.cmd.size())];
            w = w ? w * 20 : w;
            if (r.chance(40)) pf.tabs = 80;
        }
        int k = (int)r.below(100);
        p.fill = k < pf.junk ? (k % 3 == 0 ? 1 : r.next() % 1000000 + 2) : 0;
        p.ro = r.chance(pf.ro);
        if (r.chance(40)) p.reuse = r.range(1, 2);
        p.variant = V_STOCK;
        if (r.chance(pf.othervar)) {
            vector<int> vs = { V_NOSTYLE, V_NOTAB, V_NOCMD, V_HCE, V_LCPX, V_ARDUINO, V_MIN };
            if (thorough || prop == "C19") for (int v = V_LOO0; v <= V_MIX4; v++) vs.push_back(v);
            p.variant = r.pick(vs);
        }
        if (prop == "C21" && r.chance(60)) p.variant = V_STACK;
        in = out = pmax = 64;
        dirs = { "/" }; cwd = "/";
        tables();
        bool harsh = r.chance(pf.harsh);
        int n = r.range(pf.shells_min, pf.shells_max);
        if (pf.shells_max == 1 && r.chance(4)) n = 2;
        multi = n > 1;
        for (int i = 0; i < n; i++) shell(harsh);
        callbacks();
        if (prop == "C12" && r.below(1000) < 6) {    // sizes that initialisation must refuse
            ShellSpec &s = p.shells[r.below(p.shells.size())];
            int k = r.chance(80) ? r.range(1, 2) : 3;
            if (k & 1) s.in = r.range(0, 1);
            if (k & 2) s.out = r.range(0, 3);
            if (r.chance(30)) { s.pmax = r.range(0, 1); s.in = std::max(s.in, 2); s.out = std::max(s.out, 4); }
            return p;
        }
        if (prop == "C13" && r.chance(5)) {     // before there is a root, nothing can be mounted
            auto &m = p.shells[r.below(p.shells.size())].mounts;
            m.insert(m.begin(), { r.chance(60) ? anydir() : "/" + dname(), 0 });
            if (m[0].first == "/") m[0].first = "/a";
        }
        else if (prop == "C10" && r.below(1000) < 4) hugeline();
        else if ((prop == "C06" || prop == "C07" || prop == "C17") && r.chance(1)) huge();
        else if (r.below(1000) < (u64)(prop == "C06" ? 70 : prop == "C12" || prop == "C17" || prop == "C13" || prop == "C14" ? 8 : 0)) vanish();
        else if (r.below(1000) < (u64)(prop == "C21" ? 40 : 15)) scale();
        else if (pf.ops > 0 && r.below(1000) < (u64)(prop == "C16" || prop == "C22" ? 120 : pf.ops >= 20 ? 40 : 10)) sweep();
        return p;
    }
};

Plan gen_plan(const string &prop, u64 vseed, u64 index, bool thorough)
{
    u64 h = fnv(FNV0, prop.data(), prop.size());
    h = fnv_u(h, vseed);
    h = fnv_u(h, index);
    for (;; h = fnv_u(h, index)) {
        try {
            Gen g(h);
            return g.make(prop, h, thorough);
        } catch (const std::exception &) {}     // a combination the generator did not think of: draw another plan
    }
}
