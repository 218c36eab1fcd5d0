// Executable reference model of one shell: reacts to every consumed byte, every callback and every application action
// with the exact sequence of observable events (output bytes, callbacks) that must follow.
#pragma once
#include "plan.hpp"

enum { PR_VANISHED, PR_REPLACED, PR_NOFIT, PR_LONG, PR__N };
extern u64 g_probe[PR__N];   // rare branches of the model that were taken

struct FRef {               // a file descriptor: table >= 0 application table, -1 built-in commands, -2 nothing
    int table = -2, idx = -1;
    bool none() const { return table == -2; }
    bool operator==(const FRef &o) const { return table == o.table && idx == o.idx; }
};

enum CallKind { C_GEXEC, C_EXEC, C_GET, C_SET, C_PROC };

enum EvType { E_OUT, E_CALL, T_DISPATCH, T_PROMPT, T_PATH, T_CATITEM, T_TAB };

struct Ev {
    int type = E_OUT, phase = P_IDLE;
    bool ob = false;            // delivered from the output buffer by a formatted print
    string s;                   // E_OUT bytes / E_CALL set data, processing step
    size_t pos = 0;
    int a = 0;                  // CALL kind / CATITEM index / PROMPT,PATH: 1 = recall line afterwards (TAB)
    FRef f;
    vector<string> args;
};

struct ModelEnv {               // constant during a run
    Cfg cfg;
    const vector<Table> *tables;
    Table builtins;
    struct Txt { string st[13]; string magenta, green, yellow, reset; } txt;
    void setup(const Cfg &c, const vector<Table> *t);
    const FileSpec &file(FRef f) const { return f.table == -1 ? builtins[f.idx] : (*tables)[f.table][f.idx]; }
};

struct MNode { int table = 0; string path; int parent = -1; vector<int> children; };

struct World {
    const ModelEnv *env = nullptr;
    int N = 0, C = 0, P = 0;    // input size, output size, path limit
    bool gexec = false;
    string host;
    // tree and groups
    std::map<int, MNode> nodes;
    int root = -1, cwd = -1;
    vector<std::pair<int, int>> groups;   // instance id, table; newest first
    // line
    string buf;                 // the whole input buffer
    size_t in_pos = 0;
    int esc = 0;
    // activity
    std::deque<Ev> q;
    std::deque<Ev> tail;        // what follows the running command
    string stale;               // text a dropped formatted message left in the output buffer
    bool in_call = false, msg = false;
    Ev cur;                     // the callback being executed
    int guard = 0;              // a listing or completion may still be walking the tree
    int lastphase = P_BOOT;

    void start(const ModelEnv *e, const ShellSpec &s);
    void boot();

    // silent steps
    bool tau_at_head() const;
    void step_tau();
    void settle();              // execute every silent step before the next observable event
    bool quiet();               // settle, then: nothing observable expected
    const Ev *head();           // settle, then the next observable event or null

    // observables
    bool match_write(char c);   // offered byte is the expected one
    void accept_write();
    void input(char c);
    bool match_call(int kind, FRef f, const vector<string> &args, const string &data, string &why, int &wkind);
    void begin_call();
    void end_call(bool data_present, const string &data);

    // application actions; returns false when not allowed now
    void op_message(const string &text, bool newline, int phase);
    void op_printf(const string &text, bool format_error, int phase);
    void op_flush(const string &text, bool newline, int phase);
    void op_reset();
    void op_process(FRef f);    // inside a callback: processing of this command starts when it returns
    void end_process(int kind, int next, const string &text);
    int op_mount(const string &path, int table, int id);
    int op_unmount(const string &path, int &id);
    void op_gadd(int id, int table);
    int op_gdel(int id);
    int op_chdir(const string &path);
    string status(int s) const { return env->txt.st[s]; }
    bool printf_safe();
    bool busy_listing() const;  // a listing or completion is or may be in progress

    // path semantics
    int get_by_path(const string &p) const;
    int parent_by_path(const string &p) const;
    string abs_path(const string &in) const;
    FRef find(const string &name) const;
    string key() const;

    vector<string> parse_line();
private:
    void push_out(const string &s, int phase, bool ob = false);
    void push_prompt();
    void message_q(std::deque<Ev> &dst, const string &text, bool newline, int phase, bool ob);
    void set_msg(std::deque<Ev> m);
    void dispatch();
    void resolve(const vector<string> &args);
    void status_tail(int s, int phase);
    void builtin(const string &name, const vector<string> &args);
    void push_next(std::deque<Ev> &d, FRef f, int next);
    void start_process(std::deque<Ev> m);
    void cat_item(const Ev &e);
    void tab();
    struct Cand { string name; };
    vector<string> candidates(const string &word) const;
    int listing_dir(const string &word) const;
    string trunc(const string &s) const { return s.substr(0, (size_t)C - 1); }
    string listing_name(const FileSpec &f) const;
    string ls_text(int node) const;
    string help_text() const;
    string xxd_text(const string &d) const;
};

size_t m_levels(const string &p);
string m_path_level(size_t level, const string &in);
string m_path_upper(string p);
string m_path_last(const string &p);
string m_collapse(const string &p);
string m_decode(const string &in);
vector<string> m_parse(const string &line, string *newbuf = nullptr);
