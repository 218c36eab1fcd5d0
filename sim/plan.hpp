// A plan is the complete description of one simulated run: configuration, tables, shells, schedule, faults, inputs
// and application actions. Execution is a pure function of (plan, code).
#pragma once
#include "common.hpp"

enum ActOp {
    A_PRINT, A_PRINTNN, A_STATUS, A_PRINTF, A_PRINTFMT, A_PRINTBAD, A_FLUSH, A_RESET,
    A_MOUNT, A_UNMOUNT, A_GADD, A_GDEL, A_CHDIR, A_SETDATA, A_QPATH, A_QFILE, A_QABS, A_QPARENT,
    A_REINIT, A_POWER, A_REROOT, A_HOST,
    A_PROC,     // start processing the command file b of table a
    A_PRINTARG, // prints the argument it was called with, in place
    A_SCRIBBLE, // uses the memory of its arguments (or data) for something else
    A_OTHER,    // the next action is about another shell
    A_SERVICE,  // b service calls of the other shell
    A_STEP,     // ends one invocation of a processing callback: a = StepKind, b = what the shell does next (Next), s = text
    A__N
};
extern const char *const ACT_NAME[A__N];
enum StepKind { ST_TEXT, ST_BIN, ST_GOTO, ST_WAIT, ST__N };
enum Next { N_SERVICE, N_FINISH, N_PROMPT, N__N };

struct Action {
    int op = 0;
    int a = 0, b = 0;   // table / file / number
    string s;           // text / path
};

enum GetKind { G_NONE, G_SNAP, G_VOLATILE, G_UNTOUCHED, G_NULL, G_EMPTY, G__N };

struct FileSpec {
    string name;
    bool has_desc = false, has_help = false;
    string desc, help;
    int get = G_NONE;
    bool set = false, exec = false;
    string data;
    vector<Action> on_exec, on_get, on_set;
    bool has_proc = false;
    vector<Action> proc;        // actions of successive invocations of the processing callback, each ended by A_STEP
};
typedef vector<FileSpec> Table;

enum ItemKind { I_RX, I_IDLE, I_STEPS, I_BYTES, I_MSG, I_OP, I_TAKEN, I__N };
struct Item {
    int kind = I_IDLE;
    int n = 0;          // RX: gap between bytes in ticks; STEPS/BYTES/MSG: count
    string s;           // RX: bytes
    Action op;
};

struct ShellSpec {
    int in = 64, out = 64, pmax = 64;
    string host = "h";
    bool gexec = false;
    vector<Action> gact;
    vector<std::pair<string, int>> mounts;  // path, table
    vector<int> groups;                     // tables
    vector<int> period;                     // ticks between service calls, cycled
    vector<int> tx;                         // accept n, refuse n, accept n, ... cycled
    bool rxjunk = false;                    // a failing read clobbers the character
    vector<Item> items;
};

struct Plan {
    u64 seed = 0;
    string prop = "C00";
    int variant = 0;
    int ro = 0;          // constants in write-protected memory instead of exact heap blocks
    int known = 0;       // demo: 1 = run through oversize writes to eeprom, 2 = end of file when no input is waiting (known findings)
    int reuse = 0;       // memory of removed directories and groups: 0 freed, 1 handed out again as the library left it, 2 handed out again overwritten
    u64 fill = 0;        // junk the memory handed to ush_init contains: 0 zeros, 1 ones, else pseudo random
    vector<Table> tables;
    vector<ShellSpec> shells;
};

string plan_write(const Plan &p);
bool plan_parse(const string &text, Plan &p, string &err);
