// Deterministic execution of a plan against one build variant of the real library.
#pragma once
#include "plan.hpp"
#include "model.hpp"

enum VariantId { V_STOCK, V_NOSTYLE, V_NOTAB, V_NOCMD, V_HCE, V_LCPX, V_ARDUINO, V_MIN, V_DEMO, V_STACK, V_LOO0, V_LOO6 = V_LOO0 + 6, V_ONE0, V_ONE6 = V_ONE0 + 6, V_MIX1, V_MIX2, V_MIX3, V_MIX4, V_SKB, V_SKB128, V_SKA, V_SKA128, V_SKI, V__N };
inline bool is_sketch(int v) { return v >= V_SKB && v <= V_SKI; }
inline bool is_app(int v) { return v == V_DEMO || is_sketch(v); }
extern const char *const VARIANT_NAME[V__N];

enum Stat {     // counters reported in the evidence
    S_SERVICE, S_BYTES_IN, S_BYTES_OUT, S_READ_EMPTY, S_READ_STARVED, S_RXJUNK, S_REFUSED, S_REFUSED_LONG, S_CALLBACKS, S_LINES,
    S_TABS, S_CTRLC, S_ESC, S_ERASE, S_OVERFLOW, S_OP_MID, S_OP_IDLE, S_OP_DEFER, S_OP_DROPPED, S_OP_CALL, S_WORLDS, S_RESET, S_RESET_MID, S_REINIT,
    S_POWER, S_MOUNT_OK, S_MOUNT_FAIL, S_UNMOUNT_OK, S_UNMOUNT_FAIL, S_UNMOUNT_CWD, S_GADD, S_GDEL, S_GDEL_FAIL, S_PRINT_MID, S_PRINT_OVER,
    S_GET_EMPTY, S_GET_PRINT, S_VANISHED, S_NOFIT, S_LONGPATH, S_SWITCH, S_EOF, S_CLOCK, S_JUNK, S_RO, S_MULTI, S_CUT, S_REUSE, S_REFUSED_INIT, S_PROC, S_PROC_STEP, S_PROC_CUT, S_REPLACED, S_NESTED, S_OTHER, S__N
};
extern const char *const STAT_NAME[S__N];

struct Result {
    int kind = K_NONE, phase = P_IDLE, shell = 0;
    string msg;
    u64 hash = FNV0;        // every observable event with its time
    u64 sched = FNV0;       // which shell, which kind of event, accepted or refused: the interleaving
    u64 ticks = 0, services = 0;
    u64 stat[S__N] = {0};
    u64 phases = 0;         // which phases were reached
    long stack = 0;         // deepest stack use of one library call
    bool tab_used = false;
    int recov = 0;          // recovery actions before the failure
    string log;
    bool nontrivial = false;
    // for attributing a failure
    string exp;             // what the model expected at that point
    int off = -1;           // the byte offered instead
    int last = -1;          // the byte accepted before
    bool refused = false;   // the link was refusing output
    bool removed = false;   // an unexpected callback of a file whose directory or group is not there any more
    int lastact = P_BOOT;   // the last command, completion or message that produced something
};

struct RunOpts {
    bool log = false;
    size_t log_max = 400000;
    u64 stop_after = 0;     // end the run before this service call (to recover the history of a crash)
};

// shared with the supervisor, so that a crash is attributed to what was going on
struct Progress {
    volatile u64 seed_index;
    volatile int phase, shell, tab_used, recov, running, lastact, in_lib;
    volatile u64 runs, hash, services;
};
extern Progress *g_progress;

bool lib_load(int variant, const string &dir, string &err);
bool lib_loaded(int variant);
bool lib_has_proc(int variant);
const Cfg &lib_cfg(int variant);
size_t lib_edges_seen(vector<u8> *bits = nullptr);
size_t lib_edges_total();

Result run_plan(const Plan &p, const RunOpts &o = RunOpts());
long stack_bound(const Plan &p);
void demo_tables(int variant, vector<Table> &t, vector<std::pair<string, int>> &mounts, vector<int> &groups);
