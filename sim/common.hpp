// Shared basics of the microshell simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <algorithm>

typedef uint64_t u64;
typedef uint8_t u8;
using std::string;
using std::vector;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    u64 next() {
        s += 0x9E3779B97F4A7C15ULL;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return b <= a ? a : a + (int)below((u64)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

inline u64 fnv(u64 h, const void *p, size_t n) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001B3ULL; }
    return h;
}
inline u64 fnv_u(u64 h, u64 v) { return fnv(h, &v, sizeof v); }
static const u64 FNV0 = 0xcbf29ce484222325ULL;

// What a build variant of the library enables (filled in by the variant's shim).
struct Cfg {
    int autocomp, styles, feat_cmds;
    int c_cat, c_cd, c_echo, c_help, c_ls, c_pwd, c_xxd;
    int align, cols, translated;
    int asserts;
};

enum Phase {
    P_BOOT, P_PROMPT, P_ECHO, P_CTRLC, P_DISP, P_EXECP, P_CAT, P_XXD, P_LS, P_HELP, P_ECHOC, P_CD, P_PWD, P_TAB,
    P_APIP, P_IDLE, P_TREE, P_GROUP, P_CHDIR, P_QUERY, P_RECOV, P_PROC, P__N
};
extern const char *const PHASE_NAME[P__N];

enum Kind {
    K_NONE, K_OUT, K_MISSING, K_EXTRA, K_CALL, K_ARGS, K_STATUS, K_QUERY, K_BUSY, K_IOCOUNT, K_HANG, K_LIVE, K_ASSERT,
    K_SAN, K_HEAP, K_STACK, K_SELF, K_DATA, K_DEINIT, K_REOFFER, K_BUILD, K__N
};
extern const char *const KIND_NAME[K__N];

string hexs(const string &s);
string unhex(const string &s);
string show(const string &s);   // printable rendering
