// Scenarios (plain data, serialisable), the runner and its results.
#pragma once
#include "simrt.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vsim {
using std::string; using std::vector; using std::map;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed, 0x51ED2701)) {}
    uint64_t next() { return splitmix(s); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template <class T> const T& pick(const vector<T>& v) { return v[(size_t)below((int)v.size())]; }
    Rng fork() { return Rng(next()); }
};

struct Ent { bool dir = false; int noperm = 0; std::shared_ptr<const string> data; uint32_t order = 0; bool written = false; bool synced = false;
    const string& str() const { static const string e; return data ? *data : e; } };
typedef map<string, Ent> FS;                      // absolute path -> entry (parents implied)

void fs_file(FS& fs, const string& path, const string& data, int noperm = 0);
void fs_dir(FS& fs, const string& path);
string path_join(const string& cwd, const string& p);   // lexical absolute path

struct Run {
    vector<string> argv;
    string cwd;                                    // "": the scenario's
    vector<Rule> rules;
    Knobs k;
    uint64_t step_budget = 0, call_budget = 0;     // 0: default
    Run();
};

struct Step { enum Kind { RUN, PUT, DEL, LOSS } kind = RUN; Run run; string path, data; uint64_t seed = 0;
    int group = 0;                                 // consecutive runs of one group run at the same time,
    vector<Switch> sched;                          // interleaved as the first of them says
};

struct Scenario {
    string prop, target = "pasm", cwd = "/w", family;
    FS fs;
    vector<Step> steps;
    map<string, string> meta;
    // filled in for replay files
    string violation, hash;
};

struct Result {
    int code = 0;             // exit code, valid when sig == 0
    int sig = 0;              // terminating signal
    bool hang = false, crashed = false, aborted_by_harness = false;
    FS fs;                    // everything except the console
    string out, err;
    uint64_t steps = 0, calls = 0, mallocs = 0, evhash = 0, simtime_ns = 0;
    int maxopen = 0, escape = 0;
    uint64_t fired[OP_MAX] = {}; uint64_t short_reads = 0, short_writes = 0, emfile = 0, enospc = 0, quotahits = 0;
    vector<int> rule_fired, rule_hits;
    string note, crash_at;
    vector<string> touched; int fault_ntouched = -1;   // paths written in order of first touch; how many before the first fault
    bool any_fault() const { for (int i = 0; i < OP_MAX; i++) if (fired[i]) return true; return emfile || enospc; }
    bool success() const { return !sig && !hang && !crashed && code == 0; }
    string outcome() const;   // one line
};

Rule mkrule(int op, const string& path, int nth, int count, int err, int arg = 0);

typedef int (*Entry)(int, char**);
struct Stats {
    uint64_t runs = 0, refs = 0, steps = 0, calls = 0, simtime_ns = 0, scenarios = 0, nontrivial = 0, crashes = 0, hangs = 0, signals = 0, ok = 0, failed = 0;
    uint64_t fired[OP_MAX] = {}; uint64_t short_reads = 0, short_writes = 0, emfile = 0, enospc = 0, crash_runs = 0;
    map<string, uint64_t> errnos;      // "write:ENOSPC" -> count
    map<string, uint64_t> probes;      // named rare conditions hit
    std::set<uint64_t> nontrivial_set;  // distinct non-trivial cases
    std::set<uint64_t> traces;         // distinct system-call histories
    std::set<uint64_t> outcomes;       // distinct (status, files) outcomes
    vector<uint8_t> cov;
};
extern Stats g_stats;
void probe(const string& name);

// runs one program run on a file system
Result run_once(const FS& fs, const string& cwd, const Run& r);
// several at the same time on one machine
vector<Result> run_many(const FS& fs, const string& cwd, const vector<const Run*>& runs, const vector<Switch>& sched);
// cached fault-free canonical run
const Result& run_ref(const FS& fs, const string& cwd, const vector<string>& argv);
uint64_t fs_hash(const FS& fs);
uint64_t outcome_hash(const Result& r);           // everything observable
uint64_t result_hash(const Result& r);            // everything observable plus the event hash
string errno_name(int e);

string serialise(const Scenario& s);
bool parse_scenario(const string& text, Scenario& s, string& err);

struct Outputs { string obj, sym, lst, log; vector<string> all() const; };
Outputs outputs_of(const vector<string>& argv, const string& cwd);   // absolute paths, "" if not requested
bool has_arg(const vector<string>& argv, const char* a);
}
