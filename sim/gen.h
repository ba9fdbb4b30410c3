// Seeded generator of assembler projects (several files, options, binary inclusions).
#pragma once
#include "scenario.h"
namespace vsim {
struct GenOpt {
    int size = 40;              // rough number of statements
    bool print_dirs = true;     // .print on / off (listing control)
    bool prints = true;         // .print / .printall text
    bool loads = true, includes = true, macros = true, sections = true, loops = true, conds = true, regloops = true;
    bool multi_input = true, dirs = true, dsyms = true;
    bool far_branches = true;   // long branches (warnings)
    bool multi_org = true;
    bool crlf = true;
    bool big = false;           // objects of several buffers
    bool vars = true;
    bool verbose = true;
    int include_fanout = 3;
    bool want_s = true, want_l = true, want_log = true, want_o = true;   // randomly chosen unless forced
    bool force_all = false;
    int load_max = 700;
};
struct Workload {
    FS fs; string cwd = "/w"; vector<string> argv;
    int depth = 0;              // include nesting depth
    vector<string> sources, loads;   // absolute paths
    bool single_org = true, listing_full = true;
    vector<string> tags;
};
Workload gen_program(Rng& r, const GenOpt& o);
// makes the program erroneous; returns a label of the kind of error
string inject_error(Rng& r, Workload& w, int kind = -1);
extern const int n_error_kinds;
// sample programs of the repository (loaded at run time)
const vector<Workload>& sample_workloads();
void load_samples(const string& dir);
const FS& sample_files();
string random_bytes(Rng& r, int n);
Workload gen_edge(Rng& r, string* local = nullptr, string* named = nullptr);  // twins: with local labels only / named labels only
                      // references across the end of the zero page: sizes and addresses depend on each other over many passes
Workload gen_garbage(Rng& r);
string stateful(Rng& r, int kind, int serial); extern const int stateful_kinds;   // statements whose meaning depends on earlier ones
Workload gen_extreme(Rng& r, string* kind = nullptr);   // names, nesting, lists and tables of unusual size
Workload gen_moving(Rng& r);         // malformed sources: mutations, truncations, random text
}
