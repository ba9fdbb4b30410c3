// Executing scenarios, verdicts, reference models, minimisation.
#pragma once
#include "gen.h"
#include <functional>
#include <optional>
namespace vsim {

struct RunRec { Result r; FS before; size_t step; };
struct Exec { vector<RunRec> runs; FS final; uint64_t hash = 0; };
Exec execute(const Scenario& s);

struct Verdict {
    bool bad = false, nontrivial = false;
    string cls, detail;
    void fail(const string& c, const string& d) { if (!bad) { bad = true; cls = c; detail = d; } }
};

typedef Verdict (*Judge)(const Scenario&, Exec&);

struct Known { string prop, cls, match, text; };

struct Ctx;
struct Prop {
    const char* id; const char* target; const char* level;
    uint64_t quick_n, thorough_n;
    void (*explore)(Ctx&);
    Judge judge;
    const char* rule;
};
extern const vector<Prop> g_props;
const Prop* find_prop(const string& id);

struct Ctx {
    const Prop* prop; uint64_t seed, index; bool thorough; Rng r;
    bool stop = false; Scenario bad; Verdict v;
    const vector<Known>* known = nullptr;
    Ctx(const Prop* p, uint64_t s, uint64_t i, bool t);
    bool check(Scenario& s);           // judges; false once a violation was found
    vector<string> samples;
    uint64_t digest = 0;               // over every execution of this case, for the determinism re-check
};
string describe(const Scenario& s, const Exec& e);

Scenario minimise(const Prop& p, const Scenario& s, const string& cls, double seconds);

// ---- comparison helpers
string show(const string& s, size_t max = 160);
string diff_text(const string& got, const string& want);      // short description of the first difference
void orderly(Verdict& v, const Result& r, bool need_diag = true);   // no signal, no hang, no silent failure
bool same_file(const FS& a, const FS& b, const string& p, string& why);
FS clean_inputs(const FS& fs, const Outputs& o);               // the same inputs with nothing in the way of the outputs
vector<int> probe_hits(const FS& fs, const string& cwd, const Run& base, const vector<std::pair<int, string>>& what);

// ---- executable reference model of a small sublanguage (.org/.byte/.word/.load/.inc/labels)
struct ModelOut { bool ok = true; string obj; map<string, int> labels; string why; };
std::optional<ModelOut> model_eval(const FS& fs, const string& cwd, const vector<string>& argv);
Workload gen_model(Rng& r, bool loads, bool shadows);

// ---- listing
struct ListItem { unsigned addr; string bytes; };
vector<ListItem> parse_listing(const string& text);
map<string, unsigned> parse_symbols(const string& text);
}
