#include "scenario.h"
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int target_main(int, char**) __asm__("target_main");
extern "C" int eol_main(int, char**) __asm__("eol_main") __attribute__((weak));   // only in sim_mix

namespace vsim {
Stats g_stats;
void probe(const string& n) { g_stats.probes[n]++; }

void fs_file(FS& fs, const string& path, const string& data, int noperm) {
    for (size_t i = 0, j; i < path.size(); i = j + 1) { j = path.find('/', i); if (j == string::npos) j = path.size(); if (j - i > NAMEMAX) return; }   // no file system stores such a name
    if (path.size() >= 4000) return;
    Ent e; e.data = std::make_shared<const string>(data); e.noperm = noperm;
    auto it = fs.find(path);
    if (it != fs.end()) e.order = it->second.order; else e.order = (uint32_t)fs.size();
    fs[path] = e;
}
void fs_dir(FS& fs, const string& path) { if (fs.count(path)) return; Ent e; e.dir = true; e.order = (uint32_t)fs.size(); fs[path] = e; }

string path_join(const string& cwd, const string& p) {
    string s = !p.empty() && p[0] == '/' ? p : cwd + "/" + p;
    vector<string> c; size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i); if (j == string::npos) j = s.size();
        string t = s.substr(i, j - i);
        if (t == "..") { if (!c.empty()) c.pop_back(); } else if (!t.empty() && t != ".") c.push_back(t);
        i = j + 1;
    }
    string r; for (auto& t : c) r += "/" + t;
    return r.empty() ? "/" : r;
}

Run::Run() { memset(&k, 0, sizeof k); k.quota = -1; k.epoch = 1700000000; }

Rule mkrule(int op, const string& path, int nth, int count, int err, int arg) {
    Rule r; memset(&r, 0, sizeof r);
    r.op = op; r.nth = nth; r.count = count; r.err = err; r.arg = arg;
    if (err == EINTR && count < 0) r.count = 4;   // an interruption means: try again; endless ones do not occur
    snprintf(r.path, sizeof r.path, "%s", path.c_str());
    return r;
}

static const uint64_t DEF_STEPS = 60000000, DEF_CALLS = 3000000;

static void load_fs(const FS& fs, const string& cwd) {
    rt_reset_fs();
    vector<const FS::value_type*> v; v.reserve(fs.size());
    for (auto& e : fs) v.push_back(&e);
    std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->second.order != b->second.order ? a->second.order < b->second.order : a->first < b->first; });
    for (auto* e : v) {
        int n = e->second.dir ? fs_mkdir_p(e->first.c_str()) : fs_put(e->first.c_str(), e->second.str().data(), e->second.str().size());
        mc->nodes[n].noperm = (uint8_t)e->second.noperm;
    }
    sh->cwd = fs_mkdir_p(cwd.c_str());
    fs_mkdir_p("/dev");
    for (int i = 0; i < mc->nnodes; i++) mc->nodes[i].written = 0;
}

static void store_fs(const FS& before, Result& r) {
    for (int i = 1; i < mc->nnodes; i++) {
        Node& n = mc->nodes[i];
        if (!n.used || n.parent < 0) continue;
        char p[9000]; fs_path(i, p, sizeof p);
        string path = p;
        if (path == "/dev" ) continue;
        if (path.compare(0, 5, "/dev/") == 0) {
            if (path == "/dev/null" || path.compare(0, 8, "/dev/std") == 0) continue;
        }
        Ent e; e.dir = n.type == 2; e.noperm = n.noperm; e.order = n.order; e.written = n.written; e.synced = n.synced;
        if (!e.dir) {
            auto it = before.find(path);
            if (it != before.end() && !it->second.dir && it->second.str().size() == n.size && memcmp(it->second.str().data(), data_at(n.off), n.size) == 0) e.data = it->second.data;
            else e.data = std::make_shared<const string>((char*)data_at(n.off), n.size);
        }
        r.fs[path] = e;
    }
}

static bool g_rt = false;

static void prepare(const Run& run, const string& cwd) {
    sh->k = run.k;
    sh->cwd = fs_mkdir_p((run.cwd.empty() ? cwd : run.cwd).c_str());
    sh->nrules = 0;
    for (auto& r : run.rules) if (sh->nrules < MAXRULES) { sh->rules[sh->nrules] = r; sh->rules[sh->nrules].hits = sh->rules[sh->nrules].fired = 0; sh->rules[sh->nrules].pending = false; sh->nrules++; }
    sh->step_budget = run.step_budget ? run.step_budget : DEF_STEPS;
    sh->call_budget = run.call_budget ? run.call_budget : DEF_CALLS;
    sh->steps = sh->calls = sh->mallocs = sh->allocbytes = sh->reads = sh->writes = sh->opens = sh->closes = 0;
    sh->evhash = 0xcbf29ce484222325ull;
    sh->ntouched = 0; sh->fault_ntouched = -1;
    sh->crashed = sh->hang = sh->maxopen = sh->escape = 0; sh->simtime_ns = 0; sh->note[0] = 0; sh->crash_at[0] = 0;
    sh->out_node[0] = sh->out_node[1] = -1;
    memset(sh->fired, 0, sizeof sh->fired); sh->short_reads = sh->short_writes = sh->emfile = sh->enospc = 0;
}

// what the process `sh` did
static void collect(Result& r, const Run& run, int st) {
    r.hang = sh->hang; r.crashed = sh->crashed;
    if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); if (r.sig == SIGXCPU || r.sig == SIGKILL) { r.aborted_by_harness = true; r.hang = true; r.sig = 0; } }
    else r.code = WEXITSTATUS(st);
    if (!r.hang && !r.crashed && !r.sig && (r.code == 95 || r.code == 96)) { fprintf(stderr, "simulator error: child %d\n", r.code); _exit(2); }
    for (int i = 0; i < 2; i++) if (sh->out_node[i] >= 0) { Node& n = mc->nodes[sh->out_node[i]]; (i ? r.err : r.out).assign((char*)data_at(n.off), n.size); }
    r.steps = sh->steps; r.calls = sh->calls; r.mallocs = sh->mallocs; r.evhash = mc->nproc > 1 ? mix(sh->evhash, mc->ilhash) : sh->evhash; r.maxopen = sh->maxopen; r.escape = sh->escape; r.simtime_ns = sh->simtime_ns + sh->steps;
    memcpy(r.fired, sh->fired, sizeof r.fired); r.short_reads = sh->short_reads; r.short_writes = sh->short_writes; r.emfile = sh->emfile; r.enospc = sh->enospc;
    for (int i = 0; i < sh->ntouched; i++) r.touched.push_back(sh->touched[i]);
    r.fault_ntouched = sh->fault_ntouched;
    r.note = sh->note; r.crash_at = sh->crash_at;
    for (int i = 0; i < sh->nrules; i++) { r.rule_fired.push_back(sh->rules[i].fired); r.rule_hits.push_back(sh->rules[i].hits); }
    Stats& S = g_stats;
    S.runs++; S.steps += r.steps; S.calls += r.calls; S.simtime_ns += r.simtime_ns;
    S.crashes += r.crashed; S.hangs += r.hang; S.signals += r.sig != 0; if (r.success()) S.ok++; else S.failed++;
    for (int i = 0; i < OP_MAX; i++) S.fired[i] += r.fired[i];
    S.short_reads += r.short_reads; S.short_writes += r.short_writes; S.emfile += r.emfile; S.enospc += r.enospc;
    for (size_t i = 0; i < run.rules.size() && i < r.rule_fired.size(); i++) if (r.rule_fired[i]) S.errnos[string(op_names[run.rules[i].op]) + (run.rules[i].op == OP_CRASH || run.rules[i].op == OP_MALLOC ? "" : ":" + errno_name(run.rules[i].err))] += (uint64_t)r.rule_fired[i];
    if (r.enospc) S.errnos["disk:full"] += r.enospc;
    if (r.emfile) S.errnos["open:EMFILE(limit)"] += r.emfile;
    if (r.short_reads) S.errnos["read:short"] += r.short_reads;
    if (r.short_writes) S.errnos["write:short"] += r.short_writes;
    if (S.cov.empty()) S.cov.resize(COVBITS);
    for (int i = 0; i < COVBITS; i += 8) { uint64_t v; memcpy(&v, sh->cov + i, 8); if (v) for (int j = 0; j < 8; j++) { S.cov[(size_t)(i + j)] |= sh->cov[i + j]; } }
    memset(sh->cov, 0, COVBITS);
}

vector<Result> run_many(const FS& fs, const string& cwd, const vector<const Run*>& runs, const vector<Switch>& sched) {
    if (!g_rt) { rt_init(); g_rt = true; }
    size_t n = std::min<size_t>(runs.size(), MAXPROC);
    mc->nproc = (int)n;
    load_fs(fs, cwd);
    mc->quota = -1; for (size_t i = 0; i < n; i++) if (runs[i]->k.quota >= 0 && mc->quota < 0) mc->quota = runs[i]->k.quota;
    mc->turn = -1; mc->halted = 0; mc->point = 0; mc->sw = 0; mc->nsw = 0; mc->ilhash = 0x77; mc->switches = 0;
    if (n > 1) for (auto& x : sched) if (mc->nsw < MAXSW) mc->sws[mc->nsw++] = x;
    vector<pid_t> pids(n); vector<int> status(n);
    fflush(stdout);
    for (size_t i = 0; i < n; i++) { sh = &procs[i]; prepare(*runs[i], cwd); mc->alive[i] = 1; }
    for (int i = 0; i < mc->nnodes; i++) mc->nodes[i].written = 0;
    for (size_t i = 0; i < n; i++) {
        sh = &procs[i];
        vector<char*> argv; vector<string> store(runs[i]->argv);
        for (auto& a : store) argv.push_back((char*)a.c_str());
        argv.push_back(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            if (n > 1) prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z);
            struct rlimit c = { 60, 60 }; setrlimit(RLIMIT_CPU, &c);   // safety net only; the block budget decides
            rt_run(eol_main && !store.empty() && store[0] == "eolconvert" ? eol_main : target_main, (int)store.size(), argv.data());
        }
        pids[i] = pid;
    }
    if (n > 1) { mc->turn = 0; pass_turn((int)n - 1); }
    for (size_t left = n; left > 0;) {
        int st = 0; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; perror("waitpid"); _exit(2); }
        for (size_t i = 0; i < n; i++) if (pids[i] == pid) { status[i] = st; left--; if (n > 1) { proc_dead((int)i); pass_turn((int)i); } }
    }
    vector<Result> res(n);
    for (size_t i = 0; i < n; i++) { sh = &procs[i]; collect(res[i], *runs[i], status[i]); }
    sh = &procs[0];
    store_fs(fs, res[n - 1]);
    for (size_t i = 0; i + 1 < n; i++) res[i].fs = res[n - 1].fs;
    Stats& S = g_stats;
    if (n > 1) { S.probes["context switches between processes"] += mc->switches; S.probes["concurrent executions"]++; }
    for (auto& r : res) if (S.traces.size() < 4000000) { S.traces.insert(r.evhash); S.outcomes.insert(outcome_hash(r)); }
    return res;
}
Result run_once(const FS& fs, const string& cwd, const Run& run) { return std::move(run_many(fs, cwd, { &run }, {})[0]); }

uint64_t fs_hash(const FS& fs) {
    uint64_t h = 1469598103934665603ull;
    auto add = [&](const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } };
    for (auto& e : fs) { add(e.first.data(), e.first.size()); char d = (char)(e.second.dir + 2 * e.second.noperm); add(&d, 1); if (!e.second.dir) { uint64_t n = e.second.str().size(); add(&n, 8); add(e.second.str().data(), n); } }
    return h;
}
uint64_t outcome_hash(const Result& r) {
    uint64_t h = fs_hash(r.fs);
    auto add = [&](const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } };
    add(r.out.data(), r.out.size()); add(r.err.data(), r.err.size());
    uint64_t v[3] = { (uint64_t)(uint32_t)(r.hang || r.crashed ? 0 : r.code), (uint64_t)r.sig, (uint64_t)(r.hang * 2 + r.crashed) }; add(v, sizeof v);
    return h;
}
uint64_t result_hash(const Result& r) { return mix(outcome_hash(r), r.evhash); }

const Result& run_ref(const FS& fs, const string& cwd, const vector<string>& argv) {
    struct Key { uint64_t h; };
    static map<uint64_t, std::shared_ptr<Result>> cache; static vector<uint64_t> order;
    uint64_t h = fs_hash(fs);
    for (auto& a : argv) for (char c : a + "\1") { h ^= (uint8_t)c; h *= 1099511628211ull; }
    for (char c : cwd) { h ^= (uint8_t)c; h *= 1099511628211ull; }
    for (auto& e : fs) { h ^= e.second.order; h *= 1099511628211ull; }
    auto it = cache.find(h);
    if (it != cache.end()) return *it->second;
    Run r; r.argv = argv; r.step_budget = 400000000; r.call_budget = 20000000;
    auto res = std::make_shared<Result>(run_once(fs, cwd, r));
    g_stats.refs++;
    cache[h] = res; order.push_back(h);
    if (order.size() > 64) { static vector<std::shared_ptr<Result>> keep; keep.push_back(cache[order[0]]); if (keep.size() > 64) keep.erase(keep.begin()); cache.erase(order[0]); order.erase(order.begin()); }
    return *res;
}

string errno_name(int e) {
    switch (e) { case ENOSPC: return "ENOSPC"; case EIO: return "EIO"; case EINTR: return "EINTR"; case EMFILE: return "EMFILE"; case ENFILE: return "ENFILE"; case ENOMEM: return "ENOMEM"; case EACCES: return "EACCES"; case EDQUOT: return "EDQUOT"; case EPIPE: return "EPIPE"; case EFBIG: return "EFBIG"; case EROFS: return "EROFS"; case ENOENT: return "ENOENT"; case ESTALE: return "ESTALE"; case EAGAIN: return "EAGAIN"; case EISDIR: return "EISDIR"; case ETIMEDOUT: return "ETIMEDOUT"; case EBADF: return "EBADF"; case EOVERFLOW: return "EOVERFLOW"; case ESPIPE: return "ESPIPE"; case ELOOP: return "ELOOP"; case EPERM: return "EPERM"; case 0: return "ok"; }
    return std::to_string(e);
}

string Result::outcome() const {
    char b[160];
    if (hang) return "did not terminate within the budget";
    if (crashed) return "killed by the simulator at " + crash_at;
    if (sig) { snprintf(b, sizeof b, "died from signal %d (%s)%s%s", sig, strsignal(sig), note.empty() ? "" : ": ", note.c_str()); return b; }
    snprintf(b, sizeof b, "exit status %d", code);
    return b;
}

// ---------------------------------------------------------------- text form
static void blob(string& o, const string& d) { o += std::to_string(d.size()); o += '\n'; o += d; o += '\n'; }
struct KnobDef { const char* n; uint32_t Knobs::*p; };
static const KnobDef KD[] = { { "read_chunk", &Knobs::read_chunk }, { "read_rand", &Knobs::read_rand }, { "write_chunk", &Knobs::write_chunk }, { "write_rand", &Knobs::write_rand }, { "bufsize", &Knobs::bufsize }, { "heap_mode", &Knobs::heap_mode }, { "heap_fill", &Knobs::heap_fill }, { "free_fill", &Knobs::free_fill }, { "stack_fill", &Knobs::stack_fill }, { "heap_pad", &Knobs::heap_pad }, { "realloc_move", &Knobs::realloc_move }, { "env_mode", &Knobs::env_mode }, { "nofile", &Knobs::nofile }, { "dir_order", &Knobs::dir_order }, { "dtype_unknown", &Knobs::dtype_unknown }, { "out_linebuf", &Knobs::out_linebuf }, { "closed", &Knobs::closed } };

string serialise(const Scenario& s) {
    string o = "PASMSIM 1\n";
    o += "prop " + s.prop + "\ntarget " + s.target + "\ncwd " + s.cwd + "\n";
    if (!s.family.empty()) o += "family " + s.family + "\n";
    if (!s.violation.empty()) o += "violation " + s.violation + "\n";
    if (!s.hash.empty()) o += "hash " + s.hash + "\n";
    for (auto& m : s.meta) { o += "meta " + m.first + " "; blob(o, m.second); }
    for (auto& e : s.fs) {
        if (e.second.dir) o += "dir " + std::to_string(e.second.order) + " " + std::to_string(e.second.noperm) + " " + e.first + "\n";
        else { o += "file " + std::to_string(e.second.order) + " " + std::to_string(e.second.noperm) + " " + e.first + " "; blob(o, e.second.str()); }
    }
    for (auto& st : s.steps) {
        if (st.kind == Step::PUT) { o += "put " + st.path + " "; blob(o, st.data); }
        else if (st.kind == Step::DEL) o += "del " + st.path + "\n";
        else if (st.kind == Step::LOSS) o += "loss " + std::to_string(st.seed) + "\n";
        else {
            o += "run\n";
            if (st.group) o += "group " + std::to_string(st.group) + "\n";
            if (!st.run.cwd.empty()) o += "in " + st.run.cwd + "\n";
            for (auto& x : st.sched) o += "switch " + std::to_string(x.at) + " " + std::to_string(x.to) + "\n";
            for (auto& a : st.run.argv) { o += "arg "; blob(o, a); }
            Run d;
            for (auto& k : KD) if (st.run.k.*k.p != d.k.*k.p) o += string("knob ") + k.n + " " + std::to_string(st.run.k.*k.p) + "\n";
            if (st.run.k.quota != d.k.quota) o += "knob quota " + std::to_string(st.run.k.quota) + "\n";
            if (st.run.k.epoch != d.k.epoch) o += "knob epoch " + std::to_string(st.run.k.epoch) + "\n";
            if (st.run.k.seed != d.k.seed) o += "knob seed " + std::to_string(st.run.k.seed) + "\n";
            if (st.run.step_budget) o += "knob step_budget " + std::to_string(st.run.step_budget) + "\n";
            if (st.run.call_budget) o += "knob call_budget " + std::to_string(st.run.call_budget) + "\n";
            for (auto& r : st.run.rules) { char b[400]; snprintf(b, sizeof b, "rule %s nth=%d count=%d err=%d arg=%d path=%s\n", op_names[r.op], r.nth, r.count, r.err, r.arg, r.path); o += b; }
            o += "end\n";
        }
    }
    return o;
}

bool parse_scenario(const string& t, Scenario& s, string& err) {
    size_t i = 0;
    auto line = [&]() { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); string l = t.substr(i, j - i); i = j + 1; return l; };
    auto word = [](string& l) { size_t j = l.find(' '); string w = l.substr(0, j); l = j == string::npos ? "" : l.substr(j + 1); return w; };
    auto blobread = [&](const string& n, string& d) { size_t k = strtoull(n.c_str(), nullptr, 10); if (i + k > t.size()) return false; d = t.substr(i, k); i += k + 1; return true; };
    if (line() != "PASMSIM 1") { err = "not a scenario"; return false; }
    Run* cur = nullptr;
    while (i < t.size()) {
        string l = line(); if (l.empty()) continue;
        string w = word(l);
        if (w == "prop") s.prop = l; else if (w == "target") s.target = l; else if (w == "cwd") s.cwd = l; else if (w == "family") s.family = l;
        else if (w == "violation") s.violation = l; else if (w == "hash") s.hash = l;
        else if (w == "meta") { string k = word(l); string d; if (!blobread(l, d)) return false; s.meta[k] = d; }
        else if (w == "dir") { uint32_t o = (uint32_t)atoi(word(l).c_str()); int np = atoi(word(l).c_str()); fs_dir(s.fs, l); s.fs[l].order = o; s.fs[l].noperm = np; }
        else if (w == "file") { uint32_t o = (uint32_t)atoi(word(l).c_str()); int np = atoi(word(l).c_str()); size_t sp = l.rfind(' '); string p = l.substr(0, sp), d; if (!blobread(l.substr(sp + 1), d)) { err = "short blob"; return false; } fs_file(s.fs, p, d, np); s.fs[p].order = o; }
        else if (w == "put") { size_t sp = l.rfind(' '); Step st; st.kind = Step::PUT; st.path = l.substr(0, sp); if (!blobread(l.substr(sp + 1), st.data)) return false; s.steps.push_back(st); }
        else if (w == "del") { Step st; st.kind = Step::DEL; st.path = l; s.steps.push_back(st); }
        else if (w == "loss") { Step st; st.kind = Step::LOSS; st.seed = strtoull(l.c_str(), nullptr, 10); s.steps.push_back(st); }
        else if (w == "run") { s.steps.push_back(Step()); cur = &s.steps.back().run; }
        else if (w == "end") cur = nullptr;
        else if (w == "group" && cur) s.steps.back().group = atoi(l.c_str());
        else if (w == "in" && cur) cur->cwd = l;
        else if (w == "switch" && cur) { Switch x; x.at = (uint32_t)strtoul(word(l).c_str(), nullptr, 10); x.to = (uint32_t)strtoul(l.c_str(), nullptr, 10); s.steps.back().sched.push_back(x); }
        else if (w == "arg" && cur) { string d; if (!blobread(l, d)) return false; cur->argv.push_back(d); }
        else if (w == "knob" && cur) {
            string n = word(l); bool ok = false;
            for (auto& k : KD) if (n == k.n) { cur->k.*k.p = (uint32_t)strtoul(l.c_str(), nullptr, 10); ok = true; }
            if (n == "quota") { cur->k.quota = atoll(l.c_str()); ok = true; } if (n == "epoch") { cur->k.epoch = atoll(l.c_str()); ok = true; }
            if (n == "seed") { cur->k.seed = strtoull(l.c_str(), nullptr, 10); ok = true; } if (n == "step_budget") { cur->step_budget = strtoull(l.c_str(), nullptr, 10); ok = true; } if (n == "call_budget") { cur->call_budget = strtoull(l.c_str(), nullptr, 10); ok = true; }
            if (!ok) { err = "unknown knob " + n; return false; }
        }
        else if (w == "rule" && cur) {
            Rule r; memset(&r, 0, sizeof r); string on = word(l);
            for (int k = 0; k < OP_MAX; k++) if (on == op_names[k]) r.op = k;
            size_t pp = l.find("path="); if (pp == string::npos) { err = "bad rule"; return false; }
            snprintf(r.path, sizeof r.path, "%s", l.c_str() + pp + 5);
            if (sscanf(l.c_str(), "nth=%d count=%d err=%d arg=%d", &r.nth, &r.count, &r.err, &r.arg) != 4) { err = "bad rule"; return false; }
            cur->rules.push_back(r);
        }
        else { err = "unknown line: " + w; return false; }
    }
    return true;
}

vector<string> Outputs::all() const { vector<string> v; for (auto* p : { &obj, &sym, &lst, &log }) if (!p->empty()) v.push_back(*p); return v; }

// the command line as documented by the usage text
Outputs outputs_of(const vector<string>& a, const string& cwd) {
    Outputs o;
    for (size_t i = 1; i < a.size(); i++) {
        auto is = [&](const char* n) { return strcasecmp(a[i].c_str(), n) == 0; };
        if (is("-d")) { i += 2; continue; }
        if (is("-dir")) { i++; continue; }
        string* d = is("-o") ? &o.obj : is("-s") ? &o.sym : is("-l") ? &o.lst : is("-log") ? &o.log : nullptr;
        if (d && i + 1 < a.size()) { *d = path_join(cwd, a[i + 1]); i++; }
    }
    return o;
}
bool has_arg(const vector<string>& a, const char* n) { for (auto& x : a) if (strcasecmp(x.c_str(), n) == 0) return true; return false; }
}
