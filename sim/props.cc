// One workload generator and one judge per property. A judge is a pure function of the scenario.
#include "oracle.h"
#include <algorithm>
#include <sstream>
#include <errno.h>
#include <string.h>
#include <strings.h>

namespace vsim {
namespace {

const vector<int> E_WRITE = { ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EAGAIN, EPIPE, ESTALE };
const vector<int> E_READ = { EIO, EINTR, ESTALE, ENOMEM, EAGAIN, ETIMEDOUT, EISDIR };
const vector<int> E_OPENR = { EMFILE, ENFILE, ENOMEM, EIO, EINTR, EACCES, ESTALE, EPERM, ELOOP, ETIMEDOUT };
const vector<int> E_OPENW = { EACCES, EROFS, ENOSPC, EMFILE, ENFILE, EIO, EINTR, ENOMEM, EDQUOT, EPERM, ENOENT };
const vector<int> E_CLOSE = { EIO, ENOSPC, EDQUOT, EINTR, ESTALE };
const vector<int> E_SEEK = { EIO, ESPIPE, EOVERFLOW, EINVAL };

Scenario scn(const Workload& w, const string& family) {
    Scenario s; s.cwd = w.cwd; s.fs = w.fs; s.family = family;
    Step st; st.run.argv = w.argv; s.steps.push_back(st);
    return s;
}
Run& run0(Scenario& s) { return s.steps[0].run; }
void budget(Run& r, const Result& ref) { uint64_t b = ref.steps * 10 + 30000000ull; r.step_budget = std::max<uint64_t>(b, 60000000ull); r.call_budget = std::max<uint64_t>(3000000ull, ref.calls * 10000); }

void old_outputs(Ctx& c, Scenario& s, int num = 1, int den = 2) {
    if (!c.r.chance(num, den)) return;
    Outputs o = outputs_of(run0(s).argv, s.cwd);
    for (auto& p : o.all()) if (c.r.chance(2, 3)) fs_file(s.fs, p, c.r.chance(1, 3) ? random_bytes(c.r, c.r.range(0, 9000)) : "old content of " + p + "\n");
}
void io_knobs(Ctx& c, Knobs& k, bool writes = true) {
    static const uint32_t bs[] = { 16, 64, 100, 512, 1024, 4096, 65536 };
    k.bufsize = bs[c.r.below(7)];
    if (writes && c.r.chance(1, 5)) { k.write_chunk = (uint32_t)c.r.pick(vector<int>{ 1, 2, 3, 7, 50, 511 }); k.write_rand = (uint32_t)c.r.below(2); }
    if (c.r.chance(1, 6)) { k.read_chunk = (uint32_t)c.r.pick(vector<int>{ 1, 3, 17, 500 }); k.read_rand = (uint32_t)c.r.below(2); }
    k.seed = c.r.next();
}
GenOpt opts(Ctx& c) {
    GenOpt o; o.size = c.r.chance(1, 4) ? c.r.range(3, 10) : c.r.chance(1, 6) ? c.r.range(40, 90) : c.r.range(8, 40);
    o.verbose = c.r.chance(1, 3);
    if (c.thorough && c.r.chance(1, 60)) o.big = true;
    return o;
}
// program that assembles; false if this seed gave one that does not
bool good(const Workload& w, const Result*& ref) { ref = &run_ref(w.fs, w.cwd, w.argv); return ref->success(); }
// nothing here may be a surprise in the fault-free run either
const Result& clean_ref(const Scenario& s, const FS& fs, const vector<string>& argv, FS* used = nullptr) {
    FS c = clean_inputs(fs, outputs_of(argv, s.cwd)); if (used) *used = c;
    return run_ref(c, s.cwd, argv);
}
// no other directory holds a file of this name: a vanished file cannot be replaced by another one
bool only_name(const FS& fs, const string& p) { string b = p.substr(p.rfind('/') + 1); if (b.size() > 5 && (b.compare(0, 3, "pre") == 0 || b.compare(0, 3, "lib") == 0)) b = b.substr(3); int n = 0; for (auto& e : fs) if (!e.second.dir && e.first.size() >= b.size() && e.first.compare(e.first.size() - b.size(), string::npos, b) == 0) n++; return n < 2; }
string cmdline(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
string rules_text(const Run& r) {
    string s; for (auto& x : r.rules) { char b[360]; snprintf(b, sizeof b, "%s%s %s #%d%s -> %s", s.empty() ? "" : "; ", op_names[x.op], x.path, x.nth, x.count < 0 ? "+" : x.count > 1 ? ".." : "", errno_name(x.err).c_str()); s += b; }
    return s.empty() ? "no injected fault" : s;
}
bool fired(const Result& r) { return r.any_fault() || r.short_reads || r.short_writes; }

// the two oracles of a finished run: model if the program is in the modelled sublanguage, otherwise the undisturbed run
void want_object(Verdict& v, const Scenario& s, const FS& in, const Run& run, const Result& r, const Outputs& o) {
    auto m = model_eval(clean_inputs(in, o), s.cwd, run.argv);
    if (m && m->ok) {
        auto it = r.fs.find(o.obj);
        if (it == r.fs.end()) v.fail("incomplete-object", "exit status 0 but " + o.obj + " does not exist [" + rules_text(run) + "]");
        else if (it->second.str() != m->obj) v.fail("incomplete-object", "exit status 0 but " + o.obj + " differs from the program's bytes: " + diff_text(it->second.str(), m->obj) + " [" + rules_text(run) + "]");
    }
    const Result& ref = clean_ref(s, in, run.argv);
    if (!ref.success()) return;
    string why;
    if (!same_file(r.fs, ref.fs, o.obj, why)) v.fail("incomplete-object", "exit status 0 but " + why + " [" + rules_text(run) + "]");
}

// ================================================================ C01
Verdict j_c01(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    if (o.obj.empty()) return v;
    v.nontrivial = fired(rr.r) || !rr.r.success();
    orderly(v, rr.r);
    if (rr.r.success()) want_object(v, s, rr.before, run, rr.r, o);
    return v;
}
Workload any_program(Ctx& c, GenOpt o) {
    if (c.r.chance(1, 5)) return gen_model(c.r, o.loads, false);
    if (!sample_workloads().empty() && c.r.chance(1, c.thorough ? 60 : 300)) return c.r.pick(sample_workloads());
    return gen_program(c.r, o);
}
// faults on one output file
void output_faults(Ctx& c, Workload& w, const string& out, const vector<string>& others) {
    const Result* ref; if (!good(w, ref)) return;
    auto rit = ref->fs.find(out); if (rit == ref->fs.end()) return;
    int size = (int)rit->second.str().size();
    Scenario base = scn(w, ""); old_outputs(c, base); budget(run0(base), *ref);
    auto go = [&](const char* fam, std::function<void(Scenario&, Run&)> f) { if (c.stop) return; Scenario s = base; s.family = fam; io_knobs(c, run0(s).k); f(s, run0(s)); c.check(s); };
    // write failures at every (or a sample of every) write
    Scenario pr = base; run0(pr).k.bufsize = (uint32_t)c.r.pick(vector<int>{ 1, 16, 64, 256, 1024, 4096 });
    Knobs pk = run0(pr).k;
    int nw = probe_hits(base.fs, base.cwd, run0(pr), { { OP_WRITE, out } })[0];
    int tries = nw <= 6 ? nw : c.thorough ? 8 : 4;
    for (int i = 0; i < tries && !c.stop; i++) go("write-fault", [&](Scenario&, Run& r) {
        r.k = pk; int nth = nw <= 6 ? i + 1 : c.r.chance(1, 3) ? nw : c.r.range(1, nw);
        r.rules.push_back(mkrule(OP_WRITE, out, nth, c.r.pick(vector<int>{ 1, -1, 2 }), c.r.pick(E_WRITE), c.r.chance(1, 3) ? c.r.range(1, (int)pk.bufsize) : 0));
    });
    go("write-fault-last", [&](Scenario&, Run& r) { r.k.bufsize = (uint32_t)std::max(1, size - c.r.range(0, 3)); r.k.write_chunk = 0; r.rules.push_back(mkrule(OP_WRITE, out, 1 + c.r.below(2), c.r.pick(vector<int>{ 1, -1 }), c.r.pick(E_WRITE))); });
    go("close-fault", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(OP_CLOSE, out, 1, 1, c.r.pick(E_CLOSE), c.r.chance(1, 3) ? -1 : c.r.range(0, size))); });
    go("disk-full", [&](Scenario&, Run& r) { int tot = 0; for (auto& p : outputs_of(w.argv, w.cwd).all()) { auto it = ref->fs.find(p); if (it != ref->fs.end()) tot += (int)it->second.str().size(); } r.k.quota = c.r.chance(1, 2) ? c.r.range(0, size) : c.r.range(0, tot); });
    go("open-fault", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(OP_OPEN, out, 1, c.r.pick(vector<int>{ 1, -1 }), c.r.pick(E_OPENW))); });
    if (c.r.chance(1, 2)) go("not-writable", [&](Scenario& s, Run&) { if (c.r.chance(1, 2)) { fs_file(s.fs, out, "keep", c.r.range(2, 3)); } else { s.fs.erase(out); fs_dir(s.fs, out); } });
    if (c.r.chance(1, 3)) go("any-write-fault", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(OP_WRITE, "*", c.r.range(1, nw + 8), c.r.pick(vector<int>{ 1, -1, 3 }), c.r.pick(E_WRITE))); });
    if (c.r.chance(1, 3)) go("any-close-fault", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(OP_CLOSE, "*", c.r.range(1, 14), c.r.pick(vector<int>{ 1, -1 }), c.r.pick(E_CLOSE), -1)); });
    if (c.r.chance(1, 3)) go("two-faults", [&](Scenario&, Run& r) {
        r.rules.push_back(mkrule(OP_WRITE, out, c.r.range(1, nw), 1, c.r.chance(1, 2) ? EINTR : c.r.pick(E_WRITE), c.r.chance(1, 2) ? c.r.range(1, 40) : 0));
        if (!others.empty()) r.rules.push_back(mkrule(c.r.chance(1, 2) ? OP_WRITE : OP_CLOSE, c.r.pick(others), 1, 1, c.r.pick(E_CLOSE), c.r.chance(1, 2) ? 0 : -1)); else r.rules.push_back(mkrule(OP_CLOSE, out, 1, 1, EIO, -1));
    });
    if (c.r.chance(1, 3)) go("seek-sync-fault", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(c.r.pick(vector<int>{ OP_SEEK, OP_SYNC, OP_TRUNC, OP_RENAME, OP_STAT }), c.r.chance(1, 2) ? out : string("*"), c.r.range(1, 3), c.r.pick(vector<int>{ 1, -1 }), EIO)); });
    if (c.r.chance(1, 4)) go("output-is-full-device", [&](Scenario&, Run& r) { r.rules.push_back(mkrule(OP_WRITE, out, 1, -1, ENOSPC)); });
    if (c.r.chance(1, 2)) go("short-writes", [&](Scenario&, Run& r) { r.k.write_chunk = (uint32_t)c.r.range(1, 60); r.k.write_rand = 1; });
}
void x_c01(Ctx& c) {
    GenOpt o = opts(c); o.want_s = c.r.chance(1, 3); o.want_l = c.r.chance(1, 3); o.want_log = c.r.chance(1, 6);
    Workload w = any_program(c, o); Outputs out = outputs_of(w.argv, w.cwd);
    vector<string> others; for (auto& p : out.all()) if (p != out.obj) others.push_back(p);
    output_faults(c, w, out.obj, others);
}

// ================================================================ C02
Verdict j_c02(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    v.nontrivial = fired(rr.r) || !rr.r.success();
    orderly(v, rr.r);
    if (rr.r.success()) {
        const Result& ref = clean_ref(s, rr.before, run.argv);
        if (ref.success()) for (auto& p : { o.sym, o.lst, o.log }) { if (p.empty()) continue; string why; if (!same_file(rr.r.fs, ref.fs, p, why)) v.fail(p == o.sym ? "incomplete-symbols" : p == o.lst ? "incomplete-listing" : "incomplete-log", "exit status 0 but " + why + " [" + rules_text(run) + "]"); }
    }
    return v;
}
void x_c02(Ctx& c) {
    GenOpt o = opts(c); o.force_all = c.r.chance(1, 2); o.want_o = !c.r.chance(1, 5); o.want_s = o.want_l = true;
    Workload w = gen_program(c.r, o); Outputs out = outputs_of(w.argv, w.cwd);
    vector<string> t; for (auto& p : { out.sym, out.lst, out.log }) if (!p.empty()) t.push_back(p);
    if (t.empty()) { w.argv.insert(w.argv.begin() + 1, { "-s", "out.sym", "-l", "out.lst" }); out = outputs_of(w.argv, w.cwd); t = { out.sym, out.lst }; }
    string target = c.r.pick(t); vector<string> others; for (auto& p : out.all()) if (p != target) others.push_back(p);
    if (target == out.log && c.r.chance(1, 3)) {   // the log goes through a C++ stream
        const Result* ref; if (!good(w, ref)) return;
        for (int i = 0; i < 3 && !c.stop; i++) { Scenario s = scn(w, "log-write"); budget(run0(s), *ref); s.steps[0].run.rules.push_back(mkrule(OP_WRITE, target, c.r.range(1, 8), c.r.pick(vector<int>{ 1, -1 }), c.r.pick(E_WRITE))); c.check(s); }
    }
    output_faults(c, w, target, others);
}

// ================================================================ C03
Verdict j_c03(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    v.nontrivial = fired(rr.r);
    orderly(v, rr.r);
    const Result& ref = clean_ref(s, rr.before, run.argv);
    if (rr.r.success()) {
        if (!ref.success() && !ref.hang && !ref.sig) v.fail("accepted-bad-program", "a program that is rejected when nothing fails was accepted with exit status 0 [" + rules_text(run) + "]");
        string why;
        if (ref.success()) for (auto& p : o.all()) if (!same_file(rr.r.fs, ref.fs, p, why)) v.fail("different-program", "exit status 0 but " + why + " [" + rules_text(run) + "]");
    }
    return v;
}
void x_c03(Ctx& c) {
    GenOpt o = opts(c); o.want_l = c.r.chance(2, 3);
    bool err = c.r.chance(1, 6), mod = !err && c.r.chance(1, 6);
    Workload w = mod ? gen_model(c.r, true, false) : gen_program(c.r, o);
    if (err) inject_error(c.r, w); else if (c.r.chance(1, 8)) { // warnings make the sources be read again
        string& p = w.sources.back(); string t = w.fs[p].str(); t = "zfar" + std::to_string(c.r.below(9)) + " nop\n" + t; (void)t;
    }
    const Result& ref = run_ref(w.fs, w.cwd, w.argv);
    if (!err && !ref.success()) return;
    Scenario base = scn(w, ""); old_outputs(c, base, 1, 4); budget(run0(base), ref);
    vector<string> src = w.sources; if (src.size() > 5) { std::rotate(src.begin(), src.begin() + c.r.below((int)src.size()), src.end()); src.resize(5); }
    Run pr = run0(base); pr.k.bufsize = (uint32_t)c.r.pick(vector<int>{ 64, 200, 512, 4096 });
    vector<std::pair<int, string>> what; for (auto& p : src) for (int op : { OP_OPEN, OP_READ, OP_SEEK, OP_CLOSE }) what.push_back({ op, p });
    auto hits = probe_hits(base.fs, base.cwd, pr, what);
    int n = c.thorough ? 16 : 9;
    for (int i = 0; i < n && !c.stop; i++) {
        size_t k; int guard = 0; do k = (size_t)c.r.below((int)what.size()); while ((hits[k] == 0 || (what[k].first == OP_CLOSE && !c.r.chance(1, 3))) && ++guard < 60);
        if (!hits[k]) return;
        Scenario s = base; Run& r = run0(s); r.k = pr.k; r.k.seed = c.r.next();
        int op = what[k].first, nth = c.r.range(1, hits[k]);
        if (c.r.chance(1, 4)) nth = hits[k];
        auto& pool = op == OP_OPEN ? E_OPENR : op == OP_READ ? E_READ : op == OP_SEEK ? E_SEEK : E_CLOSE;
        int er = c.r.pick(pool); if (op == OP_OPEN && only_name(w.fs, what[k].second) && c.r.chance(1, 5)) er = ENOENT;
        r.rules.push_back(mkrule(op, what[k].second, nth, c.r.pick(vector<int>{ 1, -1, 2, 1 }), er, op == OP_CLOSE ? -1 : 0));
        if (c.r.chance(1, 8)) { size_t k2 = (size_t)c.r.below((int)what.size()); r.rules.push_back(mkrule(what[k2].first == OP_CLOSE ? OP_READ : what[k2].first, what[k2].second, c.r.range(1, hits[k2] + 1), 1, EIO)); }
        s.family = string("source-") + op_names[op]; c.check(s);
    }
    if (!c.stop && c.r.chance(1, 3)) { Scenario s = base; s.family = "source-any-read"; run0(s).k = pr.k; run0(s).rules.push_back(mkrule(OP_READ, "*", c.r.range(1, 40), c.r.pick(vector<int>{ 1, -1, 3 }), c.r.pick(E_READ))); c.check(s); }
    if (!c.stop && c.r.chance(1, 3)) { Scenario s = base; s.family = "source-unreadable"; auto p = c.r.pick(w.sources); if (c.r.chance(1, 2)) s.fs[p].noperm = 1; else { s.fs.erase(p); fs_dir(s.fs, p); s.meta["isdir"] = "1"; }
        if (!s.meta.count("isdir")) c.check(s); else { // compared with the program that had the file: it must be refused
            s.meta["must-fail"] = "1"; Exec e; Verdict v; (void)v; s.meta["noshrink"] = "1"; s.family = "source-is-directory"; c.check(s); } }
}
Verdict j_c03x(const Scenario& s, Exec& e) {
    Verdict v = j_c03(s, e);
    if (!v.bad && s.meta.count("must-fail") && !e.runs.empty() && e.runs.back().r.success()) {
        // an input named on the command line or included is a directory: nothing was assembled from it
        v.fail("different-program", "exit status 0 although a source is a directory");
    }
    return v;
}

// ================================================================ C04
Verdict j_c04(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    if (o.obj.empty()) return v;
    auto m = model_eval(rr.before, s.cwd, run.argv);
    if (!m) return v;
    v.nontrivial = true;
    orderly(v, rr.r);
    bool benign = !rr.r.any_fault();
    if (rr.r.success()) {
        if (!m->ok) v.fail("load-invented", "exit status 0 although the program cannot be assembled: " + m->why);
        else { auto it = rr.r.fs.find(o.obj); if (it == rr.r.fs.end()) v.fail("load-wrong", "no object file"); else if (it->second.str() != m->obj) v.fail("load-wrong", "object differs from the loaded files: " + diff_text(it->second.str(), m->obj) + " [" + rules_text(run) + "]"); }
    } else if (benign && m->ok && !v.bad) v.fail("load-refused", "a correct program was refused: " + rr.r.outcome() + ", " + show(rr.r.err));
    return v;
}
void x_c04(Ctx& c) {
    Workload w = gen_model(c.r, true, c.r.chance(1, 6));
    for (int g = 0; w.loads.empty() && g < 20; g++) w = gen_model(c.r, true, false);
    if (w.loads.empty()) return;
    const Result& ref = run_ref(w.fs, w.cwd, w.argv);
    Scenario base = scn(w, "plain"); budget(run0(base), ref);
    { Scenario s = base; io_knobs(c, run0(s).k); if (!c.check(s)) return; }
    if (c.r.chance(1, 4)) { Scenario s = base; s.family = "missing"; auto p = c.r.pick(w.loads); int k = c.r.below(3); if (k == 0) s.fs.erase(p); else if (k == 1) s.fs[p].noperm = 1; else { s.fs.erase(p); fs_dir(s.fs, p); } if (!c.check(s)) return; }
    if (!ref.success()) return;
    Run pr = run0(base); pr.k.bufsize = (uint32_t)c.r.pick(vector<int>{ 1, 16, 64, 512, 4096 });
    vector<string> ld = w.loads; std::sort(ld.begin(), ld.end()); ld.erase(std::unique(ld.begin(), ld.end()), ld.end()); if (ld.size() > 4) ld.resize(4);
    vector<std::pair<int, string>> what; for (auto& p : ld) for (int op : { OP_OPEN, OP_READ, OP_SEEK, OP_STAT, OP_CLOSE }) what.push_back({ op, p });
    auto hits = probe_hits(base.fs, base.cwd, pr, what);
    int n = c.thorough ? 14 : 9;
    for (int i = 0; i < n && !c.stop; i++) {
        size_t k; int guard = 0; do k = (size_t)c.r.below((int)what.size()); while (hits[k] == 0 && ++guard < 60);
        if (!hits[k]) return;
        Scenario s = base; Run& r = run0(s); r.k = pr.k; r.k.seed = c.r.next(); if (c.r.chance(1, 4)) { r.k.read_chunk = (uint32_t)c.r.range(1, 9); r.k.read_rand = 1; }
        int op = what[k].first;
        auto& pool = op == OP_OPEN ? E_OPENR : op == OP_READ ? E_READ : op == OP_CLOSE ? E_CLOSE : E_SEEK;
        r.rules.push_back(mkrule(op, what[k].second, c.r.range(1, hits[k]), c.r.pick(vector<int>{ 1, -1, 1, 2 }), op == OP_OPEN && c.r.chance(1, 4) && only_name(w.fs, what[k].second) ? ENOENT : c.r.pick(pool), op == OP_CLOSE ? -1 : 0));
        s.family = string("load-") + op_names[op]; c.check(s);
    }
}

// ================================================================ C05 / C06: same results under different environments
Verdict j_same(const Scenario& s, Exec& e, bool io) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    const char* cls = io ? "depends-on-io" : "depends-on-memory";
    if (s.meta.count("padded")) {     // first run: plain source; then the same source with longer comment lines
        if (e.runs.size() != 2) return v;
        auto &a = e.runs[0].r, &b = e.runs[1].r; v.nontrivial = true;
        if (a.hang || b.hang) return v;
        if (a.code != b.code || a.sig != b.sig) v.fail(cls, "longer comments changed the outcome: " + a.outcome() + " / " + b.outcome() + ", " + show(b.err));
        string why;
        for (auto& p : { o.obj, o.sym }) if (!p.empty() && !same_file(b.fs, a.fs, p, why)) v.fail(cls, "longer comments changed the program: " + why);
        auto strip = [](const string& t) { string r; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); string l = t.substr(i, j - i); if (l.find(";pad") == string::npos) r += l + "\n"; i = j + 1; } return r; };
        if (!o.lst.empty() && a.fs.count(o.lst) && b.fs.count(o.lst)) { string x = strip(a.fs.at(o.lst).str()), y = strip(b.fs.at(o.lst).str()); if (x != y) v.fail(cls, "longer comments changed the listing: " + diff_text(y, x)); }
        string x = strip(a.err), y = strip(b.err); if (x != y) v.fail(cls, "longer comments changed the diagnostics: " + diff_text(y, x));
        return v;
    }
    FS f = rr.before; const Result& ref = run_ref(f, s.cwd, run.argv);
    auto& r = rr.r;
    v.nontrivial = true;
    if (ref.hang || r.hang) { if (ref.hang != r.hang) v.fail(cls, "terminates under one environment only: " + r.outcome() + " / " + ref.outcome()); return v; }
    if (ref.sig && r.sig) return v;      // a crash is the business of other properties
    if (r.code != ref.code || r.sig != ref.sig) v.fail(cls, r.outcome() + " instead of " + ref.outcome() + ", " + show(r.err));
    string why;
    for (auto& p : o.all()) if (!same_file(r.fs, ref.fs, p, why)) v.fail(cls, why);
    if (r.err != ref.err) v.fail(cls, "diagnostics differ: " + diff_text(r.err, ref.err));
    if (r.out != ref.out) v.fail(cls, "standard output differs: " + diff_text(r.out, ref.out));
    for (auto& f2 : ref.fs) if (!same_file(r.fs, ref.fs, f2.first, why)) v.fail(cls, why);
    return v;
}
Verdict j_c05(const Scenario& s, Exec& e) { return j_same(s, e, true); }
Verdict j_c06(const Scenario& s, Exec& e) {
    Verdict v; if (s.meta.count("faulty")) { e = execute(s); v.nontrivial = !e.runs.empty() && fired(e.runs.back().r); } else v = j_same(s, e, false);
    // whatever lies there with another allocator
    if (!e.runs.empty() && e.runs.back().r.note.compare(0, 5, "wrote") == 0) v.fail("foreign-memory", "the run " + e.runs.back().r.note);
    return v;
}

Workload broad(Ctx& c) {
    int k = c.r.below(20);
    GenOpt o = opts(c); if (c.r.chance(1, 25)) return gen_extreme(c.r);
    if (k < 9) return gen_program(c.r, o);
    if (k < 11) return gen_model(c.r, true, c.r.chance(1, 3));
    if (k < 14) { Workload w = gen_program(c.r, o); inject_error(c.r, w); if (c.r.chance(1, 4)) inject_error(c.r, w); return w; }
    if (k < 19 || sample_workloads().empty() || !c.r.chance(1, 6)) return gen_garbage(c.r);
    return c.r.pick(sample_workloads());
}
void x_c05(Ctx& c) {
    if (c.r.chance(1, 4)) {   // buffer boundaries against every construct: shift the source with comments
        GenOpt o = opts(c); o.size = c.r.range(20, 70); o.multi_input = false; o.crlf = false; Workload w = gen_program(c.r, o);
        if (c.r.chance(1, 5)) inject_error(c.r, w);
        string p = w.sources.back(); string t = w.fs[p].str();
        // boundaries: 8 KB lexer block, 16 KB lexer buffer, 4 KB stdio buffer
        int n = c.r.range(1, 3); if (t.empty()) return;
        for (int i = 0; i < n && !c.stop; i++) {
            size_t at = (size_t)c.r.below((int)t.size());
            size_t bound = (size_t)c.r.pick(vector<int>{ 4096, 8192, 16384, 8192, 16384, 12288, 24576, 32768 });
            if (bound < at + 80) bound = 16384; if (bound < at + 80) continue;
            size_t want = bound - at; size_t lines = want / 100 + 1; size_t per = want / lines, rest = want - per * lines;
            string shortp, longp; for (size_t k = 0; k < lines; k++) { shortp += ";pad\n"; size_t len = per + (k == 0 ? rest : 0); longp += ";pad" + string(len - 5, 'x') + "\n"; }
            Scenario s = scn(w, "boundary"); s.meta["padded"] = "1"; s.meta["nosteps"] = "1"; fs_file(s.fs, p, shortp + t);
            Step put; put.kind = Step::PUT; put.path = p; put.data = longp + t; s.steps.push_back(put);
            for (auto& q : outputs_of(w.argv, w.cwd).all()) { Step d; d.kind = Step::DEL; d.path = q; s.steps.push_back(d); }
            Step again = s.steps[0]; io_knobs(c, again.run.k); s.steps.push_back(again);
            s.meta["noshrink"] = "1"; c.check(s);
        }
        return;
    }
    Workload w = broad(c);
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang) return;
    int n = c.thorough ? 5 : 3;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, "chunking"); Knobs& k = run0(s).k; budget(run0(s), ref);
        static const uint32_t bs[] = { 1, 2, 16, 100, 511, 4095, 4097, 8192, 65536, 1024 };
        k.bufsize = bs[c.r.below(10)]; k.seed = c.r.next();
        if (c.r.chance(2, 3)) { k.read_chunk = (uint32_t)c.r.pick(vector<int>{ 1, 2, 3, 7, 64, 511, 513, 1000, 4095, 8191 }); k.read_rand = (uint32_t)c.r.below(2); }
        if (c.r.chance(1, 2)) { k.write_chunk = (uint32_t)c.r.pick(vector<int>{ 1, 2, 3, 10, 100, 4095 }); k.write_rand = (uint32_t)c.r.below(2); }
        if (c.r.chance(1, 4)) k.out_linebuf = 1;
        c.check(s);
    }
}
Rule any_rule(Ctx& c, const Workload& w, const Outputs& o);
void x_c06(Ctx& c) {
    Workload w = c.r.chance(1, 8) ? gen_extreme(c.r) : broad(c);
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang) return;
    int n = c.thorough ? 6 : 4;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, "memory"); Knobs& k = run0(s).k; budget(run0(s), ref); k.seed = c.r.next();
        k.heap_mode = (uint32_t)c.r.below(4); k.heap_fill = (uint32_t)c.r.below(4); k.free_fill = (uint32_t)c.r.below(3); k.stack_fill = (uint32_t)c.r.below(3);
        k.heap_pad = c.r.chance(1, 2) ? (uint32_t)c.r.range(1, 40) : 0; k.realloc_move = (uint32_t)c.r.below(2);
        if (c.r.chance(1, 3)) k.env_mode = 1; if (c.r.chance(1, 3)) k.epoch = (int64_t)c.r.below(2000000000) * (c.r.chance(1, 4) ? -1 : 1);
        c.check(s);
    }
    for (int i = 0; i < 2 && !c.stop; i++) {   // when something fails, too, only the program's own memory is written
        Scenario s = scn(w, "memory-and-faults"); Knobs& k = run0(s).k; budget(run0(s), ref); io_knobs(c, k); k.seed = c.r.next(); k.heap_fill = (uint32_t)c.r.range(1, 3); if (c.r.chance(1, 2)) k.free_fill = 1;
        k.realloc_move = (uint32_t)c.r.below(2); Outputs out = outputs_of(w.argv, w.cwd);
        if (c.r.chance(1, 2) && ref.mallocs) run0(s).rules.push_back(mkrule(OP_MALLOC, "*", c.r.range(1, (int)ref.mallocs), c.r.chance(1, 2) ? 1 : -1, ENOMEM));
        else { Rule x; do x = any_rule(c, w, out); while (x.op == OP_CRASH || strncmp(x.path, "/dev/", 5) == 0); run0(s).rules.push_back(x); }
        s.meta["faulty"] = "1"; c.check(s);
    }
}

// ================================================================ C07
Verdict j_c07(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    v.nontrivial = fired(rr.r);
    orderly(v, rr.r);
    const Result& ref = clean_ref(s, rr.before, run.argv); string why;
    if (rr.r.success() && !v.bad) {
        if (!ref.success() && !ref.sig && !ref.hang) v.fail("accepted-bad-program", "a rejected program was accepted when memory was short");
        if (ref.success()) for (auto& p : o.all()) if (!same_file(rr.r.fs, ref.fs, p, why)) v.fail("different-output", "exit status 0 but " + why + " [" + rules_text(run) + "]");
    }
    return v;
}
void x_c07(Ctx& c) {
    GenOpt o = opts(c); o.size = c.r.range(2, 30);
    Workload w = gen_program(c.r, o); if (c.r.chance(1, 8)) inject_error(c.r, w);
    if (c.r.chance(1, 12)) w = gen_model(c.r, true, false);
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return;
    int m = (int)ref.mallocs; if (m < 1) return;
    int n = c.thorough ? 40 : 24;
    bool all = c.r.chance(1, 12) && m < 4000;
    int start = c.r.range(1, m);
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, "refused-memory"); budget(run0(s), ref); old_outputs(c, s, 1, 5);
        int nth = all ? (start + i - 1) % m + 1 : c.r.chance(1, 6) ? c.r.range(std::max(1, m - 60), m) : c.r.chance(1, 5) ? c.r.range(1, std::min(m, 60)) : c.r.range(1, m);
        run0(s).rules.push_back(mkrule(OP_MALLOC, "*", nth, c.r.chance(1, 2) ? 1 : c.r.chance(1, 2) ? -1 : c.r.range(2, 5), ENOMEM));
        if (c.r.chance(1, 6)) { run0(s).k.heap_mode = HEAP_LIFO; run0(s).k.heap_fill = 2; run0(s).k.seed = c.r.next(); }
        c.check(s);
    }
}

// ================================================================ C08
Verdict j_c08(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v;
    for (auto& rr : e.runs) {
        const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd); std::set<string> ok; for (auto& p : o.all()) ok.insert(p);
        // the log file is searched along -dir when it cannot be created where it was asked for
        if (fired(rr.r) || rr.r.crashed || run.argv.size() > 2) v.nontrivial = true;
        for (auto& p : rr.r.touched) if (!ok.count(p)) v.fail("foreign-write", "touched " + p + " (" + cmdline(run.argv) + ") [" + rules_text(run) + "]");
        for (auto& f : rr.before) if (!ok.count(f.first)) { string why; if (!same_file(rr.r.fs, rr.before, f.first, why)) v.fail("foreign-write", "changed: " + why); }
        for (auto& f : rr.r.fs) if (!rr.before.count(f.first) && !ok.count(f.first) && !f.second.dir) v.fail("foreign-write", "created " + f.first);
        if (rr.r.escape) v.fail("foreign-write", "tried to start another program or leave the simulated system");
    }
    return v;
}
Rule any_rule(Ctx& c, const Workload& w, const Outputs& o) {
    vector<string> in = w.sources; for (auto& l : w.loads) in.push_back(l);
    vector<string> outs = o.all();
    string ip = c.r.chance(1, 4) ? string("*") : c.r.pick(in), op = outs.empty() || c.r.chance(1, 4) ? string("*") : c.r.pick(outs);
    int cnt = c.r.pick(vector<int>{ 1, 1, 2, -1 });
    switch (c.r.below(9)) {
    case 0: return mkrule(OP_OPEN, ip, c.r.range(1, 6), cnt, c.r.pick(E_OPENR), 2);
    case 1: return mkrule(OP_READ, ip, c.r.range(1, 20), cnt, c.r.pick(E_READ));
    case 2: return mkrule(OP_WRITE, op, c.r.range(1, 6), cnt, c.r.pick(E_WRITE), c.r.chance(1, 3) ? c.r.range(1, 50) : 0);
    case 3: return mkrule(OP_CLOSE, op, c.r.range(1, 3), cnt, c.r.pick(E_CLOSE), c.r.chance(1, 2) ? -1 : c.r.range(0, 40));
    case 4: return mkrule(OP_OPEN, op, 1, cnt, c.r.pick(E_OPENW), 1);
    case 5: return mkrule(OP_SEEK, ip, c.r.range(1, 4), cnt, c.r.pick(E_SEEK));
    case 6: return mkrule(OP_MALLOC, "*", c.r.range(1, 3000), cnt, ENOMEM);
    case 7: return mkrule(OP_WRITE, c.r.chance(1, 2) ? "/dev/stdout" : "/dev/stderr", c.r.range(1, 3), cnt, EPIPE);
    default: return mkrule(OP_CRASH, "*", c.r.range(1, 120), 1, 0, c.r.pick(vector<int>{ 0, 1, 2 + 50, 2 + 10, 2 + 90 }));
    }
}
void bystanders(Ctx& c, Workload& w) {
    static const char* names[] = { "out.tmp", "out.bin.bak", "prog.bak", "out.lst~", "notes.txt", "a.out", "main.sym", "prog.o", "pasm.log", "main.lst", "out", "log", "unrelated/data.bin" };
    for (auto n : names) if (c.r.chance(1, 2)) { string p = path_join(w.cwd, n); if (!w.fs.count(p)) fs_file(w.fs, p, "bystander " + std::to_string(c.r.below(1000))); }
}
void x_c08(Ctx& c) {
    Workload w = broad(c); if (c.r.chance(1, 3)) { // outputs that cannot be created make the program look elsewhere
        for (auto& a : w.argv) if (a == "out.log" && c.r.chance(1, 2)) a = "nodir/out.log"; }
    bystanders(c, w); Outputs o = outputs_of(w.argv, w.cwd);
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang) return;
    { Scenario s = scn(w, "plain"); budget(run0(s), ref); old_outputs(c, s); if (!c.check(s)) return; }
    int n = c.thorough ? 10 : 6;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, "faults"); budget(run0(s), ref); old_outputs(c, s); io_knobs(c, run0(s).k);
        int k = c.r.range(1, 3); for (int j = 0; j < k; j++) run0(s).rules.push_back(any_rule(c, w, o));
        if (c.r.chance(1, 3)) { Step again = s.steps[0]; again.run.rules.clear(); if (c.r.chance(1, 2)) again.run.rules.push_back(any_rule(c, w, o)); s.steps.push_back(again); }
        c.check(s);
    }
}

// ================================================================ C09
Verdict j_c09(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd);
    if (s.meta.count("outs")) { auto& t = s.meta.at("outs"); o = outputs_of({ "pasm", "-o", t + ".bin", "-s", t + ".sym", "-l", t + ".lst" }, s.cwd); }
    auto& r = rr.r;
    if (r.hang || r.crashed || r.sig || r.code == 0) return v;
    if (s.meta.count("fault")) {
        if (r.fault_ntouched < 0) return v;
        for (int i = 0; i < r.fault_ntouched && i < (int)r.touched.size(); i++) if (r.touched[(size_t)i] == o.obj) return v;
        if (o.obj.empty()) return v;     // without an object there is no mark of the beginning of code generation
    }
    v.nontrivial = true;
    string why;
    for (auto& p : { o.obj, o.sym, o.lst }) { if (p.empty()) continue;
        if (!same_file(r.fs, rr.before, p, why)) v.fail("clobbered-output", "the program was rejected (" + r.outcome() + ") but " + why + " [" + rules_text(run) + "]");
        for (auto& t : r.touched) if (t == p) v.fail("clobbered-output", "the program was rejected (" + r.outcome() + ") but " + p + " was rewritten [" + rules_text(run) + "]"); }
    return v;
}
void prefill(Ctx& c, Scenario& s, const Outputs& o) { for (auto& p : { o.obj, o.sym, o.lst }) if (!p.empty() && !c.r.chance(1, 6)) fs_file(s.fs, p, "previous " + random_bytes(c.r, c.r.range(1, 300))); }
void x_c09(Ctx& c) {
    GenOpt o = opts(c); o.want_s = o.want_l = true;
    int k = c.r.below(10);
    if (k < 5) {         // rejected by what the program says
        for (int i = 0; i < 4 && !c.stop; i++) {
            Workload w = gen_program(c.r, o); static const int kinds[] = { 0, 1, 2, 3, 5, 6, 0, 1, 12, 13 };
            inject_error(c.r, w, kinds[c.r.below(10)]); if (c.r.chance(1, 5)) inject_error(c.r, w, kinds[c.r.below(10)]);
            const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang) return;
            Scenario s = scn(w, "rejected"); s.meta["noshrink"] = "1"; budget(run0(s), ref); prefill(c, s, outputs_of(w.argv, w.cwd)); io_knobs(c, run0(s).k); c.check(s);
        }
    } else if (k < 7) {  // rejected by the command line or a missing input
        Workload w = gen_program(c.r, o); Scenario s = scn(w, "bad-command"); auto& a = run0(s).argv; s.meta["noshrink"] = "1"; s.meta["outs"] = "out";
        for (auto& x : { "out.bin", "out.sym", "out.lst" }) fs_file(s.fs, path_join(w.cwd, x), string("previous ") + x);
        for (auto& x : a) if (x == "/w/out.prg") x = "out.bin";
        switch (c.r.below(9)) {
        case 0: a.push_back("-o"); break; case 1: a.push_back("-s"); break; case 2: a.push_back("-l"); break; case 3: a.push_back("-d"); a.push_back("X"); break;
        case 4: a.push_back("-o"); a.push_back("out.bin"); break;
        case 5: a.push_back("nosuchfile.asm"); break;
        case 6: { vector<string> b; for (auto& x : a) if (x.find(".asm") == string::npos && x != "prog.s" && x.find("src/") == string::npos) b.push_back(x); a = b; break; }
        case 7: a.push_back("-6502"); a.push_back("-65c02"); break;
        case 8: { auto p = w.sources.back(); s.fs[p].noperm = 1; break; }
        }
        if (outputs_of(a, s.cwd).obj.empty() || true) c.check(s);
    } else {             // rejected because reading or memory failed in an earlier pass
        Workload w = gen_program(c.r, o); const Result* ref; if (!good(w, ref)) return; Outputs out = outputs_of(w.argv, w.cwd);
        for (int i = 0; i < 6 && !c.stop; i++) {
            Scenario s = scn(w, "early-fault"); s.meta["fault"] = "1"; budget(run0(s), *ref); prefill(c, s, out);
            switch (c.r.below(4)) {
            case 0: run0(s).rules.push_back(mkrule(OP_OPEN, c.r.pick(w.sources), c.r.range(1, 3), 1, c.r.pick(E_OPENR), 2)); break;
            case 1: run0(s).rules.push_back(mkrule(OP_READ, c.r.pick(w.sources), c.r.range(1, 4), 1, EIO)); break;
            case 2: if (!w.loads.empty()) { run0(s).rules.push_back(mkrule(c.r.chance(1, 2) ? OP_READ : OP_OPEN, c.r.pick(w.loads), c.r.range(1, 3), 1, EIO, 0)); break; } [[fallthrough]];
            default: run0(s).rules.push_back(mkrule(OP_MALLOC, "*", c.r.range(1, (int)std::max<uint64_t>(1, ref->mallocs / 2)), 1, ENOMEM)); break;
            }
            c.check(s);
        }
    }
}

// ================================================================ C10
bool is_prefix(const string& a, const string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
Verdict j_c10(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    std::set<string> outs; for (auto& rr : e.runs) for (auto& p : outputs_of(s.steps[rr.step].run.argv, s.cwd).all()) outs.insert(p);
    auto fresh = [&](const FS& f) { FS g; for (auto& x : f) if (!outs.count(x.first)) g[x.first] = x.second; return g; };
    for (auto& rr : e.runs) {
        const Run& run = s.steps[rr.step].run; if (!rr.r.crashed) continue; v.nontrivial = true;
        Outputs o = outputs_of(run.argv, s.cwd); if (o.obj.empty() || run.rules.size() != 1) continue;
        auto it = rr.r.fs.find(o.obj), b = rr.before.find(o.obj);
        if (it == rr.r.fs.end()) { if (b != rr.before.end()) v.fail("killed-object", "a killed run removed the object file"); continue; }
        if (b != rr.before.end() && b->second.str() == it->second.str()) continue;
        const Result& ref = run_ref(fresh(rr.before), s.cwd, run.argv); auto q = ref.fs.find(o.obj);
        if (q == ref.fs.end() || !is_prefix(it->second.str(), q->second.str())) v.fail("killed-object", "a run killed at " + rr.r.crash_at + " left an object that is neither the old one nor a prefix of the correct one: " + (q == ref.fs.end() ? string("no object expected") : diff_text(it->second.str(), q->second.str())));
    }
    auto& last = e.runs.back(); const Run& run = s.steps[last.step].run; auto& r = last.r;
    if (!run.rules.empty() || e.runs.size() < 1 || r.crashed) return v;
    if (e.runs.size() > 1 || s.steps.size() > 1) v.nontrivial = true;
    const Result& ref = run_ref(fresh(last.before), s.cwd, run.argv);
    if (ref.hang || r.hang) { if (ref.hang != r.hang) v.fail("history-dependent", "terminates only with or without leftovers"); return v; }
    if (ref.sig && r.sig) return v;
    if (r.code != ref.code || r.sig != ref.sig) v.fail("history-dependent", r.outcome() + " instead of " + ref.outcome() + ", " + show(r.err));
    if (r.err != ref.err) v.fail("history-dependent", "diagnostics differ: " + diff_text(r.err, ref.err));
    if (r.out != ref.out) v.fail("history-dependent", "standard output differs: " + diff_text(r.out, ref.out));
    string why; Outputs o = outputs_of(run.argv, s.cwd);
    for (auto& p : o.all()) {
        if (!ref.success() && r.fs.count(p) && !ref.fs.count(p) && last.before.count(p) && last.before.at(p).str() == r.fs.at(p).str()) continue;   // a rejected program leaves the previous file
        if (!same_file(r.fs, ref.fs, p, why)) v.fail("history-dependent", why);
    }
    return v;
}
string edit_source(Ctx& c, const string& t) {
    vector<size_t> eol; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') eol.push_back(i + 1);
    string r = t; size_t at = eol.empty() ? 0 : eol[(size_t)c.r.below((int)eol.size())];
    switch (c.r.below(4)) { case 0: r.insert(at, "    nop\n"); break; case 1: r.insert(at, "; edited\n"); break; case 2: r += "    .byte 1,2,3\n"; break; default: r.insert(at, "    lda ##\n"); }
    return r;
}
void x_c10(Ctx& c) {
    GenOpt o = opts(c); o.want_s = o.want_l = true; o.verbose = false; if (c.r.chance(1, 4)) o.force_all = true;
    Workload w = c.r.chance(1, 6) ? gen_model(c.r, true, false) : gen_program(c.r, o); const Result* ref; if (!good(w, ref)) return;
    Outputs out = outputs_of(w.argv, w.cwd); vector<string> outs = out.all();
    int nh = c.thorough ? 6 : 4;
    for (int h = 0; h < nh && !c.stop; h++) {
        Scenario s = scn(w, "history"); Step base = s.steps[0]; s.steps.clear(); old_outputs(c, *(s.steps.push_back(base), &s), 1, 3); s.steps.clear();
        int n = c.r.range(1, 4); string edited;
        for (int i = 0; i < n; i++) {
            Step st = base; budget(st.run, *ref); io_knobs(c, st.run.k);
            int k = c.r.below(10);
            if (k < 5) { int calls = (int)ref->calls; st.run.k.bufsize = (uint32_t)c.r.pick(vector<int>{ 16, 64, 512, 4096 });
                if (c.r.chance(1, 2) && !out.obj.empty()) st.run.rules.push_back(mkrule(OP_CRASH, c.r.pick(outs), c.r.range(1, 12), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52, 92 })));
                else st.run.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, calls + 20), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52, 92 }))); }
            else if (k < 7) { int q = c.r.range(1, 2); for (int j = 0; j < q; j++) st.run.rules.push_back(any_rule(c, w, out)); }
            else if (k < 8) { Step p; p.kind = Step::PUT; p.path = c.r.pick(w.sources); edited = p.path; p.data = edit_source(c, w.fs.at(p.path).str()); s.steps.push_back(p); }
            else if (k < 9 && !outs.empty()) { Step p; p.kind = Step::PUT; p.path = c.r.pick(outs); p.data = random_bytes(c.r, c.r.range(0, 20000)); s.steps.push_back(p); }
            s.steps.push_back(st);
            if (c.r.chance(1, 3)) { Step l; l.kind = Step::LOSS; l.seed = c.r.next(); s.steps.push_back(l); }
            if (c.r.chance(1, 8) && !outs.empty()) { Step p; p.kind = Step::DEL; p.path = c.r.pick(outs); s.steps.push_back(p); }
            if (!edited.empty() && c.r.chance(1, 2)) { Step p; p.kind = Step::PUT; p.path = edited; p.data = w.fs.at(edited).str(); s.steps.push_back(p); }
        }
        Step fin = base; budget(fin.run, *ref); s.steps.push_back(fin); c.check(s);
    }
}

// ================================================================ C11
Verdict j_c11(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v;
    for (auto& rr : e.runs) { v.nontrivial = v.nontrivial || rr.r.code || fired(rr.r); if (rr.r.hang && s.meta.count("userloop")) continue; orderly(v, rr.r, false); }
    return v;
}
// malformed text in which a loop of the program itself may have lost its end condition or its body
bool user_loop(const Workload& w) {
    if (std::find(w.tags.begin(), w.tags.end(), "garbage") == w.tags.end()) return false;
    for (auto& f : w.fs) { string l; for (char ch : f.second.str()) l += (char)tolower((unsigned char)ch); for (auto k : { ".while", ".repeat", ".for", ".do", ".regx", ".regy" }) if (l.find(k) != string::npos) return true; }
    return false;
}
Workload endless(Ctx& c, string& name) {
    Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); Rng& r = c.r;
    w.argv = { "pasm", "-o", "out.bin" }; if (r.chance(1, 2)) { w.argv.push_back("-l"); w.argv.push_back("out.lst"); } if (r.chance(1, 3)) { w.argv.push_back("-s"); w.argv.push_back("out.sym"); }
    string t = "    *= $1000\n"; string emit; { int m = r.chance(2, 3) ? 1 : r.range(2, 4); while (m-- > 0) emit += r.pick(vector<string>{ "    nop\n", "    .byte 1\n", "    lda #1\n", "    .word 5\n", "    .str \"ab\"\n", "    jmp $1234\n", "    .fill 1,5\n", "    .ds 7\n", "    .str \"abcdefghijk\"\n" }); }
    if (r.chance(1, 2)) t = "    *= " + std::to_string(r.range(4096, 4111)) + "\n"; else if (r.chance(1, 8)) t = "";
    GenOpt o; o.size = r.range(1, 8); o.verbose = false;
    switch (r.below(16)) {
    case 13: { name = "self-macro"; string b = r.chance(1, 2) ? emit : string(); t += "    .macro mm\n" + b + "    mm\n" + (r.chance(1, 2) ? emit : "") + "    .endm\n    mm\n"; break; }
    case 14: { name = "mutual-macro"; int m = r.range(2, 5); string b = r.chance(1, 2) ? emit : string(); for (int i = 0; i < m; i++) t += "    .macro mm" + std::to_string(i) + "\n" + b + "    mm" + std::to_string((i + 1) % m) + "\n    .endm\n"; t += "    mm" + std::to_string(r.below(m)) + "\n"; break; }
    case 15: { name = "many-statements"; int m = r.chance(1, 8) ? r.range(100000, 220000) : r.range(1000, 20000); string u = r.pick(vector<string>{ "v = v + 1\n", "    .print 1\n", "v = 5\n", "    ; text\n\n" }), h = r.pick(vector<string>{ "    .if 1\n", "    .repeat\n", ".ifndef zz\n" }); t += "v = 1\n" + h; t.reserve(u.size() * (size_t)m + 1000); for (int i = 0; i < m; i++) t += u; t += h[0] == '.' ? ".endif\n" : h[5] == 'i' ? "    .endif\n" : "    .until 1 == 1\n"; break; }
    case 11: name = "for-never-ends"; t += "    .var q\n    .for q = 0 .to " + r.pick(vector<string>{ "10 .step 0", "10 .step -1", "10 .step 0", "3" }) + "\n" + emit + (r.chance(1, 3) ? "    .next qq\n" : "    .next q\n"); break;
    case 12: name = "for-nested"; t += "    .var q\n    .var p\n    .for q = 0 .to 5 .step 0\n    .for p = 0 .to 3 .step " + r.pick(vector<string>{ "0", "1" }) + "\n" + emit + "    .next p\n" + emit + "    .next q\n"; break;
    case 0: name = "self-include"; t += emit + "    .inc \"prog.s\"\n"; break;
    case 1: name = "mutual-include"; t += "    .inc \"b.inc\"\n"; fs_file(w.fs, "/w/b.inc", emit + "    .inc \"c.inc\"\n"); fs_file(w.fs, "/w/c.inc", "    .inc \"b.inc\"\n"); w.sources.push_back("/w/b.inc"); break;
    case 2: name = "never-settles"; t += r.chance(1, 2) ? "aa = bb + 1\nbb = aa + 1\n    .word aa\n" : "aa = bb ^ 1\nbb = aa\n    .word aa\n"; break;
    case 3: name = "oscillating"; t += "    .if lab == $1001\n    nop\n    nop\n    .endif\n    nop\nlab nop\n    jmp lab\n"; break;
    case 4: name = "while-forever"; t += "    .var q = 0\n    .while 1 == 1\n" + emit + "    .wend\n"; break;
    case 5: name = "do-forever"; t += "    .var q = 0\n    .do\n" + emit + "    .while 1 == 1\n"; break;
    case 6: name = "repeat-forever"; t += "    .var q = 0\n    .repeat\n" + emit + "    .until 1 == 0\n"; break;
    case 7: name = "deep-includes"; { int n = r.range(5, 1100); t += "    .inc \"d0.inc\"\n"; for (int i = 0; i < n; i++) fs_file(w.fs, "/w/d" + std::to_string(i) + ".inc", i + 1 < n ? "    .inc \"d" + std::to_string(i + 1) + ".inc\"\n" : "    nop\n"); break; }
    case 8: name = "address-wrap"; t = "    *= $fff0\n"; for (int i = 0; i < 30; i++) t += emit; break;
    case 9: name = "self-load"; t += "    .load \"prog.s\"\n    .load \"out.bin\"\n"; fs_file(w.fs, "/w/out.bin", "xyz"); break;
    case 10: name = "nested-forever"; t += "    .var q = 0\n    .while 1 == 1\n    .repeat\n" + emit + "    .until 1 == 0\n    .wend\n"; break;
    }
    fs_file(w.fs, "/w/prog.s", t); w.sources.push_back("/w/prog.s"); w.argv.push_back("prog.s");
    return w;
}
void x_c11(Ctx& c) {
    int k = c.r.below(10);
    if (k < 3) { string nm; Workload w = endless(c, nm); Scenario s = scn(w, nm); s.steps[0].run.step_budget = 3000000000ull; s.steps[0].run.call_budget = 30000000; if (c.r.chance(1, 3)) { Outputs o = outputs_of(w.argv, w.cwd); run0(s).rules.push_back(any_rule(c, w, o)); } c.check(s); return; }
    if (k < 4 && c.r.chance(1, 2)) { for (int i = 0; i < 4 && !c.stop; i++) { string nm; Workload w = gen_extreme(c.r, &nm); Scenario s = scn(w, nm); run0(s).step_budget = 3000000000ull; run0(s).call_budget = 40000000; if (c.r.chance(1, 3)) run0(s).rules.push_back(any_rule(c, w, outputs_of(w.argv, w.cwd))); io_knobs(c, run0(s).k); c.check(s); } return; }
    if (k < 6) { for (int i = 0; i < 6 && !c.stop; i++) { Workload w = gen_garbage(c.r); Scenario s = scn(w, "garbage"); bool ul = user_loop(w); if (ul) s.meta["userloop"] = "1"; run0(s).step_budget = ul ? 300000000ull : 3000000000ull; run0(s).call_budget = 40000000; if (c.r.chance(1, 4)) run0(s).rules.push_back(any_rule(c, w, outputs_of(w.argv, w.cwd))); io_knobs(c, run0(s).k); c.check(s); } return; }
    Workload w = broad(c); Outputs o = outputs_of(w.argv, w.cwd); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang) { Scenario s = scn(w, "plain"); if (user_loop(w)) s.meta["userloop"] = "1"; run0(s).step_budget = 3000000000ull; run0(s).call_budget = 40000000; c.check(s); return; }
    for (int i = 0; i < 5 && !c.stop; i++) {
        Scenario s = scn(w, "faults-forever"); budget(run0(s), ref); run0(s).step_budget = std::max<uint64_t>(run0(s).step_budget, 200000000); io_knobs(c, run0(s).k); old_outputs(c, s, 1, 4);
        int n = c.r.range(1, 3); for (int j = 0; j < n; j++) { Rule x; do x = any_rule(c, w, o); while (x.op == OP_CRASH); if (c.r.chance(2, 3)) x.count = -1; run0(s).rules.push_back(x); }
        c.check(s);
    }
}

// ================================================================ C12
Verdict j_c12(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; auto& r = rr.r;
    int nest = atoi(s.meta.at("nest").c_str()); v.nontrivial = true;
    int bound = nest + 1 + 6;
    if (r.maxopen > bound) v.fail("descriptors", std::to_string(r.maxopen) + " files open at once, nesting depth " + std::to_string(nest));
    const Result& ref = run_ref(rr.before, s.cwd, run.argv);
    if (run.k.nofile && !ref.hang && !ref.sig) {
        if (r.code != ref.code || r.sig != ref.sig) v.fail("descriptor-limit", "with a limit of " + std::to_string(run.k.nofile) + " descriptors: " + r.outcome() + " instead of " + ref.outcome() + ", " + show(r.err));
        string why; for (auto& p : outputs_of(run.argv, s.cwd).all()) if (!same_file(r.fs, ref.fs, p, why)) v.fail("descriptor-limit", why);
        if (r.err != ref.err) v.fail("descriptor-limit", "diagnostics differ: " + diff_text(r.err, ref.err));
    }
    return v;
}
void x_c12(Ctx& c) {
    Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); int nest = 0; Rng& r = c.r; string fam;
    w.argv = { "pasm", "-o", "out.bin", "-l", "out.lst", "-s", "out.sym" }; if (r.chance(1, 2)) { w.argv.push_back("-log"); w.argv.push_back("out.log"); }
    string t = "    *= $1000\nstart nop\n";
    int n = r.range(2, c.thorough ? 120 : 50);
    switch (r.below(9)) {
    case 6: fam = "empty-includes"; nest = 1; for (int i = 0; i < n; i++) { string f = "e" + std::to_string(i) + ".inc"; t += "    .inc \"" + f + "\"\n"; fs_file(w.fs, "/w/" + f, r.pick(vector<string>{ "", "", "", "\n", "; text\n", "    ", ";" })); } break;
    case 7: { fam = "file-end-diagnostics"; nest = 1; string tail = r.pick(vector<string>{ "", "\n", "    nop\n", "; text\n" }); for (int i = 0; i < n; i++) { string f = "d" + std::to_string(i % 30) + ".inc"; t += "    .inc \"" + f + "\"\n"; fs_file(w.fs, "/w/" + f, "    bne start\n" + tail); if (!i) t += "    .fill 0,200\n"; } break; }
    case 8: { fam = "repeated-diagnostics"; string b = r.pick(vector<string>{ "    bne start\n", "    bne start\n    beq start\n", "    bne far\n" }); t += "    .fill 0,200\n    .var q\n"; t += r.chance(1, 2) ? "    .for q = 1 .to " + std::to_string(n) + "\n" + b + "    .next q\n" : "    .macro mm\n" + b + "    .endm\n" + [&] { string u; for (int i = 0; i < n; i++) u += "    mm\n"; return u; }(); if (r.chance(1, 2)) t += "    nop\n"; if (b.find("far") != string::npos) { string u = t; t = "    *= $1000\nfar nop\n" + u.substr(u.find("start")); } break; }
    case 0: fam = "sequential-includes"; nest = 1; for (int i = 0; i < n; i++) { string f = "i" + std::to_string(i) + ".inc"; t += "    .inc \"" + f + "\"\n"; fs_file(w.fs, "/w/" + f, "    nop\n"); } break;
    case 1: fam = "same-include"; nest = 1; fs_file(w.fs, "/w/i.inc", "    .byte 1,2\n"); for (int i = 0; i < n; i++) t += "    .inc \"i.inc\"\n"; break;
    case 2: fam = "loads"; for (int i = 0; i < n; i++) { string f = "b" + std::to_string(i) + ".bin"; t += "    .load \"" + f + "\"\n"; fs_file(w.fs, "/w/" + f, random_bytes(r, r.range(0, 20))); } break;
    case 3: fam = "nested"; { int k = r.range(1, 12); nest = k; for (int rep = 0; rep < r.range(1, 5); rep++) t += "    .inc \"n0.inc\"\n"; for (int i = 0; i < k; i++) fs_file(w.fs, "/w/n" + std::to_string(i) + ".inc", "    nop\n" + (i + 1 < k ? "    .inc \"n" + std::to_string(i + 1) + ".inc\"\n" : string("    .load \"x.bin\"\n"))); fs_file(w.fs, "/w/x.bin", "abcd"); break; }
    case 4: fam = "diagnostics"; for (int i = 0; i < n; i++) t += r.chance(1, 2) ? "    bne far\n" : "    nop\n"; if (r.chance(1, 3)) for (int i = 0; i < n; i++) t += "    lda ##1\n"; t += "    .fill 0,200\nfar nop\n"; break;
    case 5: { fam = "generated"; GenOpt o = opts(c); o.verbose = false; w = gen_program(c.r, o); nest = w.depth; break; }
    }
    if (fam != "generated") { fs_file(w.fs, "/w/prog.s", t); w.argv.push_back("prog.s"); if (r.chance(1, 3)) { int k = r.range(1, 8); for (int i = 0; i < k; i++) { string f = "p" + std::to_string(i) + ".s"; fs_file(w.fs, "/w/" + f, "    .byte " + std::to_string(i) + "\n"); w.argv.push_back(f); } } }
    const Result& ref = run_ref(w.fs, w.cwd, w.argv);
    if (ref.hang) return;
    { Scenario s = scn(w, fam); s.meta["nest"] = std::to_string(nest); budget(run0(s), ref); io_knobs(c, run0(s).k); if (fam == "generated") s.meta["noshrink"] = "1"; if (!c.check(s)) return; }
    { Scenario s = scn(w, fam + "-limited"); s.meta["nest"] = std::to_string(nest); budget(run0(s), ref); run0(s).k.nofile = (uint32_t)(3 + nest + 1 + 6); if (fam == "generated") s.meta["noshrink"] = "1"; c.check(s); }
}

// ================================================================ C13
Verdict j_c13(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; auto& r = rr.r;
    if (r.hang || r.crashed || r.sig) return v;
    v.nontrivial = r.code != 0 || !r.err.empty() || fired(r);
    if (s.meta.count("console")) return v;
    if (r.code != 0 && r.err.empty()) v.fail("silent-failure", r.outcome() + " with nothing on standard error [" + rules_text(run) + "]");
    if (r.code == 0) {
        if (s.meta.count("must-fail")) v.fail("error-ignored", "exit status 0 for a program with an error: " + s.meta.at("must-fail") + (r.err.empty() ? "" : ", diagnostics: " + show(r.err)));
        if (has_arg(run.argv, "-nowarn")) { if (!r.err.empty()) v.fail("error-reported-status-0", "exit status 0 but reported: " + show(r.err) + " [" + rules_text(run) + "]"); }
        else {
            // the same run with warnings turned off: what it still reports is an error
            vector<string> a = run.argv; a.insert(a.begin() + 1, "-nowarn");
            if (!fired(r)) {
                Run q = run; q.argv = a; Result x = run_once(rr.before, s.cwd, q);
                if (x.code != 0 && !x.sig && !x.hang) v.fail("warnings-matter", "exit status 0, but " + x.outcome() + " when warnings are off: " + show(x.err));
                else if (x.code == 0 && !x.err.empty()) v.fail("error-reported-status-0", "exit status 0 but reported: " + show(x.err));
                string why; for (auto& p : outputs_of(run.argv, s.cwd).all()) if (!x.sig && !x.hang && !same_file(x.fs, r.fs, p, why)) v.fail("warnings-matter", "turning warnings off changes " + why);
            } else {
                const Result& ref = clean_ref(s, rr.before, run.argv);
                if (ref.success() && r.err != ref.err) {
                    // faults may shorten the source excerpt below a warning, but add no message
                    const Result& now = clean_ref(s, rr.before, a);
                    if (now.success() && ref.err.empty()) v.fail("error-reported-status-0", "exit status 0 but reported: " + show(r.err) + " [" + rules_text(run) + "]");
                }
            }
        }
    } else if (!has_arg(run.argv, "-nowarn") && !fired(r)) {
        vector<string> a = run.argv; a.insert(a.begin() + 1, "-nowarn"); Run q = run; q.argv = a; Result x = run_once(rr.before, s.cwd, q);
        if (x.code == 0 && !x.sig && !x.hang) v.fail("warnings-matter", r.outcome() + ", but exit status 0 when warnings are off: " + show(r.err));
    }
    return v;
}
// one erroneous statement per entry; with text before (definitions) and after
struct Bad { const char* name; const char* text; bool needs_obj; };
const Bad g_bad[] = {
    { "byte value out of range", "    .byte 300\n", true }, { "forward byte out of range", "    .byte zfwd\n", true }, { "word out of range", "    .word 70000\n", true }, { "negative byte out of range", "    .byte -300\n", true },
    { "undefined symbol", "    jmp znosuch\n", false }, { "undefined symbol in data", "    .word znosuch+1\n", false }, { "syntax error", "    lda ##1\n", false }, { "missing operand", "    .byte\n", false },
    { "addressing mode", "    lda (5),x\n", false }, { "mode of stx", "    stx $1234,y\n", false }, { "65c02 instruction on 6502", "    stz $10\n", false }, { "missing include", "    .inc \"znofile\"\n", false }, { "missing load", "    .load \"znofile\"\n", false },
    { "division by zero", "    .byte 5/0\n", false }, { "org twice", "    .org $2000\n    .org $3000\n", false }, { "endsection without section", "    .ends\n", false }, { "unterminated if", "    .if 1 == 1\n    nop\n", false },
    { "undefined forward label", "    jmp ++\n", false }, { "undefined backward label", "    bne --\n", false }, { "undefined local in data", "- nop\n    .word --\n", false },
    { "undefined symbol alone in a byte", "    .byte znosuch\n", false }, { "undefined symbol alone in a list", "    .word 1,znosuch,2\n", false }, { "undefined symbol in a string", "    .str \"a\",znosuch\n", false }, { "undefined local in a word", "    .word @znosuch\n", false }, { "undefined local", "    jmp @znosuch\n", false },
    { "undefined immediate", "    lda #<znosuch\n", false }, { "undefined zero page", "    lda (znosuch),y\n", false }, { "undefined variable value", "    .var zv = znosuch\n    .byte zv\n", false }, { "undefined value of a variable", "    .var zv\nzv = znosuch\n    .byte zv\n", false }, { "undefined equate", "zq = znosuch\n    .byte <zq\n", false },
    { "undefined fill", "    .fill znosuch,2\n", false }, { "undefined count", "    .fill 2,znosuch\n", false }, { "undefined condition", "    .if znosuch\n    nop\n    .endif\n", false }, { "undefined second operand", "    .word 1 || znosuch\n", false }, { "undefined argument", "    .macro zm\n    .byte \\1\n    .endm\n    zm znosuch\n", false }, { "undefined in a macro", "    .macro zm\n    jmp znosuch\n    .endm\n    zm\n", false },
    { "undefined local in a called macro", "    .macro zm\n    bne @znosuch\n    .endm\n    zm\n", false },
    { "unknown character", "    lda #`\n", false }, { "next without for", "    .next q\n", false }, { "immediate store", "    sta #5\n", false },
    { "unbalanced paren", "    lda #(1+2\n", false }, { "never settles", "zza = zzb + 1\nzzb = zza + 1\n    .word zza\n", false },
    { "negative word out of range", "    .word 0-70000\n", true }, { "negative word in a list", "    .word 1,-70000,3\n", true }, { "word just out of range", "    .word 65536\n", true }, { "byte just out of range", "    .byte 1,256\n", true }, { "negative byte just out of range", "    .byte -256,1\n", true }, { "fill value", "    .fill 300,2\n", true }, { "negative fill value", "    .fill -300,2\n", true }, { "negative count", "    .fill 1,-1\n", true },
    { "immediate out of range", "    ldx #256\n", true }, { "immediate far out of range", "    lda #300\n", true }, { "indirect out of range", "    lda (300),y\n", true }, { "indexed indirect out of range", "    lda (300,x)\n", true }, { "negative space", "    .ds -1\n", true }, { "division by zero in an operand", "    lda 5/0\n", true }, { "division by zero in an equate", "zq = 5/0\n    .word zq\n", true }, { "division by zero in print", "    .print 5/0\n", true }, { "data out of range in a loop", "    .repeat\n    .byte 300\n    .until 1 == 1\n", true },
    { "register loop over 256", "    .for .regx = 0 .to 256\n    nop\n    .next x\n", false }, { "register loop from 300", "    .for .regy = 300 .downto 0\n    nop\n    .next y\n", false }, { "register loop to -1", "    .for .regx = 5 .downto -1\n    nop\n    .next x\n", false },
    { "nested register loop", "    .regx = 1 .to 5\n    .regx = 1 .to 5\n    nop\n    .nextx\n    .nextx\n", false },
};
void x_c13(Ctx& c) {
    int k = c.r.below(10); GenOpt o = opts(c);
    if (k < 4) {
        for (int i = 0; i < 8 && !c.stop; i++) {
            const Bad& b = g_bad[c.r.below((int)(sizeof g_bad / sizeof *g_bad))]; Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w");
            string body = b.text; string pre, post;
            if (c.r.chance(1, 16)) { int n = c.r.pick(vector<int>{ 2, 16, 254, 255, 256, 257, 512 }); for (int j = 1; j < n; j++) body += b.text; }   // the number of errors is of no account
            for (int j = c.r.below(5); j > 0; j--) pre += c.r.pick(vector<string>{ "    nop\n", "    .byte 1,2\n", "; text\n", "pq" + std::to_string(j) + " lda #1\n" });
            for (int j = c.r.below(4); j > 0; j--) post += c.r.pick(vector<string>{ "    nop\n", "    .word 1\n", "\n" });
            string t = "    *= $1000\n" + pre; string fwd = "zfwd nop\n"; bool inc = c.r.chance(1, 4), two = !inc && c.r.chance(1, 4);
            if (inc) { fs_file(w.fs, "/w/bad.inc", body + post); t += "    .inc \"bad.inc\"\n    nop\n"; } else if (two) { fs_file(w.fs, "/w/second.s", body + post); } else t += body + post;
            if (strstr(b.text, "zfwd")) { if (two) w.fs["/w/second.s"].data = std::make_shared<const string>(body + post + fwd); else t += fwd; }
            fs_file(w.fs, "/w/prog.s", t);
            w.argv = { "pasm" }; if (c.r.chance(1, 3)) w.argv.push_back("-nowarn");
            if (b.needs_obj || c.r.chance(2, 3)) { w.argv.push_back("-o"); w.argv.push_back("out.bin"); }
            if (c.r.chance(1, 2)) { w.argv.push_back("-l"); w.argv.push_back("out.lst"); } if (c.r.chance(1, 2)) { w.argv.push_back("-s"); w.argv.push_back("out.sym"); } if (c.r.chance(1, 6)) w.argv.push_back("-v");
            w.argv.push_back("prog.s"); if (two) w.argv.push_back("second.s");
            Scenario s = scn(w, "erroneous"); s.meta["must-fail"] = b.name; s.meta["noshrink"] = "1"; if (c.r.chance(1, 3)) io_knobs(c, run0(s).k); c.check(s);
        }
        return;
    }
    if (k < 5) { // command lines
        Workload w = gen_program(c.r, o); Scenario s = scn(w, "bad-command"); auto& a = run0(s).argv; s.meta["noshrink"] = "1"; s.meta["must-fail"] = "bad command line";
        static const vector<vector<string>> bad = { { "pasm" }, { "pasm", "-o", "x" }, { "pasm", "-v" }, { "pasm", "-o", "x", "-o", "y", "prog.s" }, { "pasm", "-v", "-v", "prog.s" }, { "pasm", "-s", "x", "-s", "y", "prog.s" }, { "pasm", "-l", "x", "prog.s", "-l", "y" }, { "pasm", "-log", "x", "-log", "y", "prog.s" }, { "pasm", "-c64", "-c64", "prog.s" },
            { "pasm", "-6502", "-65c02", "prog.s" }, { "pasm", "-65C02", "-6502", "prog.s" }, { "pasm", "-65c02", "prog.s", "-65c02" }, { "pasm", "-6502", "-6502", "prog.s" }, { "pasm", "-i", "-i", "prog.s" }, { "pasm", "-nowarn", "prog.s", "-nowarn" }, { "pasm", "-dir", "a/", "-dir", "b/", "prog.s" }, { "pasm", "-dir", "a/", "prog.s", "-dir", "a/" } };
        static const vector<vector<string>> more = { { "-o" }, { "-s" }, { "-l" }, { "-log" }, { "-dir" }, { "-d" }, { "-d", "X" }, { "-D", "X" }, { "-O" }, { "nosuchfile.asm" } };
        if (c.r.chance(1, 2)) { a = c.r.pick(bad); if (!s.fs.count(path_join(w.cwd, "prog.s"))) fs_file(s.fs, path_join(w.cwd, "prog.s"), "    *= $1000\n    nop\n"); if (c.r.chance(1, 3)) for (auto& q : a) if (q.size() > 1 && q[0] == '-' && c.r.chance(1, 2)) for (auto& ch : q) ch = (char)toupper(ch); }
        else { auto& m = c.r.pick(more); a.insert(a.end(), m.begin(), m.end()); }
        c.check(s); return;
    }
    if (k < 6) { // warnings anywhere in sources of any length, with long lines
        Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); string t = "    *= $1000\nstart nop\n    .fill 1,200\n"; int n = c.r.range(1, 12); bool inc = c.r.chance(1, 3);
        auto lines = [&](int m) { string u; while (m-- > 0) { int q = c.r.below(8); if (q < 3) u += "    bne start\n"; else if (q < 5) u += "    lda #" + std::to_string(c.r.below(256)) + "\n"; else u += (q == 7 ? "    inx ; " : "; ") + string((size_t)c.r.pick(vector<int>{ 10, 60, 800, 2040, 4090, 8150, 8180, 9000, 12000 }) + (size_t)c.r.below(40), 'c') + "\n"; } return u; };
        t += lines(n); if (inc) { fs_file(w.fs, "/w/w.inc", lines(c.r.range(1, 8))); t += "    .inc \"w.inc\"\n" + lines(c.r.below(4)); } t += c.r.pick(vector<string>{ "    rts\n", "    bne start\n", "    bne start\n    rts\n", "" });
        fs_file(w.fs, "/w/prog.s", t); w.sources = { "/w/prog.s" }; w.argv = { "pasm", "-o", "out.bin", "-l", "out.lst", "-s", "out.sym", "prog.s" }; const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return;
        Scenario s = scn(w, "warnings"); budget(run0(s), ref); if (c.r.chance(1, 2)) io_knobs(c, run0(s).k); c.check(s); return; }
    if (k < 8) { Workload w = broad(c); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return; Scenario s = scn(w, "broad"); budget(run0(s), ref); c.check(s);
        if (!c.stop && !has_arg(w.argv, "-nowarn")) { w.argv.insert(w.argv.begin() + 1, "-nowarn"); Scenario q = scn(w, "broad-nowarn"); budget(run0(q), ref); c.check(q); } return; }
    Workload w = gen_program(c.r, o); if (!has_arg(w.argv, "-nowarn") && c.r.chance(2, 3)) w.argv.insert(w.argv.begin() + 1, "-nowarn"); const Result* ref; if (!good(w, ref)) return; Outputs out = outputs_of(w.argv, w.cwd);
    for (int i = 0; i < 6 && !c.stop; i++) { Scenario s = scn(w, "faults"); budget(run0(s), *ref); io_knobs(c, run0(s).k); int n = c.r.range(1, 2); for (int j = 0; j < n; j++) { Rule x; do x = any_rule(c, w, out); while (x.op == OP_CRASH || strncmp(x.path, "/dev/", 5) == 0); run0(s).rules.push_back(x); } c.check(s); }
}

// ================================================================ C14
vector<string> lines_of_text(const string& t);
string directive(const string& l); string lower(string s);
Verdict j_c14(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; auto& r = rr.r; Outputs o = outputs_of(run.argv, s.cwd);
    if (!r.success() || o.obj.empty()) return v;
    auto io = r.fs.find(o.obj); if (io == r.fs.end()) return v; const string& obj = io->second.str();
    bool c64 = s.meta.count("c64"); size_t h = c64 ? 2 : 0; int load = c64 && obj.size() >= 2 ? (uint8_t)obj[0] | (uint8_t)obj[1] << 8 : -1;
    bool simple = s.meta.count("single-org");
    v.nontrivial = true;
    { size_t n = r.out.rfind(" bytes written to "); if (n != string::npos) { size_t b = r.out.rfind('\n', n); b = b == string::npos ? 0 : b + 1; if (r.out.substr(b, n - b).find_first_not_of("0123456789") == string::npos && (size_t)atoi(r.out.substr(b, n - b).c_str()) != obj.size()) v.fail("object-size", "the console says " + r.out.substr(b, n - b) + " bytes were written, the object has " + std::to_string(obj.size())); } }
    if (!o.lst.empty() && r.fs.count(o.lst) && obj.size() >= h) {
        auto L = parse_listing(r.fs.at(o.lst).str()); string b; for (auto& x : L) b += x.bytes;
        if (b != obj.substr(h)) v.fail("listing-bytes", "the listed bytes are not the object's: " + diff_text(b, obj.substr(h)));
        for (auto& x : L) if (!x.bytes.empty()) { if (load >= 0 && x.addr != (unsigned)load) { char t[120]; snprintf(t, sizeof t, "the first byte is listed at $%04X and the load address is $%04X", x.addr, (unsigned)load); v.fail("load-address", t); } break; }
        if (simple && !L.empty()) {
            unsigned a = load >= 0 ? (unsigned)load : s.meta.count("org") ? (unsigned)atoi(s.meta.at("org").c_str()) : L[0].addr;
            for (auto& x : L) { if (x.bytes.empty()) continue; if (x.addr != (a & 0xffff)) { char t[120]; snprintf(t, sizeof t, "listed address $%04X where the layout has $%04X", x.addr, a & 0xffff); v.fail("listing-address", t); break; } a += (unsigned)x.bytes.size(); }
        }
    }
    // wherever no origin stands between, the next byte has the next address
    if (!o.lst.empty() && r.fs.count(o.lst) && s.meta.count("apart")) {
        long at = -1; for (auto& l : lines_of_text(r.fs.at(o.lst).str())) {
            string src = l.size() > 45 ? l.substr(45) : ""; size_t z = src.find_first_not_of(" \t"); if (z != string::npos && (src[z] == '*' || strncasecmp(src.c_str() + z, ".org", 4) == 0)) at = -1;
            for (auto& x : parse_listing(l)) { if (x.bytes.empty()) continue; if (at >= 0 && x.addr != (at & 0xffff)) { char t[160]; snprintf(t, sizeof t, "the byte listed at $%04X follows one that ends at $%04lX in the object", x.addr, at & 0xffff); v.fail("listing-address", t); } at = (long)x.addr + (long)x.bytes.size(); }
        }
    }
    if (s.meta.count("table") && !o.sym.empty() && r.fs.count(o.sym)) {
        auto S = parse_symbols(r.fs.at(o.sym).str()); vector<string> names; string cur; for (char ch : s.meta.at("table") + ",") { if (ch == ',') { if (!cur.empty()) names.push_back(cur); cur.clear(); } else cur += ch; }
        size_t at = obj.size() - names.size() * 2;
        if (obj.size() >= names.size() * 2 + h) for (size_t i = 0; i < names.size(); i++) { unsigned val = (uint8_t)obj[at + 2 * i] | (unsigned)(uint8_t)obj[at + 2 * i + 1] << 8; auto it = S.find(names[i]); if (it == S.end()) continue; if ((it->second & 0xffff) != val) { char t[200]; snprintf(t, sizeof t, "%s is $%04X in the symbol file and $%04X in the code", names[i].c_str(), it->second, val); v.fail("symbol-value", t); } }
        if (s.meta.count("head") && obj.size() >= names.size() * 4 + h) for (size_t i = 0; i < names.size(); i++) if (obj.substr(h + 2 * i, 2) != obj.substr(at + 2 * i, 2)) { char t[200]; snprintf(t, sizeof t, "%s is $%02X%02X at the head of the program and $%02X%02X at its end", names[i].c_str(), (uint8_t)obj[h + 2 * i + 1], (uint8_t)obj[h + 2 * i], (uint8_t)obj[at + 2 * i + 1], (uint8_t)obj[at + 2 * i]); v.fail("label-value", t); break; }
        // a jump to its own label, of a name every section has
        if (!o.lst.empty() && r.fs.count(o.lst)) for (auto& l : lines_of_text(r.fs.at(o.lst).str())) { size_t p = l.find(";self"); if (p == string::npos || p < 45) continue; auto it = parse_listing(l); if (it.empty() || it[0].bytes.size() != 3) continue; unsigned got = (uint8_t)it[0].bytes[1] | (unsigned)(uint8_t)it[0].bytes[2] << 8; if (got != it[0].addr) { char x[300]; snprintf(x, sizeof x, "a section's own label is $%04X where it stands at $%04X: %s", got, it[0].addr, l.substr(45).c_str()); v.fail("section-label", x); break; } }
        // + and - labels against the ordinary labels beside them
        if (!o.lst.empty() && r.fs.count(o.lst)) {
            const string& t = r.fs.at(o.lst).str(); vector<string> lines; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); lines.push_back(t.substr(i, j - i)); i = j + 1; }
            for (size_t l = 0; l < lines.size(); l++) {
                size_t p = lines[l].find(";pair"), q = lines[l].find(";ref "); if (lines[l].size() < 46) continue;
                auto it = parse_listing(lines[l]); if (it.empty()) continue; string b = it[0].bytes; char x[300];
                if (p != string::npos && p > 45) {
                    for (size_t m = l + 1; b.size() < 4 && m < lines.size(); m++) { auto k = parse_listing(lines[m]); if (k.empty()) break; b += k[0].bytes; }
                    if (b.size() >= 4 && b.substr(0, 2) != b.substr(2, 2)) { snprintf(x, sizeof x, "a local label is $%02X%02X where the label beside it is $%02X%02X: %s", (uint8_t)b[1], (uint8_t)b[0], (uint8_t)b[3], (uint8_t)b[2], lines[l].substr(45).c_str()); v.fail("local-label", x); }
                } else if (q != string::npos && q > 45) {
                    string nm = lines[l].substr(q + 5); while (!nm.empty() && isspace((unsigned char)nm.back())) nm.pop_back();
                    auto k = std::find(names.begin(), names.end(), nm); if (k == names.end()) continue; size_t n = (size_t)(k - names.begin());
                    unsigned val = (uint8_t)obj[at + 2 * n] | (unsigned)(uint8_t)obj[at + 2 * n + 1] << 8, got = 0;
                    if (b.size() == 3) got = (uint8_t)b[1] | (unsigned)(uint8_t)b[2] << 8; else if (b.size() == 2) got = ((uint8_t)b[0] & 0x1f) == 0x10 ? (it[0].addr + 2 + (unsigned)(int)(int8_t)b[1]) & 0xffff : (uint8_t)b[1]; else continue;
                    if (got != val && b.size() == 2 && b[1] == 3 && l + 1 < lines.size()) { auto j = parse_listing(lines[l + 1]); if (!j.empty() && j[0].bytes.size() == 3 && (uint8_t)j[0].bytes[0] == 0x4c) got = (uint8_t)j[0].bytes[1] | (unsigned)(uint8_t)j[0].bytes[2] << 8; }   // out of reach: a jmp
                    if (got != val) { snprintf(x, sizeof x, "label %s is $%04X but the reference beside it goes to $%04X: %s", nm.c_str(), val, got, lines[l].substr(45).c_str()); v.fail("local-label", x); }
                }
            }
        }
        // every label in the table against the listed address of what follows it
        if (!o.lst.empty() && r.fs.count(o.lst) && simple) {
            const string& t = r.fs.at(o.lst).str(); vector<string> lines; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); lines.push_back(t.substr(i, j - i)); i = j + 1; }
            for (size_t n = 0; n < names.size(); n++) {
                unsigned val = (uint8_t)obj[at + 2 * n] | (unsigned)(uint8_t)obj[at + 2 * n + 1] << 8; int where = -1, cnt = 0; string sn = names[n].substr(names[n].rfind('.') + 1);
                for (size_t l = 0; l < lines.size(); l++) if (lines[l].size() > 45 && lines[l].compare(45, sn.size(), sn) == 0) { char nx = lines[l].size() > 45 + sn.size() ? lines[l][45 + sn.size()] : ' '; if (nx == ' ' || nx == ':' || nx == '\t' || nx == '\r') { size_t q = lines[l].find_first_not_of(" \t", 45 + sn.size()); if (q != string::npos && lines[l][q] == '=') { cnt = 9; break; } where = (int)l; cnt++; } }
                if (cnt != 1) continue;
                for (size_t l = (size_t)where; l < lines.size(); l++) { auto it = parse_listing(lines[l]); if (it.empty() || it[0].bytes.empty()) continue; if (it[0].addr != val) { char x[200]; snprintf(x, sizeof x, "label %s is $%04X but the code after it is listed at $%04X", names[n].c_str(), val, it[0].addr); v.fail("label-address", x); } break; }
            }
        }
    }
    return v;
}
void x_c14(Ctx& c) {
    GenOpt o = opts(c); o.print_dirs = false; o.want_o = true; o.force_all = true; o.multi_org = c.r.chance(1, 8); o.size = c.r.chance(1, 3) ? c.r.range(30, 90) : o.size; o.prints = false;
    bool edge = c.r.chance(1, 4), moving = !edge && c.r.chance(1, 5); Workload w = edge ? gen_edge(c.r) : moving ? gen_moving(c.r) : gen_program(c.r, o);
    if (!w.listing_full) return;
    auto tops = [](const string& u) { vector<size_t> at; int depth = 0; bool cm = false; size_t q = 0; while (q < u.size()) { size_t e = u.find('\n', q); if (e == string::npos) break; string l = u.substr(q, e - q); q = e + 1; if (l.find("/*") != string::npos) cm = true; if (l.find("*/") != string::npos) cm = false; string d = directive(l + "\n"); static const char* in[] = { ".if", ".ifdef", ".ifndef", ".macro", ".mac", ".for", ".repeat", ".do", ".while" }; static const char* out[] = { ".endif", ".endm", ".endmacro", ".next", ".until", ".wend" }; for (auto z : in) if (d == z) depth++; for (auto z : out) if (d == z) depth--; if (!cm && depth == 0) at.push_back(q); } return at; };   // where a statement can be put
    bool farther = !edge && !moving && c.r.chance(1, 8);
    if (farther) {   // branches to labels out of their reach
        string f = c.r.pick(w.sources), u = w.fs[f].str(); vector<size_t> at = tops(u); size_t org = string::npos, q = 0; while (q < u.size()) { size_t e = u.find('\n', q); if (e == string::npos) break; size_t z = u.find_first_not_of(" \t", q); q = e + 1; if (z < e && (u[z] == '*' || strncasecmp(u.c_str() + z, ".org", 4) == 0)) { org = q; break; } }
        if (org != string::npos) at.erase(std::remove_if(at.begin(), at.end(), [&](size_t p) { return p < org; }), at.end());
        at.erase(std::remove_if(at.begin(), at.end(), [&](size_t p) { size_t b = p < 2 ? string::npos : u.rfind('\n', p - 2); b = b == string::npos ? 0 : b + 1; return p < u.size() && (!isspace((unsigned char)u[p]) || !isspace((unsigned char)u[b])); }), at.end());   // not between labels of one place
        if (at.empty()) farther = false; else {
            size_t p = c.r.pick(at); string l = "zzfar", t = l + " nop\n    .fill 1," + std::to_string(c.r.range(126, 200)) + "\n"; auto& a = w.argv; bool cpu = false, cmos = false; for (auto& x : a) { string y = lower(x); if (y == "-6502" || y == "-65c02") cpu = true; if (y == "-65c02") cmos = true; }
            if (!cpu) { a.insert(a.begin() + 1, "-65c02"); cmos = true; } for (int i = c.r.range(1, 4); i > 0; i--) t += "    " + (cmos && c.r.chance(1, 3) ? string("bra") : c.r.pick(vector<string>{ "bne", "beq", "bcs", "bcc", "bmi", "bpl", "bvs", "bvc" })) + " " + l + "\n";
            fs_file(w.fs, f, u.substr(0, p) + t + u.substr(p)); }
    }
    // a table of labels at the end of the last input
    vector<string> labels; for (auto& p : w.sources) { const string& t = w.fs[p].str(); size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); string l = t.substr(i, j - i); i = j + 1; static const char* st[] = { "Lab", "loop", "entry_", "data", "Sub", "L" }; for (auto q : st) if (l.compare(0, strlen(q), q) == 0 && l.size() > strlen(q) && isdigit((unsigned char)l[strlen(q)])) { size_t k = 0; while (k < l.size() && (isalnum((unsigned char)l[k]) || l[k] == '_')) k++; labels.push_back(l.substr(0, k)); break; } } }
    // and the labels inside sections, by their full names
    if (!edge && !moving) for (auto& p : w.sources) { vector<string> path; const string& t = w.fs[p].str(); size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); string l = t.substr(i, j - i); i = j + 1; size_t k = 0; while (k < l.size() && (isalnum((unsigned char)l[k]) || l[k] == '_')) k++;
        if (l.compare(0, 9, ".section ") == 0) path.push_back(l.substr(9)); else if (l.compare(0, 6, ".sect ") == 0) path.push_back(l.substr(6)); else if (l.compare(0, 5, ".ends") == 0) { if (!path.empty()) path.pop_back(); }
        else if (!path.empty() && l.compare(0, 2, "in") == 0 && k > 2 && isdigit((unsigned char)l[2])) { string f; for (auto q : path) { while (!q.empty() && isspace((unsigned char)q.back())) q.pop_back(); f += q + "."; } labels.push_back(f + l.substr(0, k)); } } }
    std::sort(labels.begin(), labels.end()); labels.erase(std::unique(labels.begin(), labels.end()), labels.end());
    string last; for (auto& a : w.argv) for (auto& p : w.sources) if (path_join(w.cwd, a) == p) last = p;
    Scenario s = scn(w, farther ? "listing-far" : "listing");
    bool ended = false; if (!last.empty()) ended = w.fs[last].str().find(".end\n") != string::npos || w.fs[last].str().find(".end\r") != string::npos;
    if (!labels.empty() && !last.empty() && last == w.sources.back() && !ended) {
        string tab, t = w.fs[last].str(); if (!t.empty() && t.back() != '\n') t += "\n";
        while (labels.size() > (edge ? 40u : 24u)) labels.erase(labels.begin() + c.r.below((int)labels.size()));
        for (auto& l : labels) tab += (tab.empty() ? "" : ",") + l;
        for (size_t i = 0; i < labels.size(); i++) t += "    .word " + labels[i] + "\n";
        fs_file(s.fs, last, t); s.meta["table"] = tab;
        // the same labels in front of everything: every reference sees the same value
        string first = w.cwd.empty() ? "" : w.sources[0]; for (auto& a : w.argv) if (first.empty() || s.fs.count(path_join(w.cwd, a))) { for (auto& p : w.sources) if (p == path_join(w.cwd, a)) { first = p; goto found; } }
        found:
        if (w.single_org && !edge && (moving || c.r.chance(1, 2))) {
            string u = s.fs[first].str(), hd; size_t at = string::npos, q = 0;
            while (q < u.size()) { size_t e = u.find('\n', q); if (e == string::npos) break; string l = u.substr(q, e - q); size_t z = l.find_first_not_of(" \t"); q = e + 1; if (z != string::npos && (l[z] == '*' || strncasecmp(l.c_str() + z, ".org", 4) == 0)) { at = q; break; } if (z == string::npos || l[z] == ';' || l.find(" = ") != string::npos) continue; break; }
            if (at != string::npos && u.find("/*") >= at && u.find("/*") == string::npos) { for (auto& l : labels) hd += "    .word " + l + "\n"; fs_file(s.fs, first, u.substr(0, at) + hd + u.substr(at)); s.meta["head"] = "1"; }
        }
    }
    // storage between the code: it has no bytes in the object, so nothing can follow it without an origin
    if (!edge && !moving && !farther && c.r.chance(1, 10)) {
        string f = c.r.pick(w.sources), u = s.fs[f].str(); vector<size_t> at = tops(u);
        if (!at.empty()) { size_t p = c.r.pick(at); fs_file(s.fs, f, u.substr(0, p) + "    .ds " + std::to_string(c.r.range(1, c.r.chance(1, 2) ? 4 : 40)) + "\n" + u.substr(p)); s.family = "listing-storage"; }
    }
    s.meta["apart"] = "1";
    bool c64 = false; for (auto& t : w.tags) if (t == "c64") c64 = true; if (c64) s.meta["c64"] = "1"; if (w.single_org) s.meta["single-org"] = "1";
    s.meta["noshrink"] = "1";
    const Result& ref = run_ref(s.fs, s.cwd, run0(s).argv); if (!ref.success()) return;
    budget(run0(s), ref);
    if (!c.check(s)) return;
    for (int i = 0; i < 2 && !c.stop; i++) { Scenario q = s; q.family = "listing-environment"; Knobs& k = run0(q).k; io_knobs(c, k); k.heap_fill = (uint32_t)c.r.below(4); k.heap_mode = (uint32_t)c.r.below(4); k.stack_fill = (uint32_t)c.r.below(3); c.check(q); }
    for (int i = 0; i < 2 && !c.stop; i++) { Scenario q = s; q.family = "listing-faults"; Outputs oo = outputs_of(w.argv, w.cwd); Rule x; do x = any_rule(c, w, oo); while (x.op == OP_CRASH); run0(q).rules.push_back(x); c.check(q); }
}

// ================================================================ C15
Verdict j_c15(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; auto& r = rr.r; Outputs o = outputs_of(run.argv, s.cwd);
    auto m = model_eval(rr.before, s.cwd, run.argv); if (!m || o.obj.empty()) return v;
    v.nontrivial = true;
    if (r.hang || r.sig) { orderly(v, r); return v; }
    bool faulty = r.any_fault();
    if (r.success()) {
        if (!m->ok) { v.fail("wrong-file", "exit status 0 although " + m->why); return v; }
        auto it = r.fs.find(o.obj); string got = it == r.fs.end() ? "" : it->second.str();
        if (got != m->obj) v.fail("wrong-file", "a different file was used: " + diff_text(got, m->obj) + " [" + rules_text(run) + "]");
        if (!o.lst.empty() && r.fs.count(o.lst)) {
            // the source text in the listing comes from the same files
            string h = has_arg(run.argv, "-c64") ? m->obj.substr(2) : m->obj; string b; for (auto& x : parse_listing(r.fs.at(o.lst).str())) b += x.bytes;
            if (b != h) v.fail("wrong-file", "the listing shows other bytes: " + diff_text(b, h) + " [" + rules_text(run) + "]");
            const Result& ref = clean_ref(s, rr.before, run.argv); string why;
            if (ref.success() && !same_file(r.fs, ref.fs, o.lst, why)) v.fail("wrong-file", "the listing differs: " + why + " [" + rules_text(run) + "]");
        }
    } else if (!faulty && m->ok) v.fail("not-found", "a program whose files all exist was refused: " + r.outcome() + ", " + show(r.err));
    return v;
}
void x_c15(Ctx& c) {
    Workload w = gen_model(c.r, true, true);
    const Result& ref = run_ref(w.fs, w.cwd, w.argv);
    Scenario base = scn(w, "search"); budget(run0(base), ref);
    { Scenario s = base; if (c.r.chance(1, 2)) io_knobs(c, run0(s).k); if (!c.check(s)) return; }
    vector<string> in = w.sources; for (auto& l : w.loads) in.push_back(l); std::sort(in.begin(), in.end()); in.erase(std::unique(in.begin(), in.end()), in.end());
    int n = c.thorough ? 16 : 10; static const vector<int> er = { EMFILE, ENFILE, ENOMEM, EIO, EINTR, ESTALE, ETIMEDOUT };
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = base; string p = c.r.pick(in);
        int k = c.r.below(8);
        if (k < 5) { s.family = "open-fault"; run0(s).rules.push_back(mkrule(OP_OPEN, p, c.r.range(1, 6), c.r.pick(vector<int>{ 1, 1, -1, 2 }), c.r.pick(er), 2)); }
        else if (k < 6) { s.family = "stat-fault"; run0(s).rules.push_back(mkrule(OP_STAT, p, c.r.range(1, 3), c.r.pick(vector<int>{ 1, -1 }), c.r.pick(er))); }
        else if (k < 7) { s.family = "descriptor-limit"; run0(s).k.nofile = (uint32_t)c.r.range(3, 9); }
        else { s.family = "memory"; run0(s).rules.push_back(mkrule(OP_MALLOC, "*", c.r.range(1, 400), c.r.pick(vector<int>{ 1, -1 }), ENOMEM)); }
        c.check(s);
    }
}

// ================================================================ C16 / C17 : the line-ending converter
const string TREE = "/repo/CMakePasm/samples";
bool textual(const string& d) { for (unsigned char ch : d) if (!(ch >= 32 && ch < 127) && ch != '\r' && ch != '\n') return false; return true; }
bool tabbed(const string& d) { for (unsigned char ch : d) if (!(ch >= 32 && ch < 127) && ch != '\r' && ch != '\n' && ch != '\t') return false; return true; }
// acceptable conversions of a text: other bytes in order, only LF, and between the smallest (pairs in either order are
// one ending) and the largest (only CR LF is one) number of endings in every run
string conv_problem(const string& in, const string& out) {
    size_t i = 0, j = 0;
    auto eol = [](char ch) { return ch == '\r' || ch == '\n'; };
    while (i < in.size() || j < out.size()) {
        if (i < in.size() && !eol(in[i])) { if (j >= out.size() || out[j] != in[i]) return "byte at offset " + std::to_string(i) + " lost or changed"; i++; j++; continue; }
        size_t k = i; while (k < in.size() && eol(in[k])) k++;
        size_t lo = 0, hi = 0;
        for (size_t q = i; q < k;) { lo++; if (q + 1 < k && in[q] != in[q + 1]) q += 2; else q++; }
        for (size_t q = i; q < k;) { hi++; if (q + 1 < k && in[q] == '\r' && in[q + 1] == '\n') q += 2; else q++; }
        size_t n = 0; while (j < out.size() && out[j] == '\n') { n++; j++; }
        if (i == k) return "extra bytes at output offset " + std::to_string(j);
        if (n < std::min(lo, hi) || n > std::max(lo, hi)) return std::to_string(n) + " line ends for the " + std::to_string(hi) + " at offset " + std::to_string(i) + " (" + show(in.substr(i, k - i)) + ")";
        i = k;
    }
    return "";
}
bool consistent(const string& d) { bool lf = false, cr = false, crlf = false, any = false; for (size_t i = 0; i < d.size(); i++) { if (d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n') { crlf = true; i++; any = true; } else if (d[i] == '\r') { cr = any = true; } else if (d[i] == '\n') { lf = any = true; } } return any && lf + cr + crlf == 1; }
size_t lines_of(const string& d) { size_t n = 0; for (size_t i = 0; i < d.size(); i++) { if (d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n') { n++; i++; } else if (d[i] == '\r' || d[i] == '\n') n++; } return n; }

Workload gen_tree(Ctx& c) {
    Workload w; Rng& r = c.r; w.cwd = "/repo/_build/pasm/bin"; w.cwd = "/repo/CMakePasm/eolconvert"; w.argv = { "eolconvert" }; fs_dir(w.fs, w.cwd); fs_dir(w.fs, TREE);
    int nf = r.range(1, 9); static const char* dn[] = { "", "a/", "b/c/", "Commodore/x/", "z z/", "a/deep/er/" };
    for (int i = 0; i < nf; i++) {
        string d; int k = r.below(8); int lines = r.chance(1, 6) ? r.range(80, 700) : r.range(0, 14); bool bin = r.chance(1, 4), tab = !bin && r.chance(1, 6); int only = bin && r.chance(1, 2) ? r.pick(vector<int>{ 0, lines - 1, r.below(lines + 1) }) : -1; if (bin && only >= 0 && r.chance(1, 2)) lines = only + r.range(1, 300), only = r.pick(vector<int>{ only, lines - 1 });   // text but for one line
        for (int l = 0; l < lines; l++) {
            int n = r.chance(1, 4) ? 0 : r.range(1, 40); for (int q = 0; q < n; q++) d += (char)r.range(32, 126);
            if (tab && r.chance(1, 3)) d += '\t'; if (bin && (only < 0 ? r.chance(1, 2) : l == only)) d += (char)r.pick(vector<int>{ 0, 1, 0x80, 0xff, 0x1a, 0xe9, 0x0b });
            switch (k) { case 0: case 1: case 2: d += "\r\n"; break; case 3: case 4: d += "\n"; break; case 5: d += "\r"; break; case 6: d += r.chance(1, 2) ? "\r\n" : "\n"; break; default: d += r.pick(vector<string>{ "\n", "\r\n", "\r", "\r\n", "\n\n", "\r\n\r\n", "\r\r\n", "\n\r\n" }); }
        }
        if (bin && textual(d) && r.chance(3, 4)) d += '\0';
        if (r.chance(1, 3)) d += "last line";
        string nm = TREE + "/" + dn[r.below(6)] + "f" + std::to_string(i) + r.pick(vector<string>{ ".asm", ".txt", ".bin", "", ".inc", ".tmp", ".asm.tmp" });
        fs_file(w.fs, nm, d); w.sources.push_back(nm);
    }
    if (r.chance(1, 3)) fs_dir(w.fs, TREE + "/empty");
    fs_file(w.fs, "/repo/README.md", "read\r\nme\r\n"); fs_file(w.fs, "/repo/CMakePasm/source/main.cc", "int x;\r\n"); fs_file(w.fs, "/repo/CMakePasm/eolconvert/eolconvert.cc", "a\r\nb"); fs_file(w.fs, "/home/u/keep.txt", "k\r\n");
    return w;
}
const FS& converted_ref(const Scenario& s, const FS& f) { static const FS none; const Result& x = run_ref(f, s.cwd, { "eolconvert" }); return x.success() ? x.fs : none; }
bool in_tree(const string& p) { return p.compare(0, TREE.size() + 1, TREE + "/") == 0; }
Verdict j_c16(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    for (auto& rr : e.runs) {
        const FS& conv = converted_ref(s, rr.before); if (fired(rr.r) || rr.r.crashed || rr.r.any_fault()) v.nontrivial = true;
        for (auto& f : rr.before) {
            if (f.second.dir) { if (!rr.r.fs.count(f.first)) v.fail("tree-damaged", "directory " + f.first + " disappeared"); continue; }
            auto it = rr.r.fs.find(f.first);
            string at = rr.r.crashed ? " (killed at " + rr.r.crash_at + ")" : " [" + rules_text(s.steps[rr.step].run) + "]";
            if (it == rr.r.fs.end()) { v.fail(in_tree(f.first) ? "content-lost" : "foreign-write", f.first + " disappeared" + at); continue; }
            if (it->second.str() == f.second.str()) continue;
            if (!in_tree(f.first)) { v.fail("foreign-write", f.first + " was changed"); continue; }
            auto k = conv.find(f.first);
            if (k != conv.end() && k->second.str() == it->second.str()) continue;
            v.fail("content-lost", f.first + " is neither its old nor its converted content: " + diff_text(it->second.str(), f.second.str()) + at);
        }
        for (auto& p : rr.r.touched) if (!in_tree(p)) v.fail("foreign-write", "touched " + p);
        if (rr.r.hang) v.fail("no-termination", rr.r.outcome());
    }
    return v;
}
void x_c16(Ctx& c) {
    Workload w = gen_tree(c); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (!ref.success()) { Scenario s = scn(w, "plain"); c.check(s); return; }
    int n = c.thorough ? 24 : 14; int calls = (int)ref.calls;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, ""); budget(run0(s), ref); io_knobs(c, run0(s).k, false); Run& r = run0(s); r.k.dir_order = (uint32_t)c.r.below(3); if (c.r.chance(1, 8)) r.k.closed = (uint32_t)c.r.range(1, 7); string p = c.r.chance(1, 3) ? string("*") : c.r.pick(w.sources);
        int cnt = c.r.pick(vector<int>{ 1, 1, -1, 2 });
        switch (c.r.below(10)) {
        case 0: s.family = "write-fault"; r.rules.push_back(mkrule(OP_WRITE, p, c.r.range(1, 4), cnt, c.r.pick(E_WRITE), c.r.chance(1, 2) ? c.r.range(1, 60) : 0)); break;
        case 1: s.family = "write-fault-any"; r.rules.push_back(mkrule(OP_WRITE, "*", c.r.range(1, 12), cnt, c.r.pick(E_WRITE), c.r.chance(1, 2) ? c.r.range(1, 60) : 0)); break;
        case 2: s.family = "read-fault"; r.rules.push_back(mkrule(OP_READ, p, c.r.range(1, 5), cnt, c.r.pick(E_READ))); break;
        case 3: s.family = "close-fault"; r.rules.push_back(mkrule(OP_CLOSE, c.r.chance(1, 2) ? p : string("*"), c.r.range(1, 6), cnt, c.r.pick(E_CLOSE), c.r.chance(1, 2) ? -1 : c.r.range(0, 30))); break;
        case 4: s.family = "disk-full"; r.k.quota = c.r.range(0, 400); break;
        case 5: s.family = "open-fault"; r.rules.push_back(mkrule(OP_OPEN, p, c.r.range(1, 4), cnt, c.r.pick(E_OPENW))); break;
        case 6: s.family = "meta-fault"; r.rules.push_back(mkrule(c.r.pick(vector<int>{ OP_RENAME, OP_STAT, OP_READDIR, OP_OPENDIR, OP_UNLINK, OP_SYNC, OP_SEEK, OP_TRUNC }), c.r.chance(1, 2) ? p : string("*"), c.r.range(1, 5), cnt, EIO)); break;
        case 7: s.family = "memory"; r.rules.push_back(mkrule(OP_MALLOC, "*", c.r.range(1, 300), cnt, ENOMEM)); break;
        default: s.family = "killed"; r.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, calls + 4), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52, 92 }))); break;
        }
        if (c.r.chance(1, 4)) { Step again = s.steps[0]; again.run.rules.clear(); if (c.r.chance(1, 2)) again.run.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, calls), 1, 0, 52)); s.steps.push_back(again); }
        c.check(s);
    }
}
Verdict j_c17(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& last = e.runs.back(); if (!last.r.success() || !s.steps[last.step].run.rules.empty()) return v;
    v.nontrivial = true;
    const FS& first = e.runs[0].before;
    for (auto& f : first) {
        if (f.second.dir || !in_tree(f.first)) continue;
        auto it = last.r.fs.find(f.first); if (it == last.r.fs.end()) { v.fail("file-lost", f.first); continue; }
        const string &a = f.second.str(), &b = it->second.str();
        if (!textual(a)) { if (a == b) continue; if (!tabbed(a)) { v.fail("binary-changed", f.first + ": " + diff_text(b, a)); continue; } }
        string why = conv_problem(a, b); if (!why.empty()) { v.fail("content-changed", f.first + ": " + why); continue; }
        if (consistent(a) && lines_of(a) != lines_of(b)) v.fail("line-count", f.first + ": " + std::to_string(lines_of(b)) + " lines instead of " + std::to_string(lines_of(a)));
    }
    if (e.runs.size() >= 2 && s.meta.count("twice")) { auto& p = e.runs[e.runs.size() - 2].r; string why; if (p.success()) for (auto& f : first) if (!f.second.dir && !same_file(last.r.fs, p.fs, f.first, why)) v.fail("not-idempotent", why); }
    FS f0 = first; const FS& conv = converted_ref(s, f0); string why;
    if (!conv.empty()) for (auto& f : first) if (!f.second.dir && !same_file(last.r.fs, conv, f.first, why)) v.fail("environment-dependent", why);
    return v;
}
void x_c17(Ctx& c) {
    Workload w = gen_tree(c); const Result& ref = run_ref(w.fs, w.cwd, w.argv); int calls = (int)ref.calls;
    for (int i = 0; i < 4 && !c.stop; i++) {
        Scenario s = scn(w, "convert"); Run base = run0(s); budget(base, ref); s.steps.clear();
        auto knobs = [&](Run& r) { io_knobs(c, r.k); r.k.dir_order = (uint32_t)c.r.below(3); r.k.dtype_unknown = (uint32_t)c.r.below(2); if (c.r.chance(1, 8)) r.k.closed = (uint32_t)c.r.range(1, 7); if (c.r.chance(1, 3)) { r.k.heap_fill = 2; r.k.heap_mode = (uint32_t)c.r.below(4); r.k.stack_fill = (uint32_t)c.r.below(3); } };
        int nk = i == 0 ? 0 : c.r.below(3); if (nk) s.family = "interrupted";
        for (int k = 0; k < nk; k++) { Step st; st.run = base; knobs(st.run); st.run.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, calls), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52, 92 }))); s.steps.push_back(st); }
        Step a; a.run = base; knobs(a.run); s.steps.push_back(a); if (c.r.chance(2, 3)) { Step b; b.run = base; knobs(b.run); s.steps.push_back(b); s.meta["twice"] = "1"; }
        c.check(s);
    }
}

// ================================================================ C18
Verdict j_c18(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v;
    auto& rr = e.runs.back(); const Run& run = s.steps[rr.step].run; auto& r = rr.r; Outputs o = outputs_of(run.argv, s.cwd);
    v.nontrivial = fired(r) || run.k.closed;
    const Result& ref = run_ref(rr.before, s.cwd, run.argv); if (ref.hang || ref.sig) return v;
    orderly(v, r, false);
    if (r.code != ref.code) v.fail("console-status", "a console failure changed the outcome: " + r.outcome() + " instead of " + ref.outcome() + " [" + rules_text(run) + "]");
    string why; for (auto& p : o.all()) if (!same_file(r.fs, ref.fs, p, why)) v.fail("console-output", "a console failure changed a result: " + why + " [" + rules_text(run) + "]");
    return v;
}
void x_c18(Ctx& c) {
    Workload w = broad(c); if (c.r.chance(1, 3) && !has_arg(w.argv, "-v")) w.argv.insert(w.argv.begin() + 1, "-v");
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return;
    Run pr; pr.argv = w.argv; auto h = probe_hits(w.fs, w.cwd, pr, { { OP_WRITE, "/dev/stdout" }, { OP_WRITE, "/dev/stderr" } });
    int n = c.thorough ? 9 : 6;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, "console"); budget(run0(s), ref); run0(s).k.out_linebuf = (uint32_t)c.r.below(2);
        bool err = h[1] && c.r.chance(1, 2), both = c.r.chance(1, 5);
        auto one = [&](bool e2) { int hits = std::max(1, h[e2]); run0(s).rules.push_back(mkrule(OP_WRITE, e2 ? "/dev/stderr" : "/dev/stdout", c.r.chance(1, 3) ? 1 : c.r.range(1, hits), c.r.pick(vector<int>{ 1, -1, -1, 2 }), c.r.pick(vector<int>{ ENOSPC, EPIPE, EIO, EBADF, EAGAIN, EINTR }), c.r.chance(1, 4) ? c.r.range(1, 20) : 0)); };
        if (c.r.chance(1, 3)) { run0(s).k.closed = (uint32_t)c.r.range(1, 7); if (c.r.chance(1, 4)) one(err); }
        else { one(err); if (both) one(!err); }
        if (c.r.chance(1, 3)) io_knobs(c, run0(s).k);
        c.check(s);
    }
}
#include "equiv.h"
#include "conc.h"
#include "passes.h"
#include "sugar.h"
} // namespace

const vector<Prop> g_props = {
    { "C01", "pasm", "fault_enumeration", 2400, 72000, x_c01, j_c01, "generated programs x write/flush/short-write/full-disk/open/close faults on the object file; non-trivial: a fault was delivered or the run failed" },
    { "C02", "pasm", "fault_enumeration", 2800, 84000, x_c02, j_c02, "generated programs x write/open/close/full-disk faults on symbol, listing and log files; non-trivial: a fault was delivered or the run failed" },
    { "C03", "pasm", "fault_enumeration", 2400, 72000, x_c03, j_c03x, "generated programs x open/read/seek/close faults on sources at calls drawn from the calls really made; non-trivial: a fault was delivered" },
    { "C04", "pasm", "fault_enumeration", 1100, 33000, x_c04, j_c04, "programs with .load against an executable model, x open/seek/read/close faults on the loaded files; non-trivial: the program is in the modelled sublanguage" },
    { "C05", "pasm", "exploration", 6000, 180000, x_c05, j_c05, "programs (correct, erroneous, garbage) run under two segmentations of every read and write stream, and with comments shifting every construct over buffer boundaries; non-trivial: both runs terminated" },
    { "C06", "pasm", "exploration", 5000, 150000, x_c06, j_c06, "programs (correct, erroneous, garbage) run under two memory contents, allocators, environments and clocks; non-trivial: both runs terminated" },
    { "C07", "pasm", "fault_enumeration", 1800, 54000, x_c07, j_c07, "generated programs x refusal of one, several or all later memory requests; non-trivial: a request was refused" },
    { "C08", "pasm", "exploration", 3400, 102000, x_c08, j_c08, "programs x faults x kills with bystander files; non-trivial: a fault or kill was delivered or outputs were requested" },
    { "C09", "pasm", "exploration", 6000, 180000, x_c09, j_c09, "rejected programs, bad command lines and early read/memory faults over previous outputs; non-trivial: the run was refused before code generation" },
    { "C10", "pasm", "exploration", 1800, 54000, x_c10, j_c10, "histories of runs with kills, faults, edits, power loss, ended by an undisturbed run; non-trivial: at least one earlier step or a kill" },
    { "C11", "pasm", "exploration", 4000, 120000, x_c11, j_c11, "endless and garbage programs and permanent faults under a work budget; non-trivial: the run failed or a fault was delivered" },
    { "C12", "pasm", "exploration", 10000, 300000, x_c12, j_c12, "programs with many sequential/nested includes, loads and diagnostics, with and without a descriptor limit; non-trivial: every run" },
    { "C13", "pasm", "exploration", 5500, 165000, x_c13, j_c13, "erroneous, correct and garbage programs, command lines and faults; status against diagnostics; non-trivial: an error, a diagnostic or a fault occurred" },
    { "C14", "pasm", "exploration", 5000, 150000, x_c14, j_c14, "generated programs with full listings; object, listing and symbol file compared in each run; non-trivial: all outputs were produced" },
    { "C15", "pasm", "fault_enumeration", 1200, 36000, x_c15, j_c15, "shadowed names over search directories against an executable model, x open/stat/descriptor/memory faults; non-trivial: the program is in the modelled sublanguage" },
    { "C16", "eol", "fault_enumeration", 2800, 84000, x_c16, j_c16, "file trees x faults and kills of the converter at calls drawn from the calls really made; non-trivial: a fault or kill was delivered" },
    { "C17", "eol", "exploration", 5000, 150000, x_c17, j_c17, "file trees converted once or twice after interruptions, under several enumeration orders and segmentations; non-trivial: a conversion completed" },
    { "C18", "pasm", "fault_enumeration", 2800, 84000, x_c18, j_c18, "programs x write failures on standard output and error; non-trivial: a fault was delivered" },
    { "C19", "pasm", "fault_enumeration", 3000, 90000, x_c19, j_c19, "programs run with different sets and orders of requested outputs, x failures of an additional output; non-trivial: both runs terminated" },
    { "C20", "pasm", "exploration", 2500, 75000, x_c20, j_c20, "programs divided differently over inputs, included files and command-line definitions; non-trivial: both runs terminated" },
    { "C21", "pasm", "exploration", 6000, 180000, x_c21, j_c21, "correct programs with one to six wrong statements inserted, long lines, any segmentation; positions and quotations of every diagnostic; non-trivial: a diagnostic was issued" },
    { "C22", "pasm", "exploration", 3000, 90000, x_c22, j_c22, "programs with inactive text inserted (comments, skipped and untaken conditionals, dead file names that cannot be opened); non-trivial: both runs terminated" },
    { "C23", "pasm", "exploration", 5000, 150000, x_c23, j_c23, "programs with names exchanged, letter case changed, local labels replaced by named ones; non-trivial: both runs terminated" },
    { "C24", "pasm", "exploration", 5000, 150000, x_c24, j_c24, "programs with marked statements of known bytes and long lines; text and bytes of every listing row; non-trivial: a listing was produced" },
    { "C25", "mix", "exploration", 2000, 60000, x_c25, j_c25, "two or three assemblies at the same time over common sources x seeded interleavings of their system calls, faults and kills of one of them; non-trivial: an undisturbed run ended beside another" },
    { "C26", "mix", "exploration", 2000, 60000, x_c26, j_c26, "two or three conversions, or conversions and an assembly of the converted sources, at the same time x seeded interleavings, faults, kills and machine stops; non-trivial: an undisturbed run ended beside another" },
    { "C27", "pasm", "exploration", 4000, 120000, x_c27, j_c27, "programs assembled again with chains of forward definitions that make them take 1-13 passes more, x environments and read faults in any pass; non-trivial: both runs ended" },
    { "C28", "pasm", "exploration", 4000, 120000, x_c28, j_c28, "programs of macros, nested loops, conditionals, variables, data directives, expressions and local labels against the same program written out by an interpreter, x environments and read faults; non-trivial: both runs ended" },
};
const Prop* find_prop(const string& id) { for (auto& p : g_props) if (id == p.id) return &p; return nullptr; }
}
