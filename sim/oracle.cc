#include "oracle.h"
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>

namespace vsim {

Ctx::Ctx(const Prop* p, uint64_t s, uint64_t i, bool t) : prop(p), seed(s), index(i), thorough(t), r(mix(mix(s, 0x9a5), i)) {}

// power loss: every file written since its last sync may be old, empty, cut, or have a zeroed tail
static void power_loss(FS& fs, const FS& before, uint64_t seed) {
    Rng r(seed);
    vector<string> w;
    for (auto& e : fs) if (!e.second.dir && e.second.written && !e.second.synced) w.push_back(e.first);
    for (auto& p : w) {
        auto it = before.find(p);
        string d = fs[p].str();
        switch (r.below(6)) {
        case 0: if (it == before.end()) fs.erase(p); else fs[p].data = it->second.data; break;
        case 1: fs[p].data = std::make_shared<const string>(); break;
        case 2: fs[p].data = std::make_shared<const string>(d.substr(0, (size_t)r.below((int)d.size() + 1))); break;
        case 3: { size_t k = (size_t)r.below((int)d.size() + 1); fs[p].data = std::make_shared<const string>(d.substr(0, k) + string(d.size() - k, '\0')); break; }
        case 4: { string x = d; for (int i = 0; i < 3 && !x.empty(); i++) x[(size_t)r.below((int)x.size())] ^= (char)r.range(1, 255); fs[p].data = std::make_shared<const string>(x); break; }
        default: break;
        }
    }
}

Exec execute(const Scenario& s) {
    Exec e; FS fs = s.fs; FS prev = fs; uint64_t h = 0x1234;
    for (size_t i = 0; i < s.steps.size(); i++) {
        auto& st = s.steps[i];
        if (st.kind == Step::PUT) fs_file(fs, st.path, st.data);
        else if (st.kind == Step::DEL) fs.erase(st.path);
        else if (st.kind == Step::LOSS) power_loss(fs, prev, st.seed);
        else {
            prev = fs;
            if (st.group) {
                vector<const Run*> v; size_t j = i;
                for (; j < s.steps.size() && s.steps[j].kind == Step::RUN && s.steps[j].group == st.group; j++) v.push_back(&s.steps[j].run);
                if (v.size() > 1 && v.size() <= MAXPROC) {
                    auto rs = run_many(fs, s.cwd, v, st.sched);
                    fs = rs[0].fs;
                    for (size_t k = 0; k < rs.size(); k++) { h = mix(h, result_hash(rs[k])); e.runs.push_back({ std::move(rs[k]), prev, i + k }); }
                    i = j - 1; continue;
                }
            }
            Result r = run_once(fs, s.cwd, st.run);
            fs = r.fs; h = mix(h, result_hash(r));
            e.runs.push_back({ std::move(r), prev, i });
        }
    }
    e.final = fs; e.hash = mix(h, fs_hash(fs));
    return e;
}

string describe(const Scenario& s, const Exec& e) {
    string o = "family " + s.family;
    for (auto& rr : e.runs) {
        auto& run = s.steps[rr.step].run; o += " | $";
        for (auto& a : run.argv) o += " " + a;
        for (auto& x : run.rules) { char b[360]; snprintf(b, sizeof b, " [%s %s #%d%s %s]", op_names[x.op], x.path, x.nth, x.count < 0 ? "+" : "", x.op == OP_CRASH ? "" : errno_name(x.err).c_str()); o += b; }
        char b[200]; auto& k = run.k; snprintf(b, sizeof b, " {buf %u rd %u wr %u heap %u/%u quota %lld}", k.bufsize, k.read_chunk, k.write_chunk, k.heap_mode, k.heap_fill, (long long)k.quota); o += b;
        o += " -> " + rr.r.outcome();
    }
    string src; for (auto& f : s.fs) if (!f.second.dir && (f.first.find(".s") != string::npos || f.first.find(".asm") != string::npos || s.target == "eol")) { src = f.first + ": " + show(f.second.str(), 300); break; }
    return o + " | " + src;
}

bool Ctx::check(Scenario& s) {
    if (stop) return false;
    s.prop = prop->id; s.target = prop->target;
    g_stats.scenarios++;
    Exec e; Verdict x = prop->judge(s, e);
    digest = mix(digest, e.hash);
    if (x.nontrivial && samples.size() < 2) samples.push_back(describe(s, e));
    if (x.nontrivial) g_stats.nontrivial_set.insert(e.hash ^ mix(e.hash, fs_hash(s.fs)));
    if (!x.bad) return true;
    if (known) for (auto& k : *known) if (k.prop == prop->id && k.cls == x.cls && (k.match.empty() || x.detail.find(k.match) != string::npos)) { probe("known-finding:" + k.text); return true; }
    stop = true; bad = s; v = x; bad.violation = x.cls + ": " + x.detail;
    char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)e.hash); bad.hash = b;
    return false;
}

// ---------------------------------------------------------------- minimisation
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

Scenario minimise(const Prop& p, const Scenario& s0, const string& cls, double seconds) {
    Scenario cur = s0; double end = now() + seconds; int left = 1500;
    auto still = [&](const Scenario& c) {
        if (left-- <= 0 || now() > end) return false;
        Exec e; Verdict v = p.judge(c, e); return v.bad && v.cls == cls;
    };
    bool shrink_files = !cur.meta.count("noshrink");
    for (int round = 0; round < 3; round++) {
        string before = serialise(cur);
        if (!cur.meta.count("nosteps")) for (size_t i = cur.steps.size(); i-- > 0;) { if (cur.steps.size() == 1) break; Scenario c = cur; c.steps.erase(c.steps.begin() + (long)i); if (still(c)) cur = c; }
        for (size_t i = 0; i < cur.steps.size(); i++) {
            if (cur.steps[i].kind != Step::RUN) continue;
            for (size_t chunk = std::max<size_t>(1, cur.steps[i].sched.size() / 2); !cur.steps[i].sched.empty(); chunk /= 2) {
                for (size_t at = 0; at < cur.steps[i].sched.size();) { Scenario c = cur; auto& v = c.steps[i].sched; v.erase(v.begin() + (long)at, v.begin() + (long)std::min(at + chunk, v.size())); if (still(c)) cur = c; else at += chunk; if (left <= 0 || now() > end) break; }
                if (chunk <= 1 || left <= 0 || now() > end) break;
            }
            for (size_t k = cur.steps[i].run.rules.size(); k-- > 0;) { Scenario c = cur; auto& v = c.steps[i].run.rules; v.erase(v.begin() + (long)k); if (still(c)) cur = c; }
            { Scenario c = cur; Knobs d = Run().k; uint64_t sd = c.steps[i].run.k.seed; c.steps[i].run.k = d; c.steps[i].run.k.seed = sd; if (still(c)) cur = c;
              else {
                  auto tryk = [&](auto m) { Scenario c2 = cur; if (c2.steps[i].run.k.*m == d.*m) return; c2.steps[i].run.k.*m = d.*m; if (still(c2)) cur = c2; };
                  for (auto m : { &Knobs::read_chunk, &Knobs::read_rand, &Knobs::write_chunk, &Knobs::write_rand, &Knobs::bufsize, &Knobs::heap_mode, &Knobs::heap_fill, &Knobs::free_fill, &Knobs::stack_fill, &Knobs::heap_pad, &Knobs::realloc_move, &Knobs::env_mode, &Knobs::nofile, &Knobs::dir_order, &Knobs::dtype_unknown, &Knobs::out_linebuf, &Knobs::closed }) tryk(m);
                  tryk(&Knobs::epoch); tryk(&Knobs::quota); tryk(&Knobs::seed);
              } }
            for (size_t k = 0; k < cur.steps[i].run.rules.size(); k++) {
                if (cur.steps[i].run.rules[k].count != 1) { Scenario c = cur; c.steps[i].run.rules[k].count = 1; if (still(c)) cur = c; }
                if (cur.steps[i].run.rules[k].nth > 1) { Scenario c = cur; c.steps[i].run.rules[k].nth = 1; if (still(c)) cur = c; }
            }
            if (shrink_files) for (size_t k = cur.steps[i].run.argv.size(); k-- > 1;) {
                Scenario c = cur; auto& a = c.steps[i].run.argv; if (k >= a.size()) continue; a.erase(a.begin() + (long)k);
                if (still(c)) { cur = c; continue; }
                c = cur; auto& b = c.steps[i].run.argv; if (k + 1 < b.size() && b[k][0] == '-') { b.erase(b.begin() + (long)k, b.begin() + (long)k + 2); if (still(c)) cur = c; }
            }
        }
        if (shrink_files) {
            vector<string> paths; for (auto& e : cur.fs) paths.push_back(e.first);
            for (auto& f : paths) { Scenario c = cur; c.fs.erase(f); if (still(c)) cur = c; }
            for (auto& f : paths) {
                if (!cur.fs.count(f) || cur.fs[f].dir) continue;
                // remove chunks of lines (or of bytes for a file with few lines)
                auto pieces = [&](const string& d) { vector<string> v; size_t i = 0; while (i < d.size()) { size_t j = d.find('\n', i); size_t n = j == string::npos ? d.size() - i : j + 1 - i; if (n > 400) n = 64; v.push_back(d.substr(i, n)); i += n; } return v; };
                vector<string> v = pieces(cur.fs[f].str());
                for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
                    for (size_t at = 0; at < v.size();) {
                        size_t n = std::min(chunk, v.size() - at);
                        vector<string> w(v.begin(), v.begin() + (long)at); w.insert(w.end(), v.begin() + (long)(at + n), v.end());
                        string d; for (auto& x : w) d += x;
                        Scenario c = cur; c.fs[f].data = std::make_shared<const string>(d);
                        if (still(c)) { cur = c; v = w; } else at += n;
                        if (left <= 0 || now() > end) break;
                    }
                    if (chunk <= 1 || left <= 0 || now() > end) break;
                }
            }
        }
        if (serialise(cur) == before || left <= 0 || now() > end) break;
    }
    Exec e; Verdict v = p.judge(cur, e);
    if (!v.bad) return s0;
    cur.violation = v.cls + ": " + v.detail;
    char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)e.hash); cur.hash = b;
    return cur;
}

// ---------------------------------------------------------------- helpers
string show(const string& s, size_t max) {
    string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = (unsigned char)s[i]; if (c == '\n') o += "\\n"; else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    o += "\""; if (s.size() > max) o += "...";
    return o;
}
string diff_text(const string& got, const string& want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    char b[200]; snprintf(b, sizeof b, "%zu bytes instead of %zu, first difference at offset %zu", got.size(), want.size(), i);
    size_t a = i > 12 ? i - 12 : 0;
    return string(b) + " (" + show(got.substr(a, 40), 40) + " instead of " + show(want.substr(a, 40), 40) + ")";
}
void orderly(Verdict& v, const Result& r, bool need_diag) {
    if (r.hang) v.fail("no-termination", "the run did not end within its budget (" + std::to_string(r.steps) + " blocks, " + std::to_string(r.calls) + " system calls)");
    else if (r.crashed) return;
    else if (r.sig) v.fail("signal", r.outcome());
    else if (r.code != 0 && need_diag && r.err.empty()) v.fail("silent-failure", r.outcome() + " with nothing on standard error");
}
bool same_file(const FS& a, const FS& b, const string& p, string& why) {
    auto x = a.find(p), y = b.find(p);
    if (x == a.end() && y == b.end()) return true;
    if (x == a.end()) { why = p + " is missing"; return false; }
    if (y == b.end()) { why = p + " exists but should not"; return false; }
    if (x->second.dir != y->second.dir) { why = p + " changed type"; return false; }
    if (x->second.dir || x->second.data == y->second.data || x->second.str() == y->second.str()) return true;
    why = p + ": " + diff_text(x->second.str(), y->second.str()); return false;
}
FS clean_inputs(const FS& fs, const Outputs& o) {
    FS c = fs;
    for (auto& p : o.all()) {
        auto it = c.find(p); if (it != c.end()) { string pre = p + "/"; for (auto j = c.begin(); j != c.end();) { if (j->first == p || j->first.compare(0, pre.size(), pre) == 0) j = c.erase(j); else ++j; } }
        size_t s = p.rfind('/'); if (s != string::npos && s) fs_dir(c, p.substr(0, s));
    }
    for (auto& e : c) e.second.noperm = 0;
    return c;
}
vector<int> probe_hits(const FS& fs, const string& cwd, const Run& base, const vector<std::pair<int, string>>& what) {
    vector<int> out;
    for (size_t i = 0; i < what.size(); i += 20) {
        Run r = base; r.rules.clear();
        for (size_t j = i; j < what.size() && j < i + 20; j++) r.rules.push_back(mkrule(what[j].first, what[j].second, 1 << 30, 1, EIO, what[j].first == OP_OPEN ? 0 : -1));
        Result x = run_once(fs, cwd, r);
        for (int h : x.rule_hits) out.push_back(h);
    }
    return out;
}

// ---------------------------------------------------------------- model of the sublanguage
static bool resolve(const FS& fs, const string& cwd, const vector<string>& dirs, const string& name, string& abs) {
    auto there = [&](const string& p) { auto it = fs.find(p); return it != fs.end(); };
    abs = path_join(cwd, name); if (there(abs)) return true;
    for (auto& d : dirs) { abs = path_join(cwd, d + name); if (there(abs)) return true; }
    return false;
}
namespace {
struct Model {
    const FS& fs; string cwd; vector<string> dirs; ModelOut out; bool unsupported = false; int org = -1; bool c64 = false;
    vector<std::pair<size_t, string>> fix;
    int depth = 0;
    void file(const string& name) {
        string abs; if (depth > 12) { unsupported = true; return; }
        if (!resolve(fs, cwd, dirs, name, abs)) { if (out.ok) { out.ok = false; out.why = "missing " + name; } return; }
        auto& e = fs.at(abs); if (e.dir || e.noperm & 1) { if (out.ok) { out.ok = false; out.why = "unreadable " + name; } return; }
        depth++;
        const string& t = e.str(); size_t i = 0;
        while (i < t.size() && !unsupported) {
            size_t j = t.find('\n', i); if (j == string::npos) j = t.size();
            string l = t.substr(i, j - i); i = j + 1;
            if (!l.empty() && l.back() == '\r') l.pop_back();
            line(l);
        }
        depth--;
    }
    void line(const string& l0) {
        if (l0.empty() || l0[0] == ';') return;
        if (l0[0] != ' ') { for (char c : l0) if (!isalnum((unsigned char)c)) { unsupported = true; return; } if (l0.size() < 2 || l0.compare(0, 2, "Lb") != 0 || out.labels.count(l0)) { unsupported = true; return; } if (org < 0) { unsupported = true; return; } out.labels[l0] = org + (int)out.obj.size(); return; }
        size_t a = l0.find_first_not_of(' '); if (a == string::npos) return;
        string l = l0.substr(a); size_t sp = l.find(' '); string w = l.substr(0, sp), rest = sp == string::npos ? "" : l.substr(sp + 1);
        if (w == "*=") { if (org >= 0 || rest.size() < 2 || rest[0] != '$') { unsupported = true; return; } org = (int)strtol(rest.c_str() + 1, nullptr, 16); return; }
        if (org < 0 && w != ".inc") { unsupported = true; return; }
        if (w == ".byte") { size_t p = 0; while (p <= rest.size()) { size_t q = rest.find(',', p); if (q == string::npos) q = rest.size(); string n = rest.substr(p, q - p); if (n.empty() || n.find_first_not_of("0123456789") != string::npos || atoi(n.c_str()) > 255) { unsupported = true; return; } out.obj += (char)atoi(n.c_str()); p = q + 1; } return; }
        if (w == ".word") { if (rest.compare(0, 2, "Lb") != 0) { unsupported = true; return; } fix.push_back({ out.obj.size(), rest }); out.obj += string(2, '\0'); return; }
        if ((w == ".load" || w == ".inc") && rest.size() > 2 && rest[0] == '"' && rest.back() == '"') {
            string n = rest.substr(1, rest.size() - 2);
            if (w == ".inc") { file(n); return; }
            string abs; if (!resolve(fs, cwd, dirs, n, abs)) { if (out.ok) { out.ok = false; out.why = "missing " + n; } return; }
            auto& e = fs.at(abs); if (e.dir || e.noperm & 1) { if (out.ok) { out.ok = false; out.why = "unreadable " + n; } return; }
            out.obj += e.str(); return;
        }
        unsupported = true;
    }
};
}
std::optional<ModelOut> model_eval(const FS& fs, const string& cwd, const vector<string>& argv) {
    Model m{ fs, cwd, {}, {} };
    vector<string> in;
    for (size_t i = 1; i < argv.size(); i++) {
        auto is = [&](const char* n) { return strcasecmp(argv[i].c_str(), n) == 0; };
        if (is("-dir") && i + 1 < argv.size()) { const string& d = argv[++i]; size_t p = 0; while (p < d.size()) { size_t q = d.find(';', p); if (q == string::npos) q = d.size(); m.dirs.push_back(d.substr(p, q - p)); p = q + 1; while (p < d.size() && d[p] == ' ') p++; } }
        else if (is("-o") || is("-s") || is("-l") || is("-log")) { if (++i >= argv.size()) return {}; }
        else if (is("-c64")) m.c64 = true;
        else if (is("-nowarn") || is("-v")) {}
        else if (argv[i][0] == '-') return {};
        else in.push_back(argv[i]);
    }
    if (in.empty()) return {};
    for (auto& f : in) m.file(f);
    if (m.unsupported) return {};
    if (m.out.ok) {
        if (m.org < 0 || m.org + (int)m.out.obj.size() > 65535 || m.out.obj.empty()) return {};
        for (auto& f : m.fix) { auto it = m.out.labels.find(f.second); if (it == m.out.labels.end()) return {}; m.out.obj[f.first] = (char)(it->second & 255); m.out.obj[f.first + 1] = (char)(it->second >> 8); }
        if (m.c64) m.out.obj = string() + (char)(m.org & 255) + (char)(m.org >> 8) + m.out.obj;
    }
    return m.out;
}

Workload gen_model(Rng& r, bool loads, bool shadows) {
    Workload w; w.cwd = r.chance(1, 4) ? "/home/p" : "/w"; fs_dir(w.fs, w.cwd);
    vector<string> dirs; static const char* dn[] = { "lib/", "/opt/a/", "../sh/", "x y/", "d1/d2/", "./e/", "pre", "d1/pre", "lib" };
    int nd = r.below(shadows ? 4 : 3); if (shadows) nd++;
    for (int i = 0; i < nd; i++) { string d = dn[r.chance(1, 6) ? 6 + r.below(3) : r.below(6)]; if (std::find(dirs.begin(), dirs.end(), d) == dirs.end()) { dirs.push_back(d); if (d.back() == '/') fs_dir(w.fs, path_join(w.cwd, d)); } }
    w.argv = { "pasm" };
    if (!dirs.empty()) { string d; for (auto& x : dirs) { if (!d.empty()) d += r.chance(1, 4) ? "; " : ";"; d += x; } if (r.chance(1, 12)) d += ";"; w.argv.push_back("-dir"); w.argv.push_back(d); }
    if (r.chance(1, 2)) w.argv.push_back("-c64");
    int nl = 0, nf = 0; vector<string> labels;
    vector<string> names; std::set<string> used;
    // a name for the next file: now and then one that is easily confused with another (same name in another directory, other case, common beginning)
    auto fresh = [&](const string& stem, const string& ext) {
        string n = stem + std::to_string(nf++) + ext;
        static const char* sub[] = { "s1/", "s2/", "s1/s2/", "../up/", "./" };
        if (!names.empty() && r.chance(1, 4)) {
            string o = r.pick(names), base = o.substr(o.rfind('/') == string::npos ? 0 : o.rfind('/') + 1);
            switch (r.below(4)) {
            case 0: case 1: n = sub[r.below(5)] + base; break;
            case 2: for (auto& ch : base) ch = (char)(islower((unsigned char)ch) ? toupper(ch) : tolower(ch)); n = base; break;
            default: n = base + (r.chance(1, 2) ? "2" : ".x");
            }
        } else if (r.chance(1, 6)) n = sub[r.below(5)] + n;
        else if (r.chance(1, 12)) n = "/abs/" + n;
        if (!used.insert(path_join(w.cwd, n)).second) { n = stem + std::to_string(nf++) + ext; used.insert(path_join(w.cwd, n)); }
        names.push_back(n); return n;
    };
    auto put = [&](const string& name, const string& text) {
        // the file goes to one candidate place; a shadowed name also exists, with other content, in later places
        vector<string> places = { "" }; if (name[0] != '/') for (auto& d : dirs) places.push_back(d);
        size_t at = (size_t)r.below((int)places.size());
        string abs = path_join(w.cwd, places[at] + name);
        fs_file(w.fs, abs, text);
        if (shadows) for (size_t k = at + 1; k < places.size(); k++) if (r.chance(2, 3)) {
            string o = path_join(w.cwd, places[k] + name); if (w.fs.count(o)) continue;
            string alt; if (text.find("    ") == string::npos) { alt = random_bytes(r, (int)text.size()); if (r.chance(1, 2)) alt += 'z'; } else alt = text + "    .byte 222\n";
            if (text.find("*=") != string::npos) alt = text + "    .byte 221\n";
            fs_file(w.fs, o, alt);
        }
        return abs;
    };
    std::function<string(int, int)> body = [&](int n, int depth) {
        string t;
        while (n-- > 0) {
            int k = r.below(10);
            if (k < 3) { t += "    .byte "; int c = r.range(1, 12); for (int i = 0; i < c; i++) t += (i ? "," : "") + std::to_string(r.below(256)); t += "\n"; }
            else if (k < 5) { string l = "Lb" + std::to_string(nl++); labels.push_back(l); t += l + "\n"; t += "    .byte " + std::to_string(r.below(256)) + "\n"; }
            else if (k < 6 && !labels.empty()) t += "    .word " + r.pick(labels) + "\n";
            else if (k < 8 && loads) {
                int len = r.chance(1, 8) ? 0 : r.chance(1, 4) ? r.range(1, 3) : r.chance(1, 10) ? r.pick(vector<int>{ 4095, 4096, 4097, 5000, 1023, 1025, 1024 }) : r.range(1, 200);
                string d = random_bytes(r, len); if (!d.empty() && r.chance(1, 4)) d.back() = (char)0xff; if (!d.empty() && r.chance(1, 6)) d[0] = (char)0xff;
                if (d.find("    ") != string::npos) d = string((size_t)len, 'q');
                string nm = fresh("b", r.chance(1, 2) ? ".bin" : ".prg");
                w.loads.push_back(put(nm, d)); t += "    .load \"" + nm + "\"\n";
                if (r.chance(1, 5)) { t += "    .byte 17\n    .load \"" + nm + "\"\n"; }
            }
            else if (k < 9 && depth < 3) { string nm = fresh("i", ".inc"); string b = body(r.range(1, 4), depth + 1); if (b.empty()) b = "    .byte 1\n"; w.depth = std::max(w.depth, depth + 1); w.sources.push_back(put(nm, b)); t += "    .inc \"" + nm + "\"\n"; }
            else t += "; filler " + string((size_t)r.below(90), '.') + "\n";
        }
        return t;
    };
    int org = r.pick(vector<int>{ 0x801, 0x1000, 0x2000, 0x4321, 0xc000 });
    char b[64]; snprintf(b, sizeof b, "    *= $%04x\n", org);
    string t = string("; model\n") + b + body(r.range(2, 14), 0) + "    .byte 99\n";
    w.sources.push_back(put("main.asm", t));
    vector<string> ins = { "main.asm" };
    if (r.chance(1, 4)) { string t2 = body(r.range(1, 5), 0) + "    .byte 98\n"; w.sources.push_back(put("second.asm", t2)); ins.push_back("second.asm"); }
    w.argv.push_back("-o"); w.argv.push_back("out.bin");
    if (r.chance(1, 2)) { w.argv.push_back("-l"); w.argv.push_back("out.lst"); }
    if (r.chance(1, 2)) { w.argv.push_back("-s"); w.argv.push_back("out.sym"); }
    for (auto& i : ins) w.argv.push_back(i);
    // files of the same names where nothing is searched: beside the files that name them, without their directory, in other case
    if (shadows) {
        vector<string> where = { path_join(w.cwd, "zz") }; for (auto& p : w.sources) where.push_back(p); for (auto& d : dirs) where.push_back(path_join(w.cwd, d + "zz"));
        std::set<string> searched; for (auto& n : names) { searched.insert(path_join(w.cwd, n)); if (n[0] != '/') for (auto& d : dirs) searched.insert(path_join(w.cwd, d + n)); }
        for (auto& n : names) for (auto& p : where) if (r.chance(1, 3)) {
            string m = n; if (r.chance(1, 3)) m = m.substr(m.rfind('/') == string::npos ? 0 : m.rfind('/') + 1); if (r.chance(1, 6)) for (auto& ch : m) ch = (char)toupper((unsigned char)ch); if (m[0] == '/') m = m.substr(1);
            string o = path_join(p.substr(0, p.rfind('/') + 1), m); if (searched.count(o) || w.fs.count(o)) continue;
            fs_file(w.fs, o, "    .byte 220\n"); }
    }
    return w;
}

// ---------------------------------------------------------------- listing
vector<ListItem> parse_listing(const string& t) {
    vector<ListItem> v; size_t i = 0;
    auto hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); };
    while (i < t.size()) {
        size_t j = t.find('\n', i); if (j == string::npos) j = t.size();
        string l = t.substr(i, j - i); i = j + 1;
        if (l.size() < 6 || l[0] != '$' || !hex(l[1]) || !hex(l[2]) || !hex(l[3]) || !hex(l[4]) || l[5] != ':') continue;
        ListItem it; it.addr = (unsigned)strtoul(l.substr(1, 4).c_str(), nullptr, 16);
        size_t k = 6; while (k + 3 < l.size() + 0 && l[k] == ' ' && l[k + 1] == '$' && hex(l[k + 2]) && hex(l[k + 3])) { it.bytes += (char)strtoul(l.substr(k + 2, 2).c_str(), nullptr, 16); k += 4; }
        v.push_back(it);
    }
    return v;
}
map<string, unsigned> parse_symbols(const string& t) {
    map<string, unsigned> m; size_t i = 0;
    vector<string> tok;
    while (i < t.size()) { size_t a = t.find_first_not_of(" \n\r\t", i); if (a == string::npos) break; size_t b = t.find_first_of(" \n\r\t", a); if (b == string::npos) b = t.size(); tok.push_back(t.substr(a, b - a)); i = b; }
    for (size_t k = 0; k + 1 < tok.size(); k += 2) if (tok[k + 1][0] == '$') m[tok[k]] = (unsigned)strtoul(tok[k + 1].c_str() + 1, nullptr, 16);
    return m;
}
}
