// Command line of the simulator: check <property>, replay <file>, digest, list.
#include "oracle.h"
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace vsim;

static string self_path, root;   // /proc/self/exe, /verif
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const string& p, const string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), (long)d.size()); f.close(); if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(2); } }
static uint64_t envnum(const char* n, uint64_t d) { const char* v = getenv(n); return v && *v ? strtoull(v, nullptr, 10) : d; }

struct Share { std::atomic<uint64_t> best; std::atomic<uint64_t> done; uint64_t dig[2][16]; uint8_t have[2][16]; };

static string jstr(const string& s) {
    string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}

// ---------------------------------------------------------------- known findings
struct Finding { Known k; string replay, line; };
static vector<Finding> load_findings() {
    vector<Finding> v; std::ifstream f(root + "/known_findings.txt"); string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 8, "finding:") != 0) continue;     // "fixed:" lines and comments suppress nothing
        Finding x; auto get = [&](const char* key) { size_t p = l.find(string(" ") + key + "="); if (p == string::npos) return string(); p += strlen(key) + 2; if (p < l.size() && l[p] == '"') { size_t q = l.find('"', p + 1); return l.substr(p + 1, q - p - 1); } size_t q = l.find(' ', p); return l.substr(p, q == string::npos ? q : q - p); };
        x.k.prop = get("property"); x.k.cls = get("class"); x.k.match = get("match"); x.k.text = get("text"); x.replay = get("replay"); v.push_back(x);
    }
    return v;
}

// ---------------------------------------------------------------- worker
static void put_stats(FILE* f, const vector<string>& samples, uint64_t cases) {
    Stats& S = g_stats;
    fprintf(f, "n %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)cases, (unsigned long long)S.runs, (unsigned long long)S.refs, (unsigned long long)S.steps, (unsigned long long)S.calls, (unsigned long long)S.simtime_ns, (unsigned long long)S.scenarios, (unsigned long long)S.crashes, (unsigned long long)S.hangs, (unsigned long long)S.signals, (unsigned long long)S.ok, (unsigned long long)S.failed, (unsigned long long)S.short_reads, (unsigned long long)S.short_writes, (unsigned long long)S.emfile, (unsigned long long)S.enospc);
    for (int i = 0; i < OP_MAX; i++) fprintf(f, "f %d %llu\n", i, (unsigned long long)S.fired[i]);
    for (auto& e : S.errnos) fprintf(f, "e %llu %s\n", (unsigned long long)e.second, e.first.c_str());
    for (auto& e : S.probes) fprintf(f, "p %llu %s\n", (unsigned long long)e.second, e.first.c_str());
    for (auto h : S.nontrivial_set) fprintf(f, "t %llx\n", (unsigned long long)h);
    for (auto h : S.traces) fprintf(f, "h %llx\n", (unsigned long long)h);
    for (auto h : S.outcomes) fprintf(f, "o %llx\n", (unsigned long long)h);
    for (size_t i = 0; i < S.cov.size(); i++) if (S.cov[i]) fprintf(f, "c %zu\n", i);
    for (auto& s : samples) { string t = s; for (auto& c : t) if (c == '\n') c = ' '; fprintf(f, "s %s\n", t.c_str()); }
}
static void get_stats(const string& path, vector<string>& samples, uint64_t& cases) {
    Stats& S = g_stats; std::ifstream f(path); string l; if (S.cov.empty()) S.cov.resize(COVBITS);
    while (std::getline(f, l)) {
        const char* p = l.c_str() + 2;
        switch (l[0]) {
        case 'n': { unsigned long long v[16] = {}; sscanf(p, "%llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10, v + 11, v + 12, v + 13, v + 14, v + 15);
            cases += v[0]; S.runs += v[1]; S.refs += v[2]; S.steps += v[3]; S.calls += v[4]; S.simtime_ns += v[5]; S.scenarios += v[6]; S.crashes += v[7]; S.hangs += v[8]; S.signals += v[9]; S.ok += v[10]; S.failed += v[11]; S.short_reads += v[12]; S.short_writes += v[13]; S.emfile += v[14]; S.enospc += v[15]; break; }
        case 'f': { int i; unsigned long long n; if (sscanf(p, "%d %llu", &i, &n) == 2) S.fired[i] += n; break; }
        case 'e': case 'p': { char* q; uint64_t n = strtoull(p, &q, 10); (l[0] == 'e' ? S.errnos : S.probes)[q + 1] += n; break; }
        case 't': S.nontrivial_set.insert(strtoull(p, nullptr, 16)); break;
        case 'h': S.traces.insert(strtoull(p, nullptr, 16)); break;
        case 'o': S.outcomes.insert(strtoull(p, nullptr, 16)); break;
        case 'c': S.cov[strtoull(p, nullptr, 10) & (COVBITS - 1)] = 1; break;
        case 's': if (samples.size() < 12) samples.push_back(p); break;
        }
    }
}

static int replay(const string& file, bool quiet) {
    Scenario s; string err; if (!parse_scenario(slurp(file), s, err)) { fprintf(stderr, "%s: %s\n", file.c_str(), err.c_str()); return 2; }
    const Prop* p = find_prop(s.prop); if (!p) { fprintf(stderr, "unknown property %s\n", s.prop.c_str()); return 2; }
    Exec e; Verdict v = p->judge(s, e);
    char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)e.hash);
    if (!quiet) {
        for (auto& rr : e.runs) { printf("$"); for (auto& a : s.steps[rr.step].run.argv) printf(" %s", a.c_str()); printf("\n  -> %s\n", rr.r.outcome().c_str()); if (!rr.r.out.empty()) printf("  stdout: %s\n", show(rr.r.out, 600).c_str()); if (!rr.r.err.empty()) printf("  stderr: %s\n", show(rr.r.err, 600).c_str()); }
        printf("recorded: %s (history %s)\nnow:      %s (history %s)\n", s.violation.c_str(), s.hash.c_str(), v.bad ? (v.cls + ": " + v.detail).c_str() : "no violation", h);
    }
    if (!v.bad) return 0;
    if (s.hash != h && !quiet) printf("NOTE: the history differs from the recorded one (the code under test changed)\n");
    if (quiet && s.hash != h) return 3;
    return 1;
}

static int check(const Prop& p, bool thorough, uint64_t seed) {
    double t0 = now();
    int W = (int)envnum("VERIF_WORKERS", 8); uint64_t N = envnum("VERIF_N", thorough ? p.thorough_n : p.quick_n); uint64_t first = envnum("VERIF_FIRST", 0);
    double cap = (double)envnum("VERIF_WALL", thorough ? 800 : 240);
    bool all = getenv("VERIF_ALL") != nullptr;            // development: list every violating case instead of stopping at the first
    auto findings = load_findings(); vector<Known> known; int nk = 0;
    for (auto& f : findings) if (f.k.prop == p.id) {
        known.push_back(f.k);
        Scenario s; string err; if (!f.replay.empty() && parse_scenario(slurp(root + "/" + f.replay), s, err)) { Exec e; Verdict v = p.judge(s, e); if (v.bad && v.cls == f.k.cls) { printf("KNOWN-FINDING: property=%s %s\n", p.id, f.k.text.c_str()); nk++; } }
    }
    fflush(stdout);
    char dir[] = "/tmp/pasmsim.XXXXXX"; if (!mkdtemp(dir)) { perror("mkdtemp"); return 2; }
    string D = dir;
    Share* S = (Share*)mmap(nullptr, sizeof(Share), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (S) Share(); S->best = ~0ull; S->done = 0;
    vector<pid_t> pids; bool broken = false;
    for (int w = 0; w < W; w++) {
        pid_t pid = fork(); if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            vector<string> samples; uint64_t cases = 0;
            // determinism: a few cases that belong to another worker are explored here as well
            for (int j = 0; j < 2; j++) { uint64_t i = first + (uint64_t)((w + 1) % W + j * W); if (i - first >= 16 || i - first >= N) continue; Ctx c(&p, seed, i, thorough); c.known = &known; p.explore(c); S->dig[1][i - first] = c.digest; S->have[1][i - first] = 1; }
            g_stats = Stats();
            for (uint64_t i = first + (uint64_t)w; i < first + N; i += (uint64_t)W) {
                if (i > S->best || now() - t0 > cap) break;
                Ctx c(&p, seed, i, thorough); c.known = &known; p.explore(c); cases++; S->done++;
                if (i - first < 16) { S->dig[0][i - first] = c.digest; S->have[0][i - first] = 1; }
                for (auto& s : c.samples) if (samples.size() < 2) samples.push_back(s);
                if (c.stop) {
                    spit(D + "/v" + std::to_string(i), serialise(c.bad));
                    if (all) { printf("case %llu %s %s: %s\n", (unsigned long long)i, c.bad.family.c_str(), c.v.cls.c_str(), c.v.detail.substr(0, 260).c_str()); fflush(stdout); continue; }
                    uint64_t b = S->best; while (i < b && !S->best.compare_exchange_weak(b, i)) {}
                }
            }
            FILE* f = fopen((D + "/w" + std::to_string(w)).c_str(), "w"); if (!f) _exit(2); put_stats(f, samples, cases); if (fclose(f)) _exit(2);
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (auto pid : pids) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed (status %x)\n", st); broken = true; } }
    vector<string> samples; uint64_t cases = 0; for (int w = 0; w < W; w++) get_stats(D + "/w" + std::to_string(w), samples, cases);
    int same = 0, differ = 0; for (int i = 0; i < 16; i++) if (S->have[0][i] && S->have[1][i]) { if (S->dig[0][i] == S->dig[1][i]) same++; else { differ++; fprintf(stderr, "determinism: case %llu gave two histories\n", (unsigned long long)(first + (uint64_t)i)); } }
    double searched = now() - t0; int rc = 0; string vline;
    if (S->best != ~0ull) {
        uint64_t i = S->best; Scenario s; string err; parse_scenario(slurp(D + "/v" + std::to_string(i)), s, err);
        const string orig = s.hash; Exec e; Verdict v = p.judge(s, e); char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)e.hash);
        if (!v.bad || orig != h) { fprintf(stderr, "case %llu does not reproduce: recorded %s (%s), now %s (%s)\n", (unsigned long long)i, s.violation.c_str(), orig.c_str(), v.bad ? (v.cls + ": " + v.detail).c_str() : "none", h); differ++; }
        if (!v.bad) rc = 2;
        else {
            Scenario m = minimise(p, s, v.cls, thorough ? 120 : 45);
            mkdir((root + "/replays").c_str(), 0777); string path = root + "/replays/" + p.id + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".scn"; spit(path, serialise(m));
            // the replay must reproduce the violation and its history exactly, in a fresh process
            int st = -1; pid_t pid = fork(); if (pid == 0) { execl(self_path.c_str(), "sim", "replay-quiet", path.c_str(), (char*)nullptr); _exit(2); } waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "minimised replay is not exact (%x), keeping the original\n", st); spit(path, serialise(s)); }
            printf("case %llu of seed %llu, family %s: %s\n", (unsigned long long)i, (unsigned long long)seed, m.family.c_str(), m.violation.c_str());
            printf("  commands:"); for (auto& x : m.steps) if (x.kind == Step::RUN) { for (auto& a : x.run.argv) printf(" %s", a.c_str()); printf(";"); } printf("\n");
            for (auto& x : m.steps) for (auto& r : x.run.rules) printf("  fault: %s %s call %d%s %s\n", op_names[r.op], r.path, r.nth, r.count < 0 ? " and later" : "", r.op == OP_CRASH ? "" : errno_name(r.err).c_str());
            printf("  replay with: %s/check.sh replay %s\n", root.c_str(), path.c_str());
            vline = string("VIOLATION property=") + p.id + " replay=" + path; rc = 1;
        }
    }
    if (rc == 0 && broken) rc = 2;
    double wall = now() - t0; Stats& G = g_stats; size_t cov = 0; for (auto b : G.cov) cov += b != 0;
    // ---- evidence
    std::ostringstream j; auto kv = [&](const char* k, auto v, bool comma = true) { j << "    \"" << k << "\": " << v << (comma ? ",\n" : "\n"); };
    j << "{\n  \"property\": " << jstr(p.id) << ",\n  \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n  \"seed\": " << seed << ",\n  \"level\": " << jstr(p.level) << ",\n  \"coverage\": {\n";
    kv("evaluations", G.scenarios); kv("distinct_nontrivial", G.nontrivial_set.size()); kv("rule", jstr(p.rule));
    j << "    \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) j << (i ? ",\n      " : "\n      ") << jstr(samples[i]); j << "],\n";
    kv("seeds", cases); kv("simulated_runs", G.runs); kv("of_which_reference_runs", G.refs); kv("runs_per_hour", (uint64_t)((double)G.runs / searched * 3600)); kv("seeds_per_hour", (uint64_t)((double)cases / searched * 3600));
    kv("simulated_time_s", (double)G.simtime_ns * 1e-9); kv("simulated_system_calls", G.calls); kv("executed_basic_blocks", G.steps); kv("distinct_block_slots_reached", cov);
    kv("distinct_system_call_histories", G.traces.size()); kv("distinct_outcomes", G.outcomes.size());
    j << "    \"run_endings\": {\"exit_0\": " << G.ok << ", \"other\": " << G.failed << ", \"killed_by_simulator\": " << G.crashes << ", \"over_budget\": " << G.hangs << ", \"signal\": " << G.signals << "},\n";
    j << "    \"faults_delivered\": {"; bool f1 = true; for (auto& e : G.errnos) { j << (f1 ? "" : ", ") << jstr(e.first) << ": " << e.second; f1 = false; } j << "},\n";
    j << "    \"rare_conditions_reached\": {"; f1 = true; for (auto& e : G.probes) { j << (f1 ? "" : ", ") << jstr(e.first) << ": " << e.second; f1 = false; } j << "},\n";
    j << "    \"determinism_recheck\": {\"same_history_in_another_process\": " << same << ", \"different\": " << differ << "},\n";
    kv("real_code", p.target == string("mix") ? jstr("all of CMakePasm/source (flex/bison output included) and eolconvert.cc, as separate processes of one simulated machine; libstdc++, glibc pure functions") : p.target == string("eol") ? jstr("eolconvert.cc, libstdc++ iostreams and containers, glibc pure functions") : jstr("all of CMakePasm/source (flex/bison output included), libstdc++ iostreams and containers, glibc pure functions"));
    kv("simulated", jstr("system calls and stdio (files, directories, console), malloc family, clock, environment, process exit and kill"), false);
    j << "  },\n  \"assumptions\": [\"the simulated stdio and file system behave as POSIX and glibc document\", \"one seeded search, not an exhaustive enumeration\"],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    mkdir((root + "/evidence").c_str(), 0777); spit(root + "/evidence/" + p.id + ".json", j.str());
    printf("%s: %llu seeds, %llu scenarios (%zu distinct non-trivial), %llu runs, %.1f s\n", p.id, (unsigned long long)cases, (unsigned long long)G.scenarios, G.nontrivial_set.size(), (unsigned long long)G.runs, wall);
    if (cases < N && rc == 0) printf("%s: stopped at the time limit after %llu of %llu seeds\n", p.id, (unsigned long long)cases, (unsigned long long)N);
    if (all) { // keep the scenarios for inspection
        string cmd = "rm -rf " + root + "/build/all; mkdir -p " + root + "/build/all && cp " + D + "/v* " + root + "/build/all/ 2>/dev/null"; if (system(cmd.c_str())) {} }
    std::error_code ec; std::filesystem::remove_all(D, ec);
    if (!vline.empty()) printf("%s\n", vline.c_str());
    return rc;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VERIF_ASLR_TRIED")) { if (personality((unsigned long)(pers | ADDR_NO_RANDOMIZE)) != -1) { setenv("VERIF_ASLR_TRIED", "1", 1); execv("/proc/self/exe", argv); } }
    char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); self_path = n > 0 ? string(b, (size_t)n) : argv[0];
    root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif";
    string cmd = argc > 1 ? argv[1] : "";
    load_samples(string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/CMakePasm/samples");
    if (cmd == "check" && argc == 3) { const Prop* p = find_prop(argv[2]); if (!p) { fprintf(stderr, "unknown property\n"); return 2; } const char* t = getenv("VERIF_TIER"); return check(*p, t && !strcmp(t, "thorough"), envnum("VERIF_SEED", 1)); }
    if ((cmd == "replay" || cmd == "replay-quiet") && argc == 3) return replay(argv[2], cmd == "replay-quiet");
    if (cmd == "target" && argc == 3) { if (const Prop* p = find_prop(argv[2])) { puts(p->target); return 0; } Scenario s; string e; if (parse_scenario(slurp(argv[2]), s, e)) { puts(s.target.c_str()); return 0; } return 2; }
    if (cmd == "one" && argc == 4) { const Prop* p = find_prop(argv[2]); Ctx c(p, envnum("VERIF_SEED", 1), strtoull(argv[3], nullptr, 10), false); p->explore(c); if (c.stop) { printf("%s", serialise(c.bad).c_str()); return 1; } printf("digest %016llx\n", (unsigned long long)c.digest); return 0; }
    fprintf(stderr, "usage: sim check ID | replay FILE | one ID INDEX\n"); return 2;
}
