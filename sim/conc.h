// Several runs at the same time on one simulated machine (C25: assemblies, C26: conversions). One process runs at a
// time and hands over at the system calls the schedule names. Part of props.cc (inside its namespaces).
vector<Switch> schedule(Rng& r, uint64_t points, int nproc, bool halt) {
    vector<Switch> v; uint32_t n = (uint32_t)std::max<uint64_t>(points, 4); int st = r.below(8);
    auto other = [&] { return (uint32_t)r.below(nproc); };
    if (st < 3) { int k = r.range(1, 4); for (int i = 0; i < k; i++) v.push_back({ (uint32_t)r.range(1, (int)n), other() }); }                 // a few preemptions
    else if (st < 5) { int k = r.pick(vector<int>{ 8, 30, 200, 1000 }); for (int i = 0; i < k; i++) v.push_back({ (uint32_t)r.range(1, (int)n), other() }); }
    else if (st == 5) { for (uint32_t i = 1; i <= n && v.size() < 5000; i++) v.push_back({ i, i % (uint32_t)nproc }); }                           // turn by turn
    else if (st == 6) { uint32_t at = (uint32_t)r.range(1, (int)n), w = (uint32_t)r.range(5, 60); for (uint32_t i = at; i < at + w; i++) v.push_back({ i, other() }); }   // dense for a while
    else { int q = r.range(2, 40); for (uint32_t i = 1; i <= n && v.size() < 5000; i += (uint32_t)r.range(1, q)) v.push_back({ i, other() }); }
    if (r.chance(1, 4)) v.push_back({ 1, other() });
    if (halt) v.push_back({ (uint32_t)r.range(1, (int)n), SW_HALT });
    std::sort(v.begin(), v.end(), [](const Switch& a, const Switch& b) { return a.at < b.at; });
    v.erase(std::unique(v.begin(), v.end(), [](const Switch& a, const Switch& b) { return a.at == b.at; }), v.end());
    return v;
}
string cwd_of(const Scenario& s, const Run& r) { return r.cwd.empty() ? s.cwd : r.cwd; }
bool disturbed(const RunRec& rr) { return fired(rr.r) || rr.r.crashed || rr.r.any_fault(); }

// ================================================================ C25
Verdict j_c25(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.size() < 2) return v;
    bool shared_out = false, upset = false; std::set<string> seen;
    for (auto& rr : e.runs) { upset |= disturbed(rr); for (auto& p : outputs_of(s.steps[rr.step].run.argv, cwd_of(s, s.steps[rr.step].run)).all()) shared_out |= !seen.insert(p).second; }
    for (auto& rr : e.runs) {
        const Run& run = s.steps[rr.step].run; string cwd = cwd_of(s, run); Outputs o = outputs_of(run.argv, cwd);
        const Result& ref = run_ref(rr.before, cwd, run.argv); if (ref.hang || ref.sig || disturbed(rr)) continue;
        v.nontrivial = true;
        if (rr.r.hang) v.fail("no-termination", "beside another run: " + rr.r.outcome());
        if (shared_out && upset) continue;            // the other one spoilt the common outputs
        if (rr.r.code != ref.code || rr.r.sig) v.fail("concurrent-status", "beside another run: " + rr.r.outcome() + " instead of " + ref.outcome() + ", " + show(rr.r.err));
        if (rr.r.err != ref.err) v.fail("concurrent-diagnostics", diff_text(rr.r.err, ref.err));
        if (rr.r.out != ref.out) v.fail("concurrent-console", diff_text(rr.r.out, ref.out));
        string why; for (auto& p : o.all()) if (!same_file(rr.r.fs, ref.fs, p, why)) v.fail("concurrent-output", "beside another run: " + why);
    }
    for (auto& f : e.runs[0].before) {                // nothing but the outputs of the two
        bool out = false; for (auto& rr : e.runs) for (auto& p : outputs_of(s.steps[rr.step].run.argv, cwd_of(s, s.steps[rr.step].run)).all()) out |= p == f.first;
        string why; if (!out && !f.second.dir && !same_file(e.final, e.runs[0].before, f.first, why)) v.fail("concurrent-source", why);
    }
    return v;
}
void x_c25(Ctx& c) {
    Workload w = broad(c); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig || ref.calls > 60000) return;
    int n = c.thorough ? 12 : 7;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(w, ""); Step a = s.steps[0]; s.steps.clear(); int np = c.r.chance(1, 5) ? 3 : 2; uint64_t points = 0;
        int kind = c.r.below(3); s.family = kind == 0 ? "same-command" : kind == 1 ? "same-sources" : "mixed";
        for (int q = 0; q < np; q++) {
            Step st = a; st.group = 1;
            if (q && kind > 0) {      // other outputs, other options
                vector<string>& av = st.run.argv;
                if (kind == 2 && c.r.chance(1, 2)) for (size_t j = av.size(); j-- > 1;) { if ((av[j] == "-l" || av[j] == "-s" || av[j] == "-log") && j + 1 < av.size() && c.r.chance(1, 2)) av.erase(av.begin() + (long)j, av.begin() + (long)j + 2); else if ((av[j] == "-v" || av[j] == "-nowarn") && c.r.chance(1, 2)) av.erase(av.begin() + (long)j); }
                bool clash = false; for (size_t j = 1; j + 1 < av.size(); j++) { if (av[j] == "-d") { j += 2; continue; } if (av[j] == "-o" || av[j] == "-s" || av[j] == "-l" || av[j] == "-log") { string& nm = av[++j]; size_t sl = nm.rfind('/'); nm.insert(sl == string::npos ? 0 : sl + 1, "p" + std::to_string(q)); } }
                (void)clash;
                if (kind == 2 && c.r.chance(1, 4)) { Workload g = gen_garbage(c.r); bool meets = false; for (auto& f : g.fs) meets |= !f.second.dir && s.fs.count("/g" + f.first); meets |= s.fs.count("/g/w") > 0; if (!meets && g.cwd == "/w") { for (auto& f : g.fs) { if (f.second.dir) fs_dir(s.fs, "/g" + f.first); else fs_file(s.fs, "/g" + f.first, f.second.str()); } bool abs = false; for (auto& x : g.argv) abs |= x.find("/w/") != string::npos; for (auto& f : g.fs) abs |= f.second.str().find("/w/") != string::npos; if (!abs) { st.run.argv = g.argv; st.run.cwd = "/g/w"; } } }
            }
            const Result& rq = run_ref(s.fs, cwd_of(s, st.run), st.run.argv); if (rq.hang || rq.sig || rq.calls > 60000) { st = a; st.group = 1; points += ref.calls; } else points += rq.calls;
            budget(st.run, ref); st.run.step_budget = 400000000; st.run.call_budget = 20000000; if (c.r.chance(1, 2)) world(c, st.run);
            s.steps.push_back(st);
        }
        if (kind > 0 && c.r.chance(1, 3)) { Step& st = c.r.chance(1, 2) ? s.steps.front() : s.steps.back(); const Result& rq = run_ref(s.fs, cwd_of(s, st.run), st.run.argv);
            if (c.r.chance(1, 2)) st.run.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, (int)rq.calls), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52 }))); else st.run.rules.push_back(any_rule(c, w, outputs_of(st.run.argv, w.cwd))); }
        s.steps[0].sched = schedule(c.r, points, np, false); s.meta["nosteps"] = "1"; s.meta["noshrink"] = "1";
        c.check(s);
    }
}

// ================================================================ C26
const string EOLDIR = "/repo/CMakePasm/eolconvert";
bool converter(const Run& r) { return !r.argv.empty() && r.argv[0] == "eolconvert"; }
Verdict j_c26(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.size() < 2) return v;
    const FS& before = e.runs[0].before;
    const Result& cr = run_ref(before, EOLDIR, { "eolconvert" }); if (!cr.success()) return v;
    const FS& conv = cr.fs; bool upset = false, complete = false;
    for (auto& rr : e.runs) { upset |= disturbed(rr); if (converter(s.steps[rr.step].run) && !disturbed(rr)) complete = true; }
    std::set<string> outs; for (auto& rr : e.runs) { const Run& run = s.steps[rr.step].run; if (!converter(run)) for (auto& p : outputs_of(run.argv, cwd_of(s, run)).all()) outs.insert(p); }
    for (auto& rr : e.runs) {
        const Run& run = s.steps[rr.step].run; if (disturbed(rr)) continue;
        v.nontrivial = true;
        if (rr.r.hang) v.fail("no-termination", rr.r.outcome());
        if (converter(run)) { if (!rr.r.success()) v.fail("conversion-failed", "beside another run the conversion ended with " + rr.r.outcome() + ": " + show(rr.r.out.size() > 300 ? rr.r.out.substr(rr.r.out.size() - 300) : rr.r.out, 300)); continue; }
        string cwd = cwd_of(s, run); const Result &r0 = run_ref(before, cwd, run.argv); FS after = before; for (auto& f : after) if (!f.second.dir) { auto it = conv.find(f.first); if (it != conv.end()) f.second.data = it->second.data; }
        Result old = r0; const Result& r1 = run_ref(after, cwd, run.argv); if (old.hang || old.sig || r1.hang || r1.sig) continue;
        if (old.code == r1.code && (rr.r.code != old.code || rr.r.sig)) v.fail("assembly-status", "beside a conversion: " + rr.r.outcome() + " instead of " + old.outcome() + ", " + show(rr.r.err));
        if (old.err == r1.err && rr.r.err != old.err) v.fail("assembly-diagnostics", diff_text(rr.r.err, old.err));
        string why; Outputs o = outputs_of(run.argv, cwd); for (auto& p : { o.obj, o.sym, o.lst }) if (!p.empty() && same_file(old.fs, r1.fs, p, why) && !same_file(rr.r.fs, old.fs, p, why)) v.fail("assembly-output", "beside a conversion: " + why);
    }
    for (auto& f : before) {
        if (outs.count(f.first)) continue;
        auto it = e.final.find(f.first);
        if (it == e.final.end()) { v.fail("content-lost", f.first + " disappeared"); continue; }
        if (f.second.dir) continue;
        auto k = conv.find(f.first); bool isold = it->second.str() == f.second.str(), isnew = k != conv.end() && k->second.str() == it->second.str();
        if (!in_tree(f.first) ? !isold : !isold && !isnew) v.fail(in_tree(f.first) ? "content-lost" : "foreign-write", f.first + " is neither its old nor its converted content: " + diff_text(it->second.str(), f.second.str()));
        else if (in_tree(f.first) && !isnew && complete) v.fail("not-converted", f.first + " is unchanged although an undisturbed conversion completed");
    }
    if (!upset) for (auto& f : e.final) if (!f.second.dir && in_tree(f.first) && !before.count(f.first) && !outs.count(f.first)) v.fail("leftover", f.first + " was left behind");
    return v;
}
void x_c26(Ctx& c) {
    int n = c.thorough ? 16 : 9;
    bool with_asm = c.r.chance(1, 2); Workload w, t = gen_tree(c);
    if (with_asm) {      // a program inside the tree, with CR LF line ends, beside the other files
        w = broad(c); bool ok = w.cwd == "/w"; FS moved; for (auto& f : w.fs) { string p = f.first; if (p.compare(0, 2, "/w") != 0) { ok = ok && f.second.dir; continue; } p = TREE + p.substr(2); if (f.second.dir) fs_dir(moved, p); else { const string& d = f.second.str(); ok = ok && d.find("/w/") == string::npos; string x; bool crlf = c.r.chance(3, 4) && d.find('\r') == string::npos; for (char ch : d) { if (ch == '\n' && crlf) x += '\r'; x += ch; } fs_file(moved, p, x); } }
        for (auto& x : w.argv) ok = ok && x.compare(0, 3, "/w/") != 0 && x.find(";/") == string::npos; if (!ok) with_asm = false; else for (auto& f : moved) if (!t.fs.count(f.first)) { f.second.order = (uint32_t)t.fs.size(); t.fs[f.first] = f.second; }
        fs_dir(t.fs, "/out"); for (size_t j = 1; j + 1 < w.argv.size(); j++) { if (w.argv[j] == "-d") { j += 2; continue; } if (w.argv[j] == "-o" || w.argv[j] == "-s" || w.argv[j] == "-l" || w.argv[j] == "-log") { string& nm = w.argv[++j]; nm = "/out/" + nm.substr(nm.rfind('/') + 1); } }   // outputs in the tree would be converted as well
    }
    const Result& ref = run_ref(t.fs, EOLDIR, { "eolconvert" }); if (!ref.success()) return; uint64_t cc = ref.calls;
    for (int i = 0; i < n && !c.stop; i++) {
        Scenario s = scn(t, ""); s.cwd = EOLDIR; s.steps.clear(); uint64_t points = 0; int np = 0; bool halt = false;
        auto add_conv = [&] { Step st; st.group = 1; st.run.argv = { "eolconvert" }; if (c.r.chance(1, 2)) io_knobs(c, st.run.k, false); st.run.k.dir_order = (uint32_t)c.r.below(3); st.run.k.dtype_unknown = (uint32_t)c.r.below(2); st.run.k.seed = c.r.next(); st.run.step_budget = 400000000; st.run.call_budget = 20000000; s.steps.push_back(st); points += cc; np++; };
        auto add_asm = [&] { Step st; st.group = 1; st.run.argv = w.argv; st.run.cwd = TREE; if (c.r.chance(1, 2)) world(c, st.run); st.run.step_budget = 400000000; st.run.call_budget = 20000000; const Result& rq = run_ref(s.fs, TREE, w.argv); if (rq.hang || rq.sig || rq.calls > 60000) return; points += rq.calls; np++; s.steps.push_back(st); };
        if (with_asm && c.r.chance(2, 3)) { s.family = "assembly"; add_conv(); add_asm(); if (np < 2) { add_conv(); s.family = "conversions"; } else if (c.r.chance(1, 4)) add_conv(); if (c.r.chance(1, 2)) std::swap(s.steps[0], s.steps[1]); }
        else { s.family = "conversions"; add_conv(); add_conv(); if (c.r.chance(1, 4)) add_conv(); }
        if (c.r.chance(1, 3)) { Step& st = s.steps[(size_t)c.r.below(np)]; s.family += "-fault"; int calls = (int)cc;
            if (c.r.chance(2, 3)) st.run.rules.push_back(mkrule(OP_CRASH, "*", c.r.range(1, calls), 1, 0, c.r.pick(vector<int>{ 0, 1, 12, 52, 92 })));
            else st.run.rules.push_back(mkrule(c.r.pick(vector<int>{ OP_WRITE, OP_READ, OP_OPEN, OP_CLOSE, OP_RENAME, OP_STAT }), c.r.chance(1, 2) ? string("*") : c.r.pick(t.sources), c.r.range(1, 8), c.r.pick(vector<int>{ 1, -1 }), c.r.pick(vector<int>{ EIO, ENOSPC }))); }
        else if (c.r.chance(1, 8)) { halt = true; s.family += "-halt"; }
        s.steps[0].sched = schedule(c.r, points, np, halt); s.meta["nosteps"] = "1"; s.meta["noshrink"] = "1";
        c.check(s);
    }
}
