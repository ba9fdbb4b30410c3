// Properties stated between two runs of differently written equal programs (C19, C20, C22, C23), about where diagnostics point
// (C21) and about the listing's source text (C24). Part of props.cc (inside its namespaces).
typedef vector<string> Lines;
Lines lines_of_text(const string& t) { Lines v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); size_t n = j == string::npos ? t.size() - i : j + 1 - i; v.push_back(t.substr(i, n)); i += n; } return v; }
string join_lines(const Lines& v, size_t a = 0, size_t b = (size_t)-1) { string s; for (size_t i = a; i < v.size() && i < b; i++) s += v[i]; return s; }
string lower(string s) { for (auto& ch : s) ch = (char)tolower((unsigned char)ch); return s; }
string chomp(string s) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
// first directive of a line ("" if it has none)
string directive(const string& l) { size_t i = l.find_first_not_of(" \t"); while (i != string::npos && l.compare(i, 2, "/*") == 0) { i = l.find("*/", i + 2); if (i != string::npos) i = l.find_first_not_of(" \t", i + 2); } if (i == string::npos || l[i] != '.') return ""; size_t j = i + 1; while (j < l.size() && isalnum((unsigned char)l[j])) j++; return lower(l.substr(i, j - i)); }
bool pm_label(const string& l) { return !l.empty() && (l[0] == '+' || l[0] == '-'); }
bool pm_ref(const string& l0) {
    string l = l0; size_t sc = l.find(';'); if (sc != string::npos) l = l.substr(0, sc); sc = l.find("//"); if (sc != string::npos) l = l.substr(0, sc) + "\n"; if (l.find('"') != string::npos) return false;
    for (size_t i = 1; i < l.size(); i++) if ((l[i] == '+' || l[i] == '-') && (isspace((unsigned char)l[i - 1]) || l[i - 1] == ',')) { size_t j = i; while (j < l.size() && (l[j] == '+' || l[j] == '-')) j++; while (j < l.size() && (l[j] == ' ' || l[j] == '\t')) j++; if (j >= l.size() || l[j] == ',' || l[j] == '\n' || l[j] == '\r') return true; }
    return false;
}
// nesting depth in front of every line; -1 inside a comment, behind .end and behind anything that is not nested properly
vector<int> depths(const Lines& v, bool sections_open = false) {
    vector<int> d; vector<char> st; bool com = false, ended = false;
    auto close = [&](const char* k) { if (st.empty() || !strchr(k, st.back())) ended = true; else st.pop_back(); };
    for (auto& l : v) {
        d.push_back(com || ended ? -1 : (int)st.size());
        if (com) { if (l.find("*/") != string::npos) com = false; continue; }
        if (l.compare(0, 2, "/*") == 0) { com = l.find("*/") == string::npos; if (com) continue; }
        string k = directive(l); if (k.empty()) continue;
        if (k == ".end") ended = true;
        else if (k == ".do") st.push_back('d');
        else if (k == ".while") { if (std::count(st.begin(), st.end(), 'd')) close("d"); else st.push_back('w'); }
        else if (k == ".if" || k == ".ifdef" || k == ".ifndef") st.push_back('i');
        else if (k == ".macro" || k == ".mac") st.push_back('m');
        else if (k == ".for") st.push_back('f');
        else if (k == ".repeat") st.push_back('r');
        else if (sections_open && (k == ".section" || k == ".sect" || k == ".ends" || k == ".endsection")) continue;
        else if (k == ".section" || k == ".sect") st.push_back('s');
        else if (k == ".endif") close("i");
        else if (k == ".endm" || k == ".endmacro") close("m");
        else if (k == ".next") close("f");
        else if (k == ".until") close("r");
        else if (k == ".wend") close("w");
        else if (k == ".ends" || k == ".endsection") close("s");
    }
    d.push_back(com || ended ? -1 : (int)st.size());
    return d;
}
// a different world for a run: I/O segmentation, memory
void world(Ctx& c, Run& r) {
    io_knobs(c, r.k); Knobs& k = r.k;
    if (c.r.chance(1, 2)) { k.heap_mode = (uint32_t)c.r.below(4); k.heap_fill = (uint32_t)c.r.below(4); k.free_fill = (uint32_t)c.r.below(3); k.stack_fill = (uint32_t)c.r.below(3); }
}
// second program: the file system of the first with the differences applied, outputs removed
void second(Scenario& s, const FS& from, const FS& to, const Run& run) {
    for (auto& f : from) if (!f.second.dir && !to.count(f.first)) { Step d; d.kind = Step::DEL; d.path = f.first; s.steps.push_back(d); }
    for (auto& f : to) { if (f.second.dir) continue; auto it = from.find(f.first); if (it == from.end() || it->second.str() != f.second.str()) { Step p; p.kind = Step::PUT; p.path = f.first; p.data = f.second.str(); s.steps.push_back(p); } }
    for (auto& q : outputs_of(s.steps[0].run.argv, s.cwd).all()) { Step d; d.kind = Step::DEL; d.path = q; s.steps.push_back(d); }
    Step st; st.run = run; s.steps.push_back(st); s.meta["nosteps"] = "1"; s.meta["noshrink"] = "1";
}
string listing_bytes(const Result& r, const string& p) { auto it = r.fs.find(p); string b; if (it != r.fs.end()) for (auto& x : parse_listing(it->second.str())) b += x.bytes; return b; }
// the two runs assemble the same program
void same_program(Verdict& v, const Scenario& s, Exec& e, const char* cls, const char* what, bool strict_syms, std::function<string(const string&)> ren = nullptr) {
    if (e.runs.size() < 2) return;
    auto &a = e.runs.front().r, &b = e.runs.back().r; const Run &ra = s.steps[e.runs.front().step].run, &rb = s.steps[e.runs.back().step].run;
    if (a.hang || b.hang || a.sig || b.sig) { if (!a.hang && !a.sig) v.fail(cls, string(what) + ": " + b.outcome()); return; }
    v.nontrivial = true;
    if (a.code != b.code) { v.fail(cls, string(what) + ": " + b.outcome() + " instead of " + a.outcome() + ", " + show(b.code ? b.err : a.err)); return; }
    if (a.code) return;
    Outputs oa = outputs_of(ra.argv, s.cwd), ob = outputs_of(rb.argv, s.cwd);
    if (!oa.obj.empty() && !ob.obj.empty()) {
        string x = a.fs.count(oa.obj) ? a.fs.at(oa.obj).str() : "", y = b.fs.count(ob.obj) ? b.fs.at(ob.obj).str() : "";
        if (x != y) v.fail(cls, string(what) + ": the object differs: " + diff_text(y, x));
    }
    if (!oa.sym.empty() && !ob.sym.empty() && a.fs.count(oa.sym) && b.fs.count(ob.sym)) {
        auto x = parse_symbols(a.fs.at(oa.sym).str()), y = parse_symbols(b.fs.at(ob.sym).str());
        if (ren) { map<string, unsigned> z; for (auto& i : x) z[lower(ren(i.first))] = i.second; x.swap(z); z.clear(); for (auto& i : y) z[lower(i.first)] = i.second; y.swap(z); }
        for (auto& i : x) { auto j = y.find(i.first); if (j == y.end()) { if (strict_syms) v.fail(cls, string(what) + ": symbol " + i.first + " is missing from the symbol file"); } else if (j->second != i.second) { char t[200]; snprintf(t, sizeof t, ": symbol %s is $%X instead of $%X", i.first.c_str(), j->second, i.second); v.fail(cls, what + string(t)); } }
        if (strict_syms) for (auto& j : y) if (!x.count(j.first)) v.fail(cls, string(what) + ": additional symbol " + j.first);
    }
    if (!oa.lst.empty() && !ob.lst.empty()) { string x = listing_bytes(a, oa.lst), y = listing_bytes(b, ob.lst); if (x != y) v.fail(cls, string(what) + ": the listing shows other bytes: " + diff_text(y, x)); }
}

// ================================================================ C19: outputs do not influence each other
bool out_option(const string& a) { return a == "-o" || a == "-s" || a == "-l" || a == "-log"; }
struct CmdLine { string prog; vector<vector<string>> opts; vector<string> inputs; };
CmdLine parse_cmd(const vector<string>& a) {
    CmdLine c; c.prog = a[0];
    for (size_t i = 1; i < a.size(); i++) {
        string k = lower(a[i]);
        if (out_option(k) || k == "-dir") { vector<string> g = { a[i] }; if (i + 1 < a.size()) g.push_back(a[++i]); c.opts.push_back(g); }
        else if (k == "-d") { vector<string> g = { a[i] }; for (int n = 0; n < 2 && i + 1 < a.size(); n++) g.push_back(a[++i]); c.opts.push_back(g); }
        else if (k[0] == '-' && k.size() > 1) c.opts.push_back({ a[i] });
        else c.inputs.push_back(a[i]);
    }
    return c;
}
Verdict j_c19(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.size() < 2) return v;
    auto &a = e.runs.front().r, &b = e.runs.back().r; const Run &ra = s.steps[e.runs.front().step].run, &rb = s.steps[e.runs.back().step].run;
    Outputs oa = outputs_of(ra.argv, s.cwd), ob = outputs_of(rb.argv, s.cwd); auto pa = oa.all(), pb = ob.all();
    if (a.hang || a.sig) return v;
    if (s.meta.count("trace")) {   // the second run traces
        same_program(v, s, e, "output-influence", "the same program with tracing directives", true);
        if (!v.bad && !a.code && !oa.lst.empty() && a.fs.count(oa.lst) && b.fs.count(ob.lst)) {
            Lines x, y; for (auto& l : lines_of_text(a.fs.at(oa.lst).str())) if (l.find(";trace") == string::npos) x.push_back(l); for (auto& l : lines_of_text(b.fs.at(ob.lst).str())) if (l.find(";trace") == string::npos) y.push_back(l);
            if (x != y) v.fail("output-influence", "with tracing directives the listing differs: " + diff_text(join_lines(y), join_lines(x)));
        }
        return v;
    }
    if (s.meta.count("fault")) {   // the second run: one of the additional outputs cannot be stored
        if (!fired(b) || a.code) return v;
        v.nontrivial = true;
        if (b.sig || b.hang) { orderly(v, b); return v; }
        for (auto& p : pb) { if (p == s.meta.at("fault")) continue; auto i = b.fs.find(p), j = e.runs.back().before.find(p), k = a.fs.find(p);
            bool was = i == b.fs.end() ? j == e.runs.back().before.end() : j != e.runs.back().before.end() && j->second.str() == i->second.str(), done = i != b.fs.end() && k != a.fs.end() && k->second.str() == i->second.str();
            // the log is written while the program is assembled
            if (!was && !done && p != ob.log && std::find(pa.begin(), pa.end(), p) != pa.end()) v.fail("output-influence", "a failure of " + s.meta.at("fault") + " left " + p + " neither as it was nor complete: " + diff_text(i == b.fs.end() ? "" : i->second.str(), k == a.fs.end() ? "" : k->second.str()) + " [" + rules_text(rb) + "]"); }
        return v;
    }
    v.nontrivial = true;
    if (b.hang || b.sig || a.code != b.code) { v.fail("output-influence", "with other outputs asked for: " + b.outcome() + " instead of " + a.outcome() + ", " + show(b.err)); return v; }
    string why; for (auto& p : pa) if (std::find(pb.begin(), pb.end(), p) != pb.end() && !same_file(b.fs, a.fs, p, why)) v.fail("output-influence", "with other outputs asked for: " + why);
    return v;
}
void x_c19(Ctx& c) {
    Workload w = c.r.chance(2, 3) ? gen_program(c.r, opts(c)) : broad(c); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return;
    CmdLine cl = parse_cmd(w.argv); if (cl.inputs.empty()) return;
    if (c.r.chance(1, 4) && ref.code == 0) {
        FS one = w.fs, two = w.fs; bool any = false; static const char* kind[] = { "token", "bison", "addlist" };
        for (auto& f : w.sources) { if (!one.count(f)) continue; Lines l = lines_of_text(one[f].str()); vector<int> dp = depths(l); string x, y;
            for (size_t i = 0; i <= l.size(); i++) { if (dp[i] == 0 && (i == 0 || l[i - 1].back() == '\n') && c.r.chance(1, 6)) { string k = c.r.pick(vector<string>{ ".debug_", ".DEBUG_" }) + kind[c.r.below(3)] + c.r.pick(vector<string>{ " ", "\t" }) + c.r.pick(vector<string>{ "on", "on", "off", "ON" }); x += "    ;trace\n"; y += "    " + k + " ;trace\n"; any = true; } if (i < l.size()) { x += l[i]; y += l[i]; } }
            fs_file(one, f, x); fs_file(two, f, y); }
        Workload u = w; u.fs = one; Workload t = w; t.fs = two; const Result& ru = run_ref(u.fs, u.cwd, u.argv);
        if (any && ru.success()) { Scenario s = scn(u, "tracing"); world(c, run0(s)); budget(run0(s), ru); Run r2 = run0(s); world(c, r2); s.meta["trace"] = "1"; second(s, one, two, r2); c.check(s); return; }
    }
    int n = c.thorough ? 6 : 4;
    for (int i = 0; i < n && !c.stop; i++) {
        CmdLine d = cl; vector<vector<string>> g;
        for (auto& x : cl.opts) { string k = lower(x[0]); bool extra = k == "-s" || k == "-l" || k == "-log" || k == "-v"; if (!extra || c.r.chance(1, 2)) g.push_back(x); }
        for (const char* k : { "-s", "-l", "-log", "-v" }) { bool had = false; for (auto& x : cl.opts) if (lower(x[0]) == k) had = true; if (!had && c.r.chance(1, 2)) { if (k[1] == 'v') g.push_back({ k }); else g.push_back({ k, string("extra") + k }); } }
        Scenario s = scn(w, "outputs"); world(c, run0(s)); budget(run0(s), ref); Run r2 = run0(s); world(c, r2);
        if (c.r.chance(2, 3)) { // another order; -d stay in order
            for (size_t q = g.size(); q > 1; q--) { size_t t = (size_t)c.r.below((int)q); if (lower(g[q - 1][0]) != "-d" && lower(g[t][0]) != "-d") std::swap(g[q - 1], g[t]); }
            s.family = "outputs-and-order";
        }
        if (ref.success() && c.r.chance(1, 6)) { size_t had = g.size(); g.erase(std::remove_if(g.begin(), g.end(), [](const vector<string>& x) { return lower(x[0]) == "-o"; }), g.end()); if (g.size() < had) s.family = "without-object"; }
        vector<string> a = { cl.prog }; size_t in = 0; bool mix = c.r.chance(1, 3);
        for (auto& x : g) { if (mix) while (in < cl.inputs.size() && c.r.chance(1, 3)) a.push_back(cl.inputs[in++]); a.insert(a.end(), x.begin(), x.end()); }
        while (in < cl.inputs.size()) a.push_back(cl.inputs[in++]);
        r2.argv = a;
        if (s.family != "without-object" && c.r.chance(1, 4) && ref.success()) {
            Outputs ob = outputs_of(a, w.cwd); vector<string> t; for (auto& p : { ob.sym, ob.lst, ob.log }) if (!p.empty()) t.push_back(p); if (t.empty()) continue;
            string p = c.r.pick(t); s.family = "output-fault"; s.meta["fault"] = p; run0(s).argv = a; if (c.r.chance(1, 2)) { FS to = s.fs; for (auto& q : ob.all()) if (c.r.chance(1, 2)) fs_file(to, q, "old " + q); second(s, s.fs, to, r2); auto l = s.steps.back(); s.steps.pop_back(); for (auto& q : to) if (!q.second.dir && q.second.str() == "old " + q.first) { Step u; u.kind = Step::PUT; u.path = q.first; u.data = q.second.str(); s.steps.push_back(u); } s.steps.push_back(l); } else second(s, s.fs, s.fs, r2);
            int op = c.r.pick(vector<int>{ OP_WRITE, OP_OPEN, OP_CLOSE }); s.steps.back().run.rules.push_back(mkrule(op, p, 1, -1, op == OP_OPEN ? c.r.pick(E_OPENW) : op == OP_WRITE ? c.r.pick(E_WRITE) : c.r.pick(E_CLOSE), op == OP_CLOSE ? 0 : 0));
            c.check(s); continue;
        }
        second(s, s.fs, s.fs, r2); c.check(s);
    }
}

// ================================================================ C20: how a program is divided over files does not matter
Verdict j_c20(const Scenario& s, Exec& e) { e = execute(s); Verdict v; bool modes = s.meta.count("modes"); same_program(v, s, e, "division", modes ? "with mode directives behind its last statement" : "the same program divided differently", false);
    if (modes && !v.bad && e.runs.size() > 1 && e.runs.front().r.err.empty() != e.runs.back().r.err.empty()) v.fail("division", "with mode directives behind its last statement: " + (e.runs.back().r.err.empty() ? string("no warning, instead of ") + show(e.runs.front().r.err) : "reports " + show(e.runs.back().r.err)));
    return v; }
struct Divided { FS fs; vector<string> argv; };
bool divide(Ctx& c, const Workload& w, Divided& d, int& serial) {
    CmdLine cl = parse_cmd(d.argv); vector<string> dirs; for (auto& o : cl.opts) if (lower(o[0]) == "-dir") { string cur; for (char ch : o[1] + ";") { if (ch == ';') { size_t b = cur.find_first_not_of(' '); if (b != string::npos) dirs.push_back(cur.substr(b)); cur.clear(); } else cur += ch; } }
    auto find = [&](const string& n) { string p = path_join(w.cwd, n); if (d.fs.count(p) && !d.fs[p].dir) return p; for (auto& x : dirs) { p = path_join(w.cwd, x + n); if (d.fs.count(p) && !d.fs[p].dir) return p; } return string(); };
    auto rebuild = [&] { vector<string> a = { cl.prog }; for (auto& o : cl.opts) a.insert(a.end(), o.begin(), o.end()); a.insert(a.end(), cl.inputs.begin(), cl.inputs.end()); d.argv = a; };
    vector<string> all = w.sources; for (auto& f : d.fs) if (f.first.find("/zpart") != string::npos) all.push_back(f.first);
    string f = c.r.pick(all); if (!d.fs.count(f)) return false;
    Lines l = lines_of_text(d.fs[f].str()); if (l.size() < 2 || (!l.empty() && l.back().back() != '\n' && c.r.chance(1, 2))) return false;
    vector<int> dp = depths(l); int base = dp.empty() ? 0 : dp[0];
    vector<size_t> at; for (size_t i = 0; i < dp.size(); i++) if (dp[i] == base && (i == 0 || l[i - 1].back() == '\n')) at.push_back(i);
    bool pm = false; for (auto& x : l) if (pm_label(x)) pm = true;
    auto newname = [&](string& abs) { string n = c.r.pick(vector<string>{ "zpart", "zpart_", "ZPART" }) + std::to_string(serial++) + c.r.pick(vector<string>{ ".asm", ".inc", "", ".s" }); if (!dirs.empty() && c.r.chance(1, 3)) abs = path_join(w.cwd, c.r.pick(dirs) + n); else { if (c.r.chance(1, 5)) n = "parts/" + n; abs = path_join(w.cwd, n); } return n; };
    switch (c.r.below(6)) {
    case 0: case 1: case 2: { // a range of lines goes to an included file
        if (at.size() < 2) return false; size_t a = (size_t)c.r.below((int)at.size() - 1), b = a + 1 + (size_t)c.r.below((int)std::min<size_t>(at.size() - a - 1, c.r.chance(1, 2) ? 4 : 40)); size_t i = at[a], j = at[b];
        for (size_t k = i; k < j; k++) { if (dp[k] < 0 && directive(l[k]) == ".end") return false; if (directive(l[k]) == ".end") return false; if (pm && (pm_label(l[k]) || pm_ref(l[k]))) return false; }
        if (l[j - 1].back() != '\n') return false;
        string abs, n = newname(abs); string part = join_lines(l, i, j); if (c.r.chance(1, 4) && part.back() == '\n' && part.size() > 2 && part[part.size() - 2] != '\r') { (void)part; }
        fs_file(d.fs, abs, part); fs_file(d.fs, f, join_lines(l, 0, i) + c.r.pick(vector<string>{ "    ", "\t", " " }) + c.r.pick(vector<string>{ ".inc", ".INC" }) + " \"" + n + "\"\n" + join_lines(l, j)); return true; }
    case 3: { // an input becomes two inputs
        vector<size_t> in; for (size_t i = 0; i < cl.inputs.size(); i++) if (find(cl.inputs[i]) == f) in.push_back(i); if (in.size() != 1 || base != 0 || at.size() < 3) return false;
        size_t i = at[1 + (size_t)c.r.below((int)at.size() - 2)]; if (c.r.chance(1, 2)) { auto ns = depths(l, true); vector<size_t> as; for (size_t z = 1; z < l.size(); z++) if (ns[z] == 0 && dp[z] > 0 && l[z - 1].back() == '\n') as.push_back(z); if (!as.empty()) i = c.r.pick(as); } if (pm) return false; for (auto& x : l) if (directive(x) == ".end") return false;
        string abs, n = newname(abs); fs_file(d.fs, abs, join_lines(l, i)); fs_file(d.fs, f, join_lines(l, 0, i)); cl.inputs.insert(cl.inputs.begin() + (long)in[0] + 1, n); rebuild(); return true; }
    case 4: { // two inputs become one
        if (cl.inputs.size() < 2) return false; size_t i = (size_t)c.r.below((int)cl.inputs.size() - 1); string a = find(cl.inputs[i]), b = find(cl.inputs[i + 1]); if (a.empty() || b.empty() || a == b) return false;
        string x = d.fs[a].str(), y = d.fs[b].str(); if (x.empty() || x.back() != '\n') return false; for (auto& k : lines_of_text(x)) if (directive(k) == ".end") return false;
        fs_file(d.fs, a, x + y); cl.inputs.erase(cl.inputs.begin() + (long)i + 1); rebuild(); return true; }
    default: { // an included file is written in place
        for (size_t i = 0; i < l.size(); i++) if (directive(l[i]) == ".inc" && dp[i] >= 0) {
            size_t q = l[i].find('"'), z = q == string::npos ? q : l[i].find('"', q + 1); if (z == string::npos) continue; string p = find(l[i].substr(q + 1, z - q - 1)); if (p.empty()) continue;
            string t = d.fs[p].str(); if (t.empty() || t.back() != '\n') continue; bool ok = true; for (auto& k : lines_of_text(t)) if (pm_label(k) || pm_ref(k) || directive(k) == ".end") ok = false; if (!ok || dp[i] != base) continue;
            fs_file(d.fs, f, join_lines(l, 0, i) + t + join_lines(l, i + 1)); return true;
        }
        return false; }
    }
}
void x_c20(Ctx& c) {
    GenOpt o = opts(c); o.force_all = c.r.chance(1, 2); o.print_dirs = false; o.prints = c.r.chance(1, 4);
    Workload w = c.r.chance(1, 6) ? gen_model(c.r, true, false) : gen_program(c.r, o);
    bool err = c.r.chance(1, 6); if (err) { inject_error(c.r, w, c.r.pick(vector<int>{ 0, 1, 2, 3, 4, 5, 7, 8, 9 })); }
    if (c.r.chance(1, 3)) { // statements whose meaning depends on what came before, in whatever file
        err = true; int k = c.r.range(1, 4), kind = c.r.below(stateful_kinds);
        for (int j = 0; j < k; j++) {
            string f = c.r.pick(w.sources); Lines l = lines_of_text(w.fs[f].str()); if (l.size() < 2) continue; vector<int> dp = depths(l); size_t at = (size_t)c.r.below((int)l.size() + 1); if (dp[at] != dp[0] || (at && l[at - 1].back() != '\n')) continue;
            string ins = stateful(c.r, c.r.chance(1, 3) ? c.r.below(stateful_kinds) : kind, j);
            fs_file(w.fs, f, join_lines(l, 0, at) + ins + join_lines(l, at));
        }
    }
    const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig || (!err && !ref.success())) return;
    CmdLine mc = parse_cmd(w.argv); string lastp = mc.inputs.empty() ? "" : path_join(w.cwd, mc.inputs.back());
    if (c.r.chance(1, 4) && w.fs.count(lastp) && !w.fs[lastp].dir) {   // a mode directive governs what follows it: nothing, at the end
        string t = w.fs[lastp].str(); Lines l = lines_of_text(t); vector<int> dp = depths(l);
        if (!l.empty() && l.back().back() == '\n' && dp[l.size()] == 0) {
            for (int n = c.r.range(1, 3); n > 0; n--) t += c.r.pick(vector<string>{ "    .6502 on\n", "    .65c02 on\n", "    .illegal on\n", "    .illegal off\n", "    .warn off\n", "    .warn on\n", "    .print off\n" });
            FS to = w.fs; fs_file(to, lastp, t); Scenario s = scn(w, "modes-at-end"); world(c, run0(s)); budget(run0(s), ref); Run r2 = run0(s); world(c, r2); s.meta["modes"] = "1"; second(s, w.fs, to, r2); if (!c.check(s)) return; }
    }
    for (int i = 0; i < 3 && !c.stop; i++) {
        Divided d{ w.fs, w.argv }; int serial = 0, done = 0, n = c.r.range(1, 5); for (int g = 0; g < 24 && done < n; g++) if (divide(c, w, d, serial)) done++;
        bool cmd = false;
        if (c.r.chance(1, 3)) { // definitions move between the command line and the head of the program
            CmdLine cl = parse_cmd(d.argv); string first = cl.inputs.empty() ? "" : path_join(w.cwd, cl.inputs[0]); if (d.fs.count(first)) {
                string t = d.fs[first].str(), defs, dirs; vector<vector<string>> g; bool swap = c.r.chance(1, 2); static const map<string, string> opt_dir = { { "-65c02", "    .65c02 on\n" }, { "-6502", "    .6502 on\n" }, { "-i", "    .illegal on\n" }, { "-c64", "    .c64\n" } };
                for (auto& x : cl.opts) if (lower(x[0]) == "-d" && x.size() == 3 && c.r.chance(1, 2)) { string val = x[2]; if (val.compare(0, 2, "0x") == 0) val = "$" + val.substr(2); defs += x[1] + " = " + val + "\n"; cmd = true; } else if (x.size() == 1 && swap && opt_dir.count(lower(x[0]))) { dirs += opt_dir.at(lower(x[0])); cmd = true; } else g.push_back(x);
                defs = dirs + defs; static const map<string, string> dir_opt = { { "    .65c02 on", "-65c02" }, { "    .6502 on", "-6502" }, { "    .illegal on", "-i" }, { "    .c64", "-c64" } };
                Lines l = lines_of_text(t); string rest; bool head = false, cpu = false; for (auto& x : l) if (directive(x) == ".org" || x.find("*=") != string::npos || x.find("* =") != string::npos) head = true; // a program that names no origin has no head to tell apart
                for (auto& x : cl.opts) if (lower(x[0]).find("65") == 1) cpu = true;
                for (auto& x : l) { size_t q = x.find(" = "); string nm = q == string::npos ? "" : x.substr(0, q), val = q == string::npos ? "" : chomp(x.substr(q + 3)); bool lit = !val.empty() && (isdigit((unsigned char)val[0]) ? val.find_first_not_of("0123456789") == string::npos : val[0] == '$' && val.size() > 1 && val.find_first_not_of("0123456789abcdefABCDEF", 1) == string::npos) && val.compare(0, 2, "0b");
                    if (head && lit && (nm.compare(0, 3, "VAL") == 0 || nm.compare(0, 2, "k_") == 0) && c.r.chance(1, 2)) { string how = val; if (c.r.chance(1, 2)) { long n2 = val[0] == '$' ? strtol(val.c_str() + 1, nullptr, 16) : strtol(val.c_str(), nullptr, 10); char b[80]; int f = c.r.below(8); if (f == 5) snprintf(b, sizeof b, "%0*ld", 6 + c.r.below(4), n2); else if (f == 6) snprintf(b, sizeof b, "$%06lx", n2); else if (f == 7) snprintf(b, sizeof b, "0x%08lX", n2); else if (f == 0) snprintf(b, sizeof b, "%ld", n2); else if (f == 1) snprintf(b, sizeof b, "$%lX", n2); else if (f == 2) snprintf(b, sizeof b, "0x%lx", n2); else { string bits; for (int z = 15; z >= 0; z--) bits += ((n2 >> z) & 1) ? '1' : '0'; snprintf(b, sizeof b, "%s%s", f == 3 ? "%" : "0b", bits.c_str()); } how = b; } g.push_back({ "-d", nm, how }); cmd = true; continue; }
                    if (head && swap && dir_opt.count(chomp(x))) { string op = dir_opt.at(chomp(x)); bool had = cpu && op.find("65") == 1; for (auto& y : g) if (lower(y[0]) == op || ((op == "-65c02" || op == "-6502") && lower(y[0]).find("6502") != string::npos) || ((op == "-65c02" || op == "-6502") && lower(y[0]) == "-65c02")) had = true; if (!had) { g.push_back({ op }); cmd = true; continue; } }
                    if (directive(x) == ".org" || x.find("*=") != string::npos || x.find("* =") != string::npos) head = false;
                    rest += x; }
                if (cmd) { fs_file(d.fs, first, defs + rest); vector<string> a = { cl.prog }; for (auto& x : g) a.insert(a.end(), x.begin(), x.end()); a.insert(a.end(), cl.inputs.begin(), cl.inputs.end()); d.argv = a; }
            }
        }
        if (!done && !cmd) continue;
        Scenario s = scn(w, cmd ? done ? "division-and-command-line" : "command-line" : "division"); budget(run0(s), ref); world(c, run0(s)); Run r2 = run0(s); world(c, r2); r2.argv = d.argv; second(s, w.fs, d.fs, r2); c.check(s);
    }
}

// ================================================================ C21: diagnostics point at the statement they are about
struct Diag { string msg, file; long line = 0; vector<std::pair<long, string>> quoted; };
vector<Diag> diagnostics(const string& err) {
    vector<Diag> v; Lines l = lines_of_text(err);
    for (size_t i = 0; i < l.size(); i++) {
        string x = chomp(l[i]); size_t q = x.rfind(" near line "), f = q == string::npos ? q : x.rfind(" File ", q); if (f == string::npos || x.find_first_not_of("0123456789", q + 11) != string::npos || q + 11 >= x.size()) continue;
        Diag d; d.msg = x.substr(0, f); d.file = x.substr(f + 6, q - f - 6); d.line = strtol(x.c_str() + q + 11, nullptr, 10);
        for (size_t k = i + 1; k < l.size(); k++) { char* e; const char* b = l[k].c_str(); if (!isdigit((unsigned char)*b)) break; long n = strtol(b, &e, 10); size_t used = (size_t)(e - b); if (used < 5) used = 5; if (l[k].size() < used + 2 || l[k].substr((size_t)(e - b), used + 2 - (size_t)(e - b)).find_first_not_of(' ') != string::npos || (!d.quoted.empty() && n != d.quoted.back().first + 1)) break; d.quoted.push_back({ n, chomp(l[k].substr(used + 2)) }); }
        v.push_back(d);
    }
    return v;
}
string base_name(const string& p) { size_t q = p.rfind('/'); return q == string::npos ? p : p.substr(q + 1); }
Verdict j_c21(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v; auto& rr = e.runs.back(); auto& r = rr.r; if (r.hang || r.sig) return v;
    struct Bad { string path, msg; long first, last; bool must; }; vector<Bad> bads;
    for (auto& m : s.meta) if (m.first.compare(0, 3, "bad") == 0) { Bad b; vector<string> t(1); for (char ch : m.second) { if (ch == '|') t.push_back(""); else t.back() += ch; } if (t.size() != 5) continue; b.path = t[0]; b.first = atol(t[1].c_str()); b.last = atol(t[2].c_str()); b.must = t[3] == "1"; b.msg = t[4]; bads.push_back(b); }
    auto ds = diagnostics(r.err); v.nontrivial = !ds.empty(); std::set<string> paths; for (auto& f : rr.before) paths.insert(f.first);
    auto name = [](const Diag& d) { return d.msg + " File " + d.file + " near line " + std::to_string(d.line); };
    for (auto& d : ds) {
        // the quoted lines are the lines of that file
        bool some = false, right = false; string worst;
        for (auto& f : rr.before) if (!f.second.dir && base_name(f.first) == base_name(d.file)) {
            some = true; Lines l = lines_of_text(f.second.str()); bool ok = true;
            for (auto& q : d.quoted) { string want = q.first >= 1 && q.first <= (long)l.size() ? chomp(l[(size_t)q.first - 1]) : ""; if (q.first < 1 || q.first > (long)l.size() + 1 || want != q.second) { ok = false; worst = "line " + std::to_string(q.first) + " is quoted as " + show(q.second) + " but is " + show(want); } }
            if (d.line < 1 || d.line > (long)l.size() + 2) { ok = false; worst = "the file has " + std::to_string(l.size()) + " lines"; }
            if (!d.quoted.empty() && (d.quoted.front().first > d.line || d.quoted.back().first < std::min(d.line - 1, (long)l.size()))) { ok = false; worst = "the quoted lines are others"; }
            if (ok) right = true;
        }
        if (!some) v.fail("position", name(d) + ": there is no such file");
        else if (!right) v.fail("position", name(d) + ": " + worst);
        // and it is about a statement that is wrong
        bool about = false; if (!bads.empty() && d.msg.compare(0, 19, "Branch out of range")) { for (auto& b : bads) if (base_name(b.path) == base_name(d.file) && d.line >= b.first && d.line <= b.last + 2) about = true; if (!about && s.meta.count("only") && (&d == &ds[0] || s.meta.at("only") == "all")) v.fail("position", name(d) + ": the wrong statement is at " + bads[0].path + " line " + std::to_string(bads[0].first)); }
    }
    for (auto& b : bads) if (b.must && !(r.code && b.msg.compare(0, 6, "Branch") == 0)) { bool got = false; for (auto& d : ds) if (d.msg.compare(0, b.msg.size(), b.msg) == 0 && base_name(d.file) == base_name(b.path) && d.line >= b.first && d.line <= b.last + 2) got = true; if (!got) v.fail("position", "no message \"" + b.msg + "\" for " + b.path + " line " + std::to_string(b.first) + ": " + r.outcome() + ", " + show(r.err)); }
    return v;
}
void x_c21(Ctx& c) {
    GenOpt o = opts(c); o.print_dirs = false; Workload w = gen_program(c.r, o); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (!ref.success()) return;
    bool quiet = false; for (auto& a : w.argv) if (lower(a) == "-nowarn") quiet = true; for (auto& f : w.fs) if (!f.second.dir && lower(f.second.str()).find(".warn") != string::npos) quiet = true;
    static const struct { const char *text, *msg; int syntax; } kinds[] = { { ".byte 300", "Value out of range.", 0 }, { ".word 70000", "Value out of range.", 0 }, { ".byte 5/0", "Divide by zero.", 0 }, { ".load \"missing\"", "Can't open include file", 0 }, { "sta #5", "Invalid opcode or mode.", 0 }, { "stx $12,x", "Invalid opcode or mode.", 0 }, { "lda ##5", "syntax error", 1 }, { ".ends", "END_SECTION without section.", 0 }, { ".byte )", "syntax error", 1 }, { "bne *+300", "Branch out of range", 2 }, { ".db 1,2,256,3", "Value out of range.", 0 } };
    for (int i = 0; i < 5 && !c.stop; i++) {
        Workload x = w; auto& k = kinds[c.r.below((int)(sizeof kinds / sizeof *kinds))]; int n = c.r.chance(2, 3) ? 1 : c.r.range(2, 6); if (k.syntax == 2 && quiet) continue;
        Scenario s = scn(x, string("bad:") + k.text); int longs = c.r.chance(1, 3) ? c.r.range(1, 3) : 0; std::set<string> many;
        // a file read twice reports twice
        map<string, vector<std::pair<size_t, string>>> ins; int put = 0, tries = 0;
        bool tailed = c.r.chance(1, 4); if (tailed) longs += 2; map<string, Lines> src; map<string, vector<int>> dps; for (auto& p : x.sources) { src[p] = lines_of_text(x.fs[p].str()); dps[p] = depths(src[p]); }
        while (put < n && ++tries < 40) { string p = c.r.pick(x.sources); auto& l = src[p]; if (l.empty() || l.back().back() != '\n') continue; size_t at = (size_t)c.r.below((int)l.size() + 1); if (tailed && l.size() > 3) at = l.size() - (size_t)c.r.below(3); if (dps[p][at] != 0) continue; bool dup = false; for (auto& q : ins[p]) if (q.first == at) dup = true; if (dup) continue; ins[p].push_back({ at, string("    ") + k.text + c.r.pick(vector<string>{ "", " ; wrong", "  // wrong" }) }); put++; }
        if (!put) continue;
        int id = 0; bool gone = false;
        for (auto& q : ins) {
            auto& l = src[q.first]; Lines out; bool crlf = !l.empty() && l[0].size() > 1 && l[0][l[0].size() - 2] == '\r'; string eol = crlf ? "\r\n" : "\n";
            for (size_t z = 0; z <= l.size(); z++) {
                if (dps[q.first][z] == 0 && longs && c.r.chance(1, tailed && z + 3 >= l.size() ? 2 : 6)) { longs--; out.push_back((c.r.chance(1, 2) ? "; " : "zzlong" + std::to_string(longs) + " = 1 // ") + string((size_t)c.r.pick(vector<int>{ 100, 2030, 2040, 2046, 2047, 2048, 2049, 4095, 4096, 5000, 9000, 12000 }) + (size_t)c.r.below(3), c.r.chance(1, 2) ? 'c' : '7') + eol); }
                for (auto& b : q.second) if (b.first == z) { out.push_back(b.second + eol); char m[40]; snprintf(m, sizeof m, "bad%03d", id++); bool twice = false; (void)twice; s.meta[m] = q.first + "|" + std::to_string(out.size()) + "|" + std::to_string(out.size()) + "|" + (put == 1 || (!k.syntax && !strncmp(k.msg, "Invalid", 7)) || !strncmp(k.msg, "END_S", 5) || !strncmp(k.msg, "Can't", 5) ? "1" : "0") + "|" + k.msg; }
                if (z < l.size()) out.push_back(l[z]);
            }
            fs_file(s.fs, q.first, join_lines(out));
        }
        if (gone) continue;
        if (k.syntax != 2) s.meta["only"] = !strncmp(k.msg, "Value", 5) || k.syntax ? "first" : "all";   // a refused value is followed by one message about the gap it leaves; the rest of a file with a syntax error is missing in the following files
        s.meta["noshrink"] = "1"; s.meta["nosteps"] = "1"; budget(run0(s), ref); world(c, run0(s)); c.check(s);
    }
}

// ================================================================ C24: the listing shows each statement beside its bytes
struct LRow { string file, text; ListItem item; bool has = false; };
vector<LRow> listing_rows(const string& t) {
    vector<LRow> v; string file; 
    for (auto& x0 : lines_of_text(t)) { string x = chomp(x0); if (x.compare(0, 13, "; Processing ") == 0) { file = x.substr(13); continue; }
        LRow r; r.file = file; auto it = parse_listing(x + "\n"); if (!it.empty()) { r.has = true; r.item = it[0]; } if (x.size() > 45) r.text = x.substr(45); else r.text = ""; v.push_back(r); }
    return v;
}
Verdict j_c24(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.empty()) return v; auto& rr = e.runs.back(); auto& r = rr.r; if (!r.success()) return v; const Run& run = s.steps[rr.step].run; Outputs o = outputs_of(run.argv, s.cwd); if (o.lst.empty() || !r.fs.count(o.lst)) return v;
    auto rows = listing_rows(r.fs.at(o.lst).str()); v.nontrivial = true;
    map<string, Lines> shown; for (auto& x : rows) if (x.text.find_first_not_of(" \t") != string::npos) shown[base_name(x.file)].push_back(x.text);
    std::set<string> src; { string cur; for (char ch : s.meta.count("sources") ? s.meta.at("sources") + "," : string()) { if (ch == ',') { if (!cur.empty()) src.insert(cur); cur.clear(); } else cur += ch; } }
    for (auto& p : src) {
        auto f = rr.before.find(p); if (f == rr.before.end()) continue; Lines want; for (auto& l : lines_of_text(f->second.str())) { string t = chomp(l); if (t.find_first_not_of(" \t") != string::npos) want.push_back(t); }
        auto& got = shown[base_name(p)]; size_t n = 0; while (n < got.size() && n < want.size() && got[n] == want[n]) n++;
        if (n < got.size() || n < want.size()) v.fail("listing-text", "the listing of " + p + " shows " + (n < got.size() ? show(got[n]) : string("nothing")) + " instead of " + (n < want.size() ? show(want[n]) : string("nothing")) + " (its statement " + std::to_string(n + 1) + ")");
    }
    for (size_t z = 0; z < rows.size(); z++) { auto& x = rows[z]; if (!x.has) continue; for (size_t y = z + 1; y < rows.size() && rows[y].has && rows[y].text.find_first_not_of(" \t") == string::npos && rows[y].file == x.file; y++) x.item.bytes += rows[y].item.bytes; size_t q = x.text.find(";mk "); if (q == string::npos) continue; string want; const char* p = x.text.c_str() + q + 4; while (isxdigit((unsigned char)p[0]) && isxdigit((unsigned char)p[1])) { want += (char)strtol(string(p, 2).c_str(), nullptr, 16); p += 2; } if (x.item.bytes != want) v.fail("listing-row", "the row of " + show(x.text) + " shows the bytes " + show(x.item.bytes)); }
    // every marked statement is shown with bytes
    for (auto& p : src) { auto f = rr.before.find(p); if (f == rr.before.end()) continue; for (auto& l : lines_of_text(f->second.str())) { size_t q = l.find(";mk "); if (q == string::npos) continue; string t = chomp(l); bool ok = false; for (auto& x : rows) if (x.has && x.text == t) ok = true; if (!ok) { v.fail("listing-row", "the statement " + show(t) + " of " + p + " has no bytes in the listing"); break; } } }
    return v;
}
void x_c24(Ctx& c) {
    GenOpt o = opts(c); o.print_dirs = false; o.force_all = true; Workload w = gen_program(c.r, o); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (!ref.success()) return;
    for (int i = 0; i < 3 && !c.stop; i++) {
        Scenario s = scn(w, "marked"); int serial = 0, longer = 0; string list;
        for (auto& p : w.sources) { list += (list.empty() ? "" : ",") + p; Lines l = lines_of_text(w.fs[p].str()), out; vector<int> d = depths(l); bool crlf = !l.empty() && l[0].size() > 1 && l[0][l[0].size() - 2] == '\r';
            if (p == w.sources[0] && c.r.chance(1, 40)) longer = c.r.range(300, 66000);   // sources of any length
            for (size_t z = 0; z <= l.size(); z++) {
                if (longer && d[z] == 0 && z && l[z - 1].back() == '\n') { for (; longer > 0; longer--) out.push_back(c.r.chance(1, 4) ? crlf ? "; \r\n" : ";\n" : crlf ? "\r\n" : "\n"); s.family = "marked-long"; }
                if (d[z] == 0 && (z == 0 || l[z - 1].back() == '\n') && c.r.chance(1, 4)) { string by, text; serial++; auto b = [&](int x) { char t[8]; snprintf(t, sizeof t, "%02x", x & 255); by += t; }; int x = c.r.below(256), y = c.r.below(256); char t[120];
                    switch (c.r.below(9)) {
                    case 0: snprintf(t, sizeof t, ".byte $%02x,$%02x,%d", x, y, serial & 255); b(x); b(y); b(serial); break;
                    case 1: snprintf(t, sizeof t, "lda #$%02x", x); b(0xA9); b(x); break;
                    case 2: snprintf(t, sizeof t, ".word $%02x%02x", x, y); b(y); b(x); break;
                    case 3: snprintf(t, sizeof t, "jmp $%02x%02x", x | 1, y); b(0x4c); b(y); b(x | 1); break;
                    case 4: snprintf(t, sizeof t, "sta $%02x%02x,x", x | 1, y); b(0x9d); b(y); b(x | 1); break;
                    case 5: snprintf(t, sizeof t, "inx"); b(0xe8); break;
                    case 6: snprintf(t, sizeof t, ".byte %d", x); b(x); break;
                    case 7: snprintf(t, sizeof t, ".str \"%c%c\"", 'a' + x % 26, 'A' + y % 26); b('a' + x % 26); b('A' + y % 26); break;
                    default: snprintf(t, sizeof t, "rts"); b(0x60); }
                    out.push_back(c.r.pick(vector<string>{ "    ", "\t", " " }) + string(t) + " ;mk " + by + " " + std::to_string(serial) + (crlf ? "\r\n" : "\n")); }
                else if (d[z] == 0 && (z == 0 || l[z - 1].back() == '\n') && c.r.chance(1, 20)) out.push_back((c.r.chance(1, 2) ? "; " : "    nop // ") + string((size_t)c.r.pick(vector<int>{ 60, 200, 2040, 2046, 2047, 2048, 2049, 4096, 5000 }) + (size_t)c.r.below(3), 'c') + (crlf ? "\r\n" : "\n"));
                if (z < l.size()) out.push_back(l[z]);
            }
            fs_file(s.fs, p, join_lines(out)); }
        s.meta["sources"] = list; s.meta["noshrink"] = "1"; s.meta["nosteps"] = "1"; budget(run0(s), ref); if (s.family == "marked-long") { run0(s).step_budget = 400000000; run0(s).call_budget = 20000000; } world(c, run0(s)); c.check(s);
    }
}

// ================================================================ C22: inactive text has no effect
Verdict j_c22(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; same_program(v, s, e, "inactive-text", "with inactive text added", false);
    if (e.runs.size() < 2 || v.bad) return v;
    auto& b = e.runs.back().r; const Run& rb = s.steps[e.runs.back().step].run; Outputs o = outputs_of(rb.argv, s.cwd);
    for (size_t i = 0; i < rb.rules.size() && i < b.rule_fired.size(); i++) if (rb.rules[i].op == OP_OPEN && b.rule_fired[i]) v.fail("inactive-text", string("a file named only in inactive text was opened: ") + rb.rules[i].path);
    if (b.out.find("DEADTEXT") != string::npos && !has_arg(rb.argv, "-v")) v.fail("inactive-text", "inactive text was printed");
    if (!o.sym.empty() && b.fs.count(o.sym) && (lower(b.fs.at(o.sym).str()).find("deadsym") != string::npos || lower(b.fs.at(o.sym).str()).find("deadref") != string::npos)) v.fail("inactive-text", "a symbol of inactive text was defined");
    return v;
}
string dead_items(Ctx& c, bool lexical, bool top, int depth, int& n) {
    string t; int k = c.r.range(1, 5);
    for (int i = 0; i < k; i++) {
        n++; string num = std::to_string(n);
        int q = c.r.below(lexical ? 26 : 19); if (!lexical && q >= 16) q += 10;
        switch (q) {
        case 0: t += "    lda #" + num + "\n"; break;
        case 1: t += "    .byte 1,2,3\n"; break;
        case 2: t += "    .word $1234\n"; break;
        case 3: t += "    .inc \"dead.inc\"\n"; break;
        case 4: t += "    .load \"dead.bin\"\n"; break;
        case 5: t += "deadsym" + num + " = 5\n"; break;
        case 6: t += "    .print \"DEADTEXT\"\n"; break;
        case 7: t += "    .byte 700\n"; break;
        case 8: t += "    *= $2000\n"; break;
        case 9: t += "    .fill 1,20\n"; break;
        case 10: t += "    ; .endif .else\n"; break;
        case 11: t += "/* .endif\n   .else */\n"; break;
        case 12: t += "    .byte \"ab.endif .else .if\"\n"; break;
        case 13: if (depth < 3) { bool els = c.r.chance(1, 2); string head = c.r.pick(vector<string>{ "    .if 1\n", "    .if 0\n", "    .if 2 > 1\n" }); t += head + dead_items(c, lexical, top, depth + 1, n) + (els ? "    .else\n" + dead_items(c, lexical, top, depth + 1, n) : "") + "    .endif\n"; } break;
        case 14: if (depth < 3) { bool els = c.r.chance(1, 2); t += c.r.pick(vector<string>{ ".ifdef deadundef\n", ".ifndef deadundef\n" }) + dead_items(c, lexical, top, depth + 1, n) + (els ? c.r.pick(vector<string>{ ".else\n", "    .ELSE\n" }) + dead_items(c, lexical, top, depth + 1, n) : "") + ".endif\n"; } break;
        case 15: t += "    .repeat\n    nop\n    .until 1 == 1\n"; break;
        case 16: t += "deadsym" + num + " nop\n"; break;
        case 17: t += "    this is no $$ (((( statement\n"; break;
        case 18: t += "    .macro deadsym" + num + "\n    nop\n    .endm\n"; break;
        case 19: t += "    jmp deadsym_undefined\n"; break;
        case 26: t += "    " + c.r.pick(vector<string>{ "jmp deadref", "lda #<deadref", "sta deadref+1,x", "lda (deadref),y", "bne deadref" }) + "\n"; break;
        case 27: t += "    " + c.r.pick(vector<string>{ ".word deadref", ".byte <deadref,>deadref", ".fill deadref,2", "lda @deadref", "bcc --", "beq ++" }) + "\n"; break;
        case 28: t += "    .var deadsym" + num + " = deadref\n    lda #deadsym" + num + "\n"; break;
        case 20: t += "    .c64\n    .65c02 on\n"; break;
        case 21: t += "    .print off\n    .warn off\n    .illegal on\n"; break;
        case 22: t += "    .section deadsec\n"; break;
        case 23: t += "    // .endif\n"; break;
        case 24: t += "    .end\n"; break;
        case 25: t += "    lda scope.if_x\n    .byte 'a\n"; break;
        }
    }
    if (t.empty() || (!lexical && t.find_first_not_of(" \t\n") == string::npos)) t += "    nop\n";
    return t;
}
// nesting of any depth
string deep_dead(Ctx& c, bool lexical, int& n) {
    int d = c.r.pick(vector<int>{ 20, 24, 25, 26, 30, 47, 49, 50, 51, 74, 76, 100, 130 }) + c.r.below(3), st = c.r.below(lexical ? 3 : 2); string t; vector<int> kind;
    for (int i = 0; i < d; i++) { int q = st == 2 ? c.r.below(2) : st; kind.push_back(q); t += q ? (c.r.chance(1, 2) ? ".ifdef deadundef\n" : ".ifndef deadundef\n") : (c.r.chance(1, 2) ? "    .if 1\n" : "    .if 0\n"); if (c.r.chance(1, 15)) t += dead_items(c, false, false, 3, n); }
    for (int i = d - 1; i >= 0; i--) { if (c.r.chance(1, 12)) t += dead_items(c, false, false, 3, n); if (c.r.chance(1, 10)) t += (kind[(size_t)i] ? ".else\n" : "    .else\n") + dead_items(c, false, false, 3, n); t += kind[(size_t)i] ? ".endif\n" : "    .endif\n"; }
    return t + dead_items(c, false, false, 3, n);
}
void x_c22(Ctx& c) {
    GenOpt o = opts(c); o.force_all = c.r.chance(1, 2); o.print_dirs = false; o.prints = c.r.chance(1, 4);
    Workload w = gen_program(c.r, o); const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (!ref.success()) return;
    for (int i = 0; i < 4 && !c.stop; i++) {
        FS to = w.fs; int k = c.r.range(1, 4), n = 0, done = 0;
        for (int j = 0; j < k; j++) {
            string f = c.r.pick(w.sources); Lines l = lines_of_text(to[f].str()); if (l.empty()) continue; vector<int> dp = depths(l);
            size_t at = (size_t)c.r.below((int)l.size() + 1); if (dp[at] < 0 || (at && l[at - 1].back() != '\n')) continue;
            bool top = dp[at] == 0; string ins;
            if (at && l[at - 1].find(".ifdef") != string::npos) {}
            switch (c.r.below(13)) {
            case 12: if (!top) continue; ins = "    .macro deadmac" + std::to_string(++n) + "\n" + (c.r.chance(1, 2) ? "@deadl\n" : "") + dead_items(c, false, false, 2, n) + "    .endm\n"; break;
            case 11: { // behind .end
                string last; CmdLine cl = parse_cmd(w.argv); if (cl.inputs.empty()) continue; for (auto& p : w.sources) if (base_name(p) == base_name(cl.inputs.back())) last = p; if (last.empty()) continue;
                string t = to[last].str(); Lines tl = lines_of_text(t); auto td = depths(tl); if (t.empty() || t.back() != '\n' || td.back() != 0) continue;
                fs_file(to, last, t + c.r.pick(vector<string>{ "    .end\n", "\t.END ; x\n" }) + dead_items(c, false, true, 0, n)); done++; continue; }
            case 9: case 10: { // comments between the words of existing lines
                int m = c.r.range(1, 6); for (int z = 0; z < m; z++) {
                    size_t q = (size_t)c.r.below((int)l.size()); if (dp[q] < 0 || l[q].compare(0, 2, "/*") == 0) continue; string& x = l[q]; vector<size_t> gap; bool str = false;
                    for (size_t g = 0; g < x.size() && x[g] != '\n' && x[g] != '\r'; g++) { char ch = x[g]; if (str) { if (ch == '\\') g++; else if (ch == '"') str = false; continue; } if (ch == '"') { str = true; continue; } if (ch == '\'') break; if (ch == ';' || (ch == '/' && x[g + 1] == '/')) break; if (ch == '/' && x[g + 1] == '*') break; if (ch == ' ' || ch == '\t' || ch == ',' || ch == '(' || ch == ')' || g == 0) gap.push_back(g); }
                    string dd = directive(x); if (gap.empty()) continue;
                    size_t g = c.r.pick(gap); size_t lead = x.find_first_not_of(" \t"); if (dd == ".print" || dd == ".ifdef" || dd == ".ifndef" || dd == ".illegal" || dd == ".warn" || (dd.size() > 1 && isdigit((unsigned char)dd[1]))) { if (g > lead && g != string::npos) continue; }   // one word for the scanner
                    if (x.find("*") != string::npos && x.find('=') != string::npos && g > lead) continue;   // "* =" as well
                    x.insert(g, c.r.pick(vector<string>{ "/* c */", "/**/", " /* \"q\" .endif */ ", "/* ; // */", "/* it's */" }) ); dp = depths(l); done++; }
                fs_file(to, f, join_lines(l)); continue; }
            case 0: ins = ".ifdef deadundef\n" + (c.r.chance(1, 6) ? deep_dead(c, true, n) : dead_items(c, true, top, 0, n)) + ".endif\n"; break;
            case 1: ins = "    .ifndef deadundef\n    .else\n" + dead_items(c, true, top, 0, n) + "    .endif\n"; break;
            case 2: ins = "    .if 0\n" + (c.r.chance(1, 6) ? deep_dead(c, false, n) : dead_items(c, false, top, 0, n)) + "    .endif\n"; break;
            case 3: ins = "    .if 1\n    .else\n" + dead_items(c, false, top, 0, n) + "    .endif\n"; break;
            case 4: { string d = dead_items(c, true, top, 3, n); Lines x = lines_of_text(d); for (auto& q : x) ins += "; " + q; break; }
            case 5: { string d = dead_items(c, true, top, 3, n); if (d.find("*/") != string::npos) d = "  lda #1\n  .endif\n"; ins = "/*\n" + d + "*/\n"; break; }
            case 6: { string d = dead_items(c, true, top, 3, n); Lines x = lines_of_text(d); for (auto& q : x) ins += "    // " + q; break; }
            case 7: ins = ".ifdef deadundef\n" + dead_items(c, true, top, 0, n) + ".else\n.endif\n"; break;
            default: { // active code that was not conditional becomes the active branch
                if (!top || at >= l.size()) continue; size_t e2 = at + 1 + (size_t)c.r.below(6); if (e2 > l.size()) e2 = l.size(); if (dp[e2] != 0 || l[e2 - 1].back() != '\n') continue;
                bool plain = true; for (size_t q = at; q < e2; q++) { string dd = directive(l[q]); if (dd == ".section" || dd == ".sect" || dd == ".ends" || dd == ".end") plain = false; }
                if (!plain) continue;
                bool neg = c.r.chance(1, 2); string dead = dead_items(c, true, top, 0, n);
                ins = (neg ? ".ifndef deadundef\n" : ".ifdef deadundef\n" + dead + ".else\n") + join_lines(l, at, e2) + (neg && c.r.chance(1, 2) ? ".else\n" + dead : "") + ".endif\n";
                if (c.r.chance(1, 6)) { int d = c.r.range(20, 110); string a, z; for (int q = 0; q < d; q++) { bool lex = true; string dd = c.r.chance(1, 8) ? dead_items(c, false, false, 3, n) : string(); a += lex ? ".ifndef deadundef\n" : "    .if 1\n"; z = (dd.empty() ? "" : (lex ? ".else\n" : "    .else\n") + dd) + (lex ? ".endif\n" : "    .endif\n") + z; } ins = a + join_lines(l, at, e2) + z; }
                fs_file(to, f, join_lines(l, 0, at) + ins + join_lines(l, e2)); done++; continue; }
            }
            fs_file(to, f, join_lines(l, 0, at) + ins + join_lines(l, at)); done++;
        }
        if (!done) continue;
        Scenario s = scn(w, "inactive"); budget(run0(s), ref); world(c, run0(s)); Run r2 = run0(s); world(c, r2);
        if (c.r.chance(1, 2)) { fs_file(to, path_join(w.cwd, "dead.inc"), "    .byte 1,2\ndeadsym = 4\n"); fs_file(to, path_join(w.cwd, "dead.bin"), "xyz"); }
        r2.rules.push_back(mkrule(OP_OPEN, path_join(w.cwd, "dead.inc"), 1, -1, c.r.pick(vector<int>{ EIO, EACCES, ENOENT }))); r2.rules.push_back(mkrule(OP_OPEN, path_join(w.cwd, "dead.bin"), 1, -1, EIO));
        second(s, w.fs, to, r2); c.check(s);
    }
}

// ================================================================ C23: names and spelling do not matter
const char* const g_stems[] = { "Lab", "loop", "entry_", "data", "Sub", "L", "VAL", "k_", "va", "vb", "ii", "many", "mac", "Push", "add16_", "movw", "scope", "in", "CMD", "undefd" };
bool generated_name(const string& s) { for (auto st : g_stems) { size_t n = strlen(st); if (s.compare(0, n, st)) continue; size_t i = n; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i > n && (i == s.size() || s.substr(i) == "_long_name_for_label")) return true; } return false; }
string respell(const string& t, const std::function<string(const string&)>& f) {
    string o; size_t i = 0;
    while (i < t.size()) {
        char ch = t[i];
        if (ch == ';') { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); size_t q = t.find(";ref ", i); if (q == i) { o += ";ref "; i += 5; continue; } o += t.substr(i, j - i); i = j; continue; }
        if (ch == '/' && i + 1 < t.size() && t[i + 1] == '*') { size_t j = t.find("*/", i); if (j == string::npos) j = t.size(); else j += 2; o += t.substr(i, j - i); i = j; continue; }
        if (ch == '/' && i + 1 < t.size() && t[i + 1] == '/') { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); o += t.substr(i, j - i); i = j; continue; }
        if (ch == '"') { size_t j = i + 1; while (j < t.size() && t[j] != '"' && t[j] != '\n') { if (t[j] == '\\') j++; j++; } if (j < t.size()) j++; o += t.substr(i, j - i); i = j; continue; }
        if (ch == '\'' && i + 2 < t.size() && t[i + 2] == '\'') { o += t.substr(i, 3); i += 3; continue; }
        if (ch == '$' || ch == '\\' || ch == '%' || ch == '@' || isdigit((unsigned char)ch)) { o += ch; i++; while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) o += t[i++]; continue; }
        if (isalpha((unsigned char)ch) || ch == '_') { size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++; o += f(t.substr(i, j - i)); i = j; continue; }
        o += ch; i++;
    }
    return o;
}
Verdict j_c23(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; map<string, string> m; auto it = s.meta.find("names"); if (it != s.meta.end()) { string k, cur; for (char ch : it->second + ",") { if (ch == '=') { k = cur; cur.clear(); } else if (ch == ',') { if (!k.empty()) m[lower(k)] = cur; k.clear(); cur.clear(); } else cur += ch; } }
    auto ren = [&](const string& n) { string o, cur; for (char ch : n + ".") { if (ch == '.') { auto i = m.find(lower(cur)); o += (o.empty() ? "" : ".") + (i == m.end() ? cur : i->second); cur.clear(); } else cur += ch; } return o; };
    same_program(v, s, e, "names", s.meta.count("sections") ? "with plain names instead of names in sections" : s.meta.count("local") ? "with named labels instead of local ones" : "with other names", !s.meta.count("local"), ren);
    return v;
}
void x_c23(Ctx& c) {
    int kind = c.r.below(6);
    if (kind < 2) { // local labels against named ones
        string a, b; Workload w = gen_edge(c.r, &a, &b); w.argv = { "pasm", "-o", "out.bin", "-s", "out.sym", "-l", "out.lst", "prog.s" }; FS one = w.fs, two = w.fs; fs_file(one, "/w/prog.s", a); fs_file(two, "/w/prog.s", b); w.fs = one;
        const Result& ref = run_ref(w.fs, w.cwd, w.argv); const Result& r2f = run_ref(two, w.cwd, w.argv); if (!ref.success() && !r2f.success()) return;
        Scenario s = scn(w, "local-labels"); s.meta["local"] = "1"; budget(run0(s), ref); world(c, run0(s)); Run r2 = run0(s); world(c, r2); second(s, one, two, r2); c.check(s); return;
    }
    GenOpt o = opts(c); o.print_dirs = false; o.prints = c.r.chance(1, 4); o.force_all = c.r.chance(1, 2);
    Workload w = gen_program(c.r, o); const Result ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig) return;
    bool sect = false; for (auto& t : w.tags) if (t == "section" || t == "open-section") sect = true;
    if (sect && c.r.chance(1, 2)) { // plain unique names instead of names in sections
        FS to = w.fs; int self = 0;
        for (auto& p : w.sources) { Lines l = lines_of_text(w.fs[p].str()); string last;
            for (auto& x : l) { string d = directive(x); bool crlf = x.size() > 1 && x[x.size() - 2] == '\r';
                if (d == ".section" || d == ".sect" || d == ".ends" || d == ".endsection") { x = crlf ? ";\r\n" : ";\n"; continue; }
                if (x.compare(0, 9, "same jmp ") == 0) { string n = "same" + std::to_string(self++); x = n + " jmp " + n + x.substr(13); continue; }
                size_t q; while ((q = x.find("scope")) != string::npos && x.find(';') > q) { size_t z = x.find(".in", q); if (z == string::npos) break; x.erase(q, z + 1 - q); } }
            fs_file(to, p, join_lines(l)); }
        const Result& r2f = run_ref(to, w.cwd, w.argv); if (!ref.success() && !r2f.success()) return;
        Scenario s = scn(w, "sections"); s.meta["local"] = "1"; s.meta["sections"] = "1"; budget(run0(s), ref.success() ? ref : r2f); world(c, run0(s)); Run r2 = run0(s); world(c, r2); second(s, w.fs, to, r2); c.check(s); return;
    }
    if (!ref.success()) return;
    std::set<string> names; for (auto& p : w.sources) respell(w.fs[p].str(), [&](const string& n) { if (generated_name(n)) names.insert(n); return n; }); for (size_t i = 0; i + 1 < w.argv.size(); i++) if (w.argv[i] == "-d") names.insert(w.argv[i + 1]);
    if (names.empty()) return;
    for (int i = 0; i < 3 && !c.stop; i++) {
        map<string, string> m; std::set<string> used; int style = c.r.below(7), serial = c.r.below(900); vector<string> order(names.begin(), names.end()); for (size_t q = order.size(); q > 1; q--) std::swap(order[q - 1], order[(size_t)c.r.below((int)q)]);
        string longp((size_t)(names.size() < 120 && c.r.chance(1, 5) ? c.r.pick(vector<int>{ 200, 250, 255, 300, 500, 510, 1000, 1020, 2030 }) + c.r.below(12) : c.r.range(20, 110)), 'n'); for (auto& ch : longp) ch = (char)('a' + c.r.below(26)); static const char* res[] = { "lda", "byte", "nop", "x", "y", "a", "if", "endif", "end", "not", "inc", "macro", "org", "ff", "b0", "adc", "bbr0", "rmb3", "on", "off", "else" };
        for (auto& nm : order) {
            string x; int g = 0;
            do { int st = style == 6 ? c.r.below(6) : style; serial++;
                switch (st) {
                case 0: { x = "_"; int n = c.r.range(1, 3) + g / 20; for (int z = 0; z < n; z++) x += "abcdefghijklmnopqrstuvwxyz0123456789_"[c.r.below(37)]; break; }
                case 1: x = longp + std::to_string(serial); break;
                case 2: x = longp.substr(0, (size_t)c.r.range(5, 20)) + "_" + std::to_string(serial); if (c.r.chance(1, 2)) for (auto& ch : x) ch = (char)toupper(ch); break;
                case 3: x = string(res[c.r.below((int)(sizeof res / sizeof *res))]) + "_" + (c.r.chance(1, 2) ? std::to_string(serial % 30) : ""); break;
                case 4: { char b[40]; snprintf(b, sizeof b, "z%04d", 9999 - serial % 9000); x = b; break; }
                default: { x = ""; int n = c.r.range(4, 12); for (int z = 0; z < n; z++) x += (char)(c.r.chance(1, 2) ? 'l' : 'o'); x += "_"; break; } }
            } while ((used.count(lower(x)) || names.count(x) || strncasecmp(x.c_str(), "dead", 4) == 0) && ++g < 400);
            if (g >= 400) break;
            used.insert(lower(x)); m[nm] = x;
        }
        if (m.size() != names.size()) continue;
        bool keep = style == 5 && c.r.chance(1, 2), cs = c.r.chance(1, 2); if (keep) for (auto& q : m) q.second = q.first;
        auto f = [&](const string& n) { string x = n; auto it = m.find(n); if (it != m.end()) x = it->second; else { bool cased = false; (void)cased; } if (cs && (it != m.end() || c.r.chance(1, 3))) for (auto& ch : x) if (c.r.chance(1, 2)) ch = (char)(islower((unsigned char)ch) ? toupper(ch) : tolower(ch)); return x; };
        FS to = w.fs; for (auto& p : w.sources) fs_file(to, p, respell(w.fs[p].str(), f)); vector<string> a = w.argv; for (size_t q = 0; q + 1 < a.size(); q++) if (a[q] == "-d") { auto it = m.find(a[q + 1]); if (it != m.end()) a[q + 1] = it->second; }
        Scenario s = scn(w, keep ? "letter-case" : "names"); string meta; for (auto& q : m) meta += (meta.empty() ? "" : ",") + q.first + "=" + q.second; s.meta["names"] = meta;
        budget(run0(s), ref); world(c, run0(s)); Run r2 = run0(s); world(c, r2); r2.argv = a; second(s, w.fs, to, r2); c.check(s);
    }
}
