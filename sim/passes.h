// The number of passes a program takes does not matter (C27). Part of props.cc (inside its namespaces).
Verdict j_c27(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.size() < 2) return v;
    auto &a = e.runs.front().r, &b = e.runs.back().r;
    if (fired(b)) {           // a fault while the passes go on: the program or nothing
        v.nontrivial = true; if (a.hang || a.sig) return v; orderly(v, b); if (b.code || v.bad) return v;
    }
    same_program(v, s, e, "passes", "the same program taking more passes", false);
    if (v.bad || a.code || b.code) return v;
    Outputs oa = outputs_of(s.steps[e.runs.front().step].run.argv, s.cwd), ob = outputs_of(s.steps[e.runs.back().step].run.argv, s.cwd);
    if (oa.sym.empty() || !a.fs.count(oa.sym) || !b.fs.count(ob.sym)) return v;
    auto x = parse_symbols(a.fs.at(oa.sym).str()), y = parse_symbols(b.fs.at(ob.sym).str());   // the links of the chains are not used alike
    for (auto& i : x) if (!y.count(i.first) && (i.first.compare(0, 3, "zzc") || i.first.compare(0, 4, "zzcu") == 0)) v.fail("passes", "the same program taking more passes: symbol " + i.first + " is missing from the symbol file");
    for (auto& i : y) if (!x.count(i.first) && (i.first.compare(0, 3, "zzc") || i.first.compare(0, 4, "zzcu") == 0)) v.fail("passes", "the same program taking more passes: additional symbol " + i.first);
    return v;
}
// n definitions, each one by the next, and the same values written down; what uses the first one is common to both
struct Chain { string flat, chained, uses; int n; };
// moving: uses whose size depends on the value; a branch that was out of range once stays a jump, so only without branches
Chain make_chain(Rng& r, int serial, int n, bool moving) {
    Chain c; c.n = n; string z = "zzc" + std::to_string(serial) + "_", u = "zzcu" + std::to_string(serial); int kind = r.below(7);
    auto nm = [&](int j) { return j == 0 ? u : z + std::to_string(j); }; auto def = [&](string& t, int j, const string& val, bool equ) { t += nm(j) + (equ ? " .equ " : " = ") + val + "\n"; };
    vector<long> val((size_t)n + 1); long last = r.pick(vector<long>{ 5, 200, 255, 256, 300, 0x1234, 0x8000, 40000 }); val[(size_t)n] = last; vector<string> ex((size_t)n + 1);
    for (int j = n - 1; j >= 0; j--) { long p = val[(size_t)j + 1], q = p; string e = nm(j + 1);
        switch (kind) {
        case 0: break;
        case 1: q = p + 1; e += " + 1"; break;
        case 2: if (p > 0) { q = p - 1; e += " - 1"; } break;
        case 3: q = p & 255; e = "<" + e; break;
        case 4: q = p ^ 1; e += " ^ 1"; break;
        case 5: q = (p & 0x7f00) >> 8 | 0x100; e = "(" + e + " & $7f00) / 256 + $100"; break;
        default: if (p >= 7) { q = p - 7; e = e + " - 7"; } else { q = p + 7; e += " + 7"; } break;
        }
        val[(size_t)j] = q; ex[(size_t)j] = e; }
    bool equ = r.chance(1, 3); vector<int> order; for (int j = 0; j <= n; j++) order.push_back(j); int sh = r.below(5); if (sh == 0) for (int j = n; j > 0; j--) std::swap(order[(size_t)j], order[(size_t)r.below(j + 1)]);
    for (int j : order) { def(c.flat, j, std::to_string(val[(size_t)j]), equ); def(c.chained, j, j == n ? std::to_string(last) : ex[(size_t)j], equ); }
    int k = r.chance(1, 3) ? r.range(5, 60) : r.below(6); long V = val[0]; int m = r.below(6);
    for (int i = 0; i < k; i++) switch (k > 6 ? m : r.below(7)) {
        case 0: c.uses += "    .word " + u + "\n"; break;
        case 1: c.uses += "    .byte <" + u + ", >" + u + "\n"; break;
        case 2: c.uses += "    lda #<" + u + "\n"; break;
        case 3: c.uses += "    jmp " + u + "\n"; break;
        case 4: c.uses += (moving ? "    sta " : "    .word ") + u + "\n"; break;
        case 5: c.uses += "    .word " + u + " + $10, 1 + " + u + "\n"; break;
        default: c.uses += "    .if " + u + " == " + std::to_string(V) + "\n    .byte 1, 2\n    .else\n    .byte 3" + (moving ? "" : ", 4") + "\n    .endif\n"; break;
    }
    return c;
}
void x_c27(Ctx& c) {
    GenOpt o = opts(c); o.force_all = c.r.chance(1, 2); o.print_dirs = false; o.prints = c.r.chance(1, 4);
    bool model = c.r.chance(1, 5); Workload w = model ? gen_model(c.r, true, false) : gen_program(c.r, o);
    bool err = c.r.chance(1, 8); if (err) inject_error(c.r, w, c.r.pick(vector<int>{ 0, 1, 2, 3, 4, 5, 7, 8, 9 }));
    CmdLine cl = parse_cmd(w.argv); if (cl.inputs.empty()) return;
    for (int i = 0; i < 4 && !c.stop; i++) {
        FS flat = w.fs, chained = w.fs; int k = c.r.range(1, 3), serial = 0, longest = 0;
        for (int q = 0; q < k; q++) {
            string f = c.r.pick(w.sources); if (!flat.count(f)) continue; Lines l = lines_of_text(flat[f].str()), l2 = lines_of_text(chained[f].str()); vector<int> dp = depths(l); if (l.empty() || l.size() != l2.size()) continue;
            size_t at = c.r.chance(1, 3) ? l.size() : (size_t)c.r.below((int)l.size() + 1); if (at && l[at - 1].back() != '\n') at = 0; if (dp[at] != dp[0]) continue;
            Chain ch = make_chain(c.r, serial++, c.r.range(1, c.thorough ? 16 : 14), model); longest = std::max(longest, ch.n);
            bool before = c.r.chance(1, 2); auto put = [&](const string& d) { return before ? ch.uses + d : d + ch.uses; };
            fs_file(flat, f, join_lines(l, 0, at) + put(ch.flat) + join_lines(l, at)); fs_file(chained, f, join_lines(l2, 0, at) + put(ch.chained) + join_lines(l2, at));
        }
        if (!serial) continue;
        const Result& ref = run_ref(flat, w.cwd, w.argv); if (ref.hang || ref.sig || (!err && !ref.success())) continue;
        Workload w1 = w; w1.fs = flat;
        Scenario s = scn(w1, "passes-" + std::to_string(longest > 8 ? 9 : longest > 3 ? 4 : 1)); if (c.r.chance(1, 2)) world(c, run0(s)); budget(run0(s), ref); run0(s).step_budget = 400000000; run0(s).call_budget = 20000000; Run r2 = run0(s); if (c.r.chance(1, 2)) world(c, r2);
        second(s, s.fs, chained, r2);
        if (c.r.chance(1, 6)) { const Result& rr = run_ref(chained, w.cwd, w.argv); if (!rr.hang && !rr.sig) { string p = c.r.pick(w.sources); Run pr; pr.argv = w.argv; auto h = probe_hits(chained, w.cwd, pr, { { OP_OPEN, p }, { OP_READ, p }, { OP_SEEK, p } }); int which = c.r.below(3); int op = which == 0 ? OP_OPEN : which == 1 ? OP_READ : OP_SEEK; if (h[(size_t)which]) s.steps.back().run.rules.push_back(mkrule(op, p, c.r.range(1, h[(size_t)which]), 1, EIO)); s.family += "-fault"; } }
        c.check(s);
    }
}
