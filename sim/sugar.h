// Macro calls, loops, data directives and expressions stand for their written-out form (C28). Part of props.cc (inside its namespaces).
// A program is generated as a tree and rendered twice: with macros, loops, conditionals, expressions, @ labels (sugar), and
// written out by a small interpreter of the tree (plain): literals, single data directives, one line per repetition, plain names.
struct SX; typedef std::shared_ptr<SX> X;
struct SX { char k = 'n'; long v = 0; string s; X a, b; };   // n number, s symbol, p parameter, u - , ~, N not, l low, h high, binary operators
struct SVal { string label; long v = 0; bool ok = true; };
struct SS { string k; string mn, suf; vector<X> e; string name, to; vector<SS> body, els; int n = 0, style = 0; };
struct Sugar {
    Rng& r; string main_a, main_b, macs_a; int serial = 0, uniq = 0, bytes = 0; long fuel = 20000; bool bad = false, over = false, late = false;
    struct Mac { string name; vector<char> par; vector<SS> body; };   // par: 'n' number, 'a' address
    vector<Mac> macs; vector<string> labels, allvars, small; map<string, long> env, consts; vector<string> lits;
    vector<Mac> fmacs; bool cmos = false;   // macros that branch to their argument, bra
    bool err = false, assign = true; int cur_par = -1; int indo = 0;
    std::set<string> kinds;
    Sugar(Rng& q) : r(q) {}
    X num(long v) { X x(new SX); x->v = v; return x; }
    X bin(const string& op, X a, X b) { X x(new SX); x->k = 'b'; x->s = op; x->a = a; x->b = b; return x; }
    X un(char k, X a) { X x(new SX); x->k = k; x->a = a; if (k == 'l' || k == 'h') x->v = r.below(2); return x; }
    X sym(const string& s) { X x(new SX); x->k = 's'; x->s = s; return x; }
    X leaf(const vector<string>& vars, const Mac* m) {
        vector<X> c; if (!vars.empty()) { c.push_back(sym(r.pick(vars))); c.push_back(sym(r.pick(vars))); }
        if (m) for (size_t i = 0; i < m->par.size(); i++) if (m->par[i] == 'n') { X x(new SX); x->k = 'p'; x->v = (long)i; c.push_back(x); }
        if (!consts.empty() && r.chance(1, 2)) { auto it = consts.begin(); std::advance(it, r.below((int)consts.size())); c.push_back(sym(it->first)); }
        if (c.empty() || r.chance(1, 2)) return num(r.chance(1, 2) ? r.below(12) : r.chance(1, 2) ? r.below(256) : r.below(60000));
        return r.pick(c);
    }
    X expr(const vector<string>& vars, const Mac* m, int d) {
        if (d <= 0 || r.chance(1, 4)) return leaf(vars, m);
        switch (r.below(16)) {
        case 0: case 1: case 2: return bin("+", expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 3: case 4: return bin("-", expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 5: return bin("*", leaf(vars, m), num(r.below(8)));
        case 6: return bin("/", expr(vars, m, d - 1), num(r.range(1, 9)));
        case 7: return bin("&", expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 8: return bin("|", expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 9: return bin("^", expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 10: return bin("<<", leaf(vars, m), num(r.below(5)));
        case 11: return bin(">>", un('l', expr(vars, m, d - 1)), num(r.below(5)));
        case 12: return bin(r.pick(vector<string>{ "<", ">", "<=", ">=", "==", "!=", "<>", "&&", "||" }), expr(vars, m, d - 1), expr(vars, m, d - 1));
        case 13: return un(r.pick(vector<char>{ '~', 'N', 'u' }), expr(vars, m, d - 1));
        default: return un(r.chance(1, 2) ? 'l' : 'h', expr(vars, m, d - 1));
        }
    }
    X cond(const vector<string>& vars, const Mac* m) { X e = bin(r.pick(vector<string>{ "<", ">", "<=", ">=", "==", "!=", "<>" }), expr(vars, m, 1), expr(vars, m, 1)); if (r.chance(1, 4)) e = bin(r.chance(1, 2) ? "&&" : "||", e, bin("<", leaf(vars, m), leaf(vars, m))); if (r.chance(1, 8)) e = un('N', e); return e; }
    X byte(const vector<string>& vars, const Mac* m) { X e = expr(vars, m, r.range(1, 3)); return r.chance(1, 2) ? bin("&", e, num(255)) : un(r.chance(1, 2) ? 'l' : 'h', e); }
    X word(const vector<string>& vars, const Mac* m) { X e = expr(vars, m, r.range(1, 3)); return bin("&", e, num(r.chance(1, 3) ? 255 : 0x7fff)); }
    // an address: a label, with or without a distance, a parameter that is an address, or a number
    X addr(const vector<string>& vars, const Mac* m) {
        vector<X> c; if (m) for (size_t i = 0; i < m->par.size(); i++) if (m->par[i] == 'a') { X x(new SX); x->k = 'p'; x->v = (long)i; c.push_back(x); c.push_back(x); }
        if (!labels.empty()) c.push_back(sym(r.pick(labels))); if (c.empty() || r.chance(1, 4)) return word(vars, m);
        X a = r.pick(c); if (r.chance(1, 3)) a = bin("+", a, r.chance(1, 2) ? num(r.below(9)) : bin("&", leaf(vars, m), num(63))); return a;
    }
    string lit(long v) { char b[40]; switch (r.below(9)) { case 0: case 1: snprintf(b, sizeof b, "$%lx", v); return b; case 2: snprintf(b, sizeof b, "$%04lX", v); return b; case 3: if (v > 0 && v < 4096) { string s; for (long x = v; x; x >>= 1) s.insert(s.begin(), (char)('0' + (x & 1))); return (r.chance(1, 2) ? "%" : "0b") + s; } break; case 4: if (v >= 'A' && v <= 'z' && v != '\\' && v != '\'' && v != '"' && v != ';') return string("'") + (char)v + "'"; break; default: break; } return std::to_string(v); }
    static int prec(const X& x) { if (x->k != 'b') return x->k == 'n' || x->k == 's' || x->k == 'p' ? 9 : 0; if (x->s == "*" || x->s == "/") return 5; if (x->s == "+" || x->s == "-") return 4; return 1; }
    string text(const X& x) {
        switch (x->k) {
        case 'n': if (x->s.empty()) x->s = lit(x->v); return x->s;
        case 's': return x->s;
        case 'p': return "\\" + std::to_string(x->v + 1);
        case 'u': return "-(" + text(x->a) + ")";
        case '~': return "~(" + text(x->a) + ")";
        case 'N': return "not (" + text(x->a) + ")";
        case 'l': return "<" + par(x->a, x->v ? 4 : 6);
        case 'h': return ">" + par(x->a, x->v ? 4 : 6);
        default: { int p = prec(x); string sp = (x->v & 1) ? "" : " "; if (p == 1) sp = " "; return par(x->a, p == 1 ? 6 : p) + sp + x->s + sp + par(x->b, p == 1 ? 6 : p + 1); }
        }
    }
    string par(const X& x, int p) { string t = text(x); return prec(x) >= p ? t : "(" + t + ")"; }
    string operand(const X& x) { string t = text(x); return t[0] == '(' || t[0] == '-' || t[0] == '<' || t[0] == '>' || t[0] == '~' ? (prec(x) >= 4 ? "0+" + t : "0+(" + t + ")") : t; }
    SVal eval(const X& x, const vector<SVal>& args) {
        SVal z; switch (x->k) {
        case 'n': z.v = x->v; return z;
        case 's': { auto i = env.find(x->s); if (i != env.end()) { z.v = i->second; return z; } auto j = consts.find(x->s); if (j != consts.end()) { z.v = j->second; return z; } z.label = x->s; return z; }
        case 'p': if ((size_t)x->v < args.size()) return args[(size_t)x->v]; z.ok = false; return z;
        case 'u': case '~': case 'N': case 'l': case 'h': { SVal a = eval(x->a, args); if (!a.label.empty()) { z.ok = false; return z; } z.v = x->k == 'u' ? -a.v : x->k == '~' ? ~a.v & (a.v & ~0xffl ? 0xffff : 0xff) : x->k == 'N' ? !a.v : x->k == 'l' ? a.v & 255 : (a.v & 0xffff) >> 8; z.ok = a.ok; return z; }
        default: {
            SVal a = eval(x->a, args), b = eval(x->b, args); if (!a.ok || !b.ok) { z.ok = false; return z; }
            if (!a.label.empty() && x->s == "+" && b.label.empty()) { a.v += b.v; return a; }
            if (!a.label.empty() || !b.label.empty()) { z.ok = false; return z; }
            int p = (int)a.v, q = (int)b.v; const string& s = x->s; int w = 0;
            if (s == "+") w = p + q; else if (s == "-") w = p - q; else if (s == "*") w = p * q; else if (s == "/") w = q ? p / q : 0; else if (s == "&") w = p & q; else if (s == "|") w = p | q; else if (s == "^") w = p ^ q;
            else if (s == "<<") { if (p < 0) z.ok = false; else w = p << q; } else if (s == ">>") w = p >> q; else if (s == "<") w = p < q; else if (s == ">") w = p > q; else if (s == "<=") w = p <= q; else if (s == ">=") w = p >= q; else if (s == "==") w = p == q; else if (s == "&&") w = p && q; else if (s == "||") w = p || q; else w = p != q;
            z.v = w; return z; }
        }
    }
    string value(const SVal& v) { if (!v.ok) { bad = true; return "0"; } if (v.label.empty()) { if (v.v < 0) bad = true; return std::to_string(v.v); } return v.v ? v.label + (v.v < 0 ? "-" : "+") + std::to_string(labs(v.v)) : v.label; }
    // ---- generation
    SS instr(const vector<string>& vars, const Mac* m) {
        SS s; s.k = "ins"; switch (r.below(8)) {
        case 0: s.mn = r.pick(vector<string>{ "nop", "tax", "iny", "clc", "pha", "rts", "asl a" }); break;
        case 1: case 2: case 3: s.mn = r.pick(vector<string>{ "lda", "ldx", "cmp", "adc", "ora", "cpy" }); s.suf = "#"; if (r.chance(1, 4)) { s.e.push_back(un(r.chance(1, 2) ? 'l' : 'h', addr(vars, m))); s.n = 1; } else s.e.push_back(byte(vars, m)); break;
        case 4: s.mn = r.pick(vector<string>{ "lda", "sta", "adc", "eor", "inc", "asl" }); s.suf = r.pick(vector<string>{ "", ",x" }); s.e.push_back(addr(vars, m)); break;
        case 5: s.mn = r.pick(vector<string>{ "lda", "sta", "cmp" }); s.suf = ",y"; s.e.push_back(addr(vars, m)); break;
        case 6: s.mn = r.pick(vector<string>{ "jmp", "jsr" }); s.e.push_back(addr(vars, m)); break;
        default: s.mn = r.pick(vector<string>{ "lda", "sta" }); s.suf = r.pick(vector<string>{ "(),y", "(,x)" }); s.e.push_back(bin("&", expr(vars, m, 2), num(255))); break; }
        return s;
    }
    SS data(const vector<string>& vars, const Mac* m) {
        SS s; switch (r.below(9)) {
        case 0: case 1: case 2: s.k = "byte"; for (int i = r.range(1, 4); i > 0; i--) s.e.push_back(r.chance(1, 5) && !labels.empty() ? un(r.chance(1, 2) ? 'l' : 'h', sym(r.pick(labels))) : r.chance(1, 4) && !small.empty() ? sym(r.pick(small)) : byte(vars, m)); break;
        case 3: case 4: s.k = "word"; for (int i = r.range(1, 3); i > 0; i--) s.e.push_back(r.chance(1, 2) ? addr(vars, m) : r.chance(1, 3) ? leaf(vars, m) : word(vars, m)); break;
        case 5: s.k = "fill"; s.e.push_back(bin("&", expr(vars, m, 2), num(255))); s.e.push_back(bin("&", expr(vars, m, 2), num(15))); break;
        case 6:
        default: { s.k = "str"; int n = r.range(2, 12); for (int i = 0; i < n; i++) s.name += r.pick(vector<string>{ "a", "Z", "q", "7", " ", ",", ".", "#", "<", "\\n", "\\t", "\\\"", "\\\\", "\\x41q", "'", ";", "/" }); break; } }
        s.style = r.below(4);
        return s;
    }
    vector<SS> block(int n, const vector<string>& vars, const Mac* m, int depth, bool ats) { vector<SS> v; for (int i = 0; i < n; i++) stmt(v, vars, m, depth, ats); if (v.empty()) v.push_back(instr(vars, m)); return v; }
    void stmt(vector<SS>& v, const vector<string>& vars, const Mac* m, int depth, bool ats) {
        int k = r.below(depth < 3 ? 22 : 11);
        if (k < 6) { v.push_back(instr(vars, m)); return; }
        if (k < 10) { v.push_back(data(vars, m)); return; }
        if (k < 11) { if (!err || vars.empty()) { v.push_back(instr(vars, m)); return; } SS s; s.k = "byte"; s.e.push_back(bin("+", bin("&", sym(r.pick(vars)), num(15)), num(r.range(240, 255)))); v.push_back(s); return; }   // may be out of range
        SS s;
        if (k < 14) { // loop over a variable of its own
            static const char* ks[] = { "for", "for", "repeat", "while", "do" }; s.k = ks[r.below(5)]; if (s.k == "while" && indo) s.k = "repeat"; s.name = "vv" + std::to_string(serial++); s.style = r.below(4); kinds.insert("loop");
            vector<string> in = vars; in.push_back(s.name); int a = r.below(6), cnt = r.range(1, depth ? 4 : 8);
            if (s.k == "for") { int st = r.range(1, 3) * (r.chance(1, 4) ? -1 : 1); s.n = st; int to = a + st * (cnt - 1) + (st > 0 ? r.below(st) : -r.below(-st)); if (st < 0) { a += 40; to += 40; } X from = num(a), tx = num(to); if (r.chance(1, 3)) { X q = bin("&", leaf(vars, m), num(3)); from = bin("+", q, num(a)); } s.e = { from, tx }; }
            else { s.e = { num(a), num(a + cnt) }; s.n = r.below(3); }
            if (s.k == "do") indo++; s.body = block(r.range(1, 3), in, m, depth + 1, false); if (s.k == "do") indo--;
            v.push_back(s); return; }
        if (k < 16) { s.k = "if"; s.e.push_back(cond(vars, m)); s.body = block(r.range(1, 3), vars, m, depth + 1, false); if (r.chance(1, 2)) s.els = block(r.range(1, 2), vars, m, depth + 1, false); kinds.insert("if"); v.push_back(s); return; }
        if (k == 20) { X e = r.chance(1, 2) ? leaf(vars, m) : word(vars, m); s.k = "lvar"; s.name = "lv" + std::to_string(serial++); s.e.push_back(e); kinds.insert("var"); v.push_back(s); vector<string> in = vars; in.push_back(s.name); for (int i = r.range(1, 3); i > 0; i--) { if (r.chance(1, 3)) { SS q; q.k = "set"; q.name = s.name; q.e.push_back(bin("&", bin("+", sym(s.name), leaf(in, m)), num(0x3fff))); v.push_back(q); } stmt(v, in, m, depth + 1, ats); } return; }
        if (k == 21) { s.k = "reg"; s.name = r.pick(vector<string>{ "x", "y", "X", "Y" }); s.n = r.chance(1, 2) ? 1 : -1; int p = r.chance(1, 4) ? 0 : r.below(256), q = r.chance(1, 6) ? 255 : r.chance(1, 8) ? p : r.below(256); if (s.n < 0 && q == 0) q = 1;   // .downto 0 branches on a carry that nothing sets
            s.e = { r.chance(1, 3) ? bin("+", bin("&", leaf(vars, m), num(1)), num(p & 254)) : num(p), num(q) }; s.body = block(r.range(1, 3), vars, m, 9, false); kinds.insert("loop"); v.push_back(s); return; }
        if (k < 19 && !macs.empty()) { const Mac& c = r.pick(macs); s.k = "call"; s.name = c.name; for (char p : c.par) { X e = p == 'a' ? addr(vars, m) : r.chance(1, 2) ? leaf(vars, m) : word(vars, m); s.e.push_back(e); } kinds.insert("macro"); v.push_back(s); return; }
        if (assign && !allvars.empty() && r.chance(1, 2)) { s.k = "set"; s.name = r.pick(allvars); s.e.push_back(bin("&", bin("+", sym(s.name), r.chance(1, 2) ? num(r.range(1, 9)) : leaf(vars, m)), num(r.chance(1, 2) ? 255 : 0x3ff))); kinds.insert("var"); v.push_back(s); return; }
        v.push_back(data(vars, m)); (void)ats;
    }
    // a branch to a label out of its reach
    SS far(const string& l) { SS s; s.k = "far"; s.mn = cmos && r.chance(1, 5) ? "bra" : r.pick(vector<string>{ "bne", "beq", "bcs", "bcc", "bmi", "bpl", "bvs", "bvc" }); s.name = l; kinds.insert("far"); return s; }
    void farcall(vector<SS>& v, const string& l) { if (fmacs.empty() || r.chance(2, 3)) { v.push_back(far(l)); return; } SS s; s.k = "call"; s.name = r.pick(fmacs).name; s.e.push_back(sym(l)); v.push_back(s); }
    vector<SS> farblock(const string& l) { vector<SS> v = block(r.range(0, 3), allvars, nullptr, r.chance(1, 2) ? 0 : 9, false); for (auto& z : v) if (!z.body.empty() && r.chance(1, 2)) z.body.push_back(far(l)); for (int i = r.range(1, 3); i > 0; i--) { farcall(v, l); if (r.chance(1, 3)) v.push_back(instr(allvars, nullptr)); } return v; }
    // sections: names used inside them stand for their full names
    struct Sec { string name; vector<string> labels; vector<Sec> in; };
    map<string, string> full; map<string, long> fconst; vector<string> fullnames; int nsec = 0;
    Sec section(const string& path, int depth) {
        Sec q; q.name = r.pick(vector<string>{ "aa", "bb", "Sect", "c_3" }); string me = path + q.name + ".";
        for (int i = r.range(0, 3); i > 0; i--) { string n = r.pick(vector<string>{ "x1", "loop", "val", "tmp_", "Z9" }); if (full.count(me + n)) continue; if (r.chance(1, 4)) { fconst[me + n] = r.below(256); full[me + n] = std::to_string(fconst[me + n]); } else full[me + n] = "zz_" + std::to_string(uniq++); fullnames.push_back(me + n); q.labels.push_back(n); }
        for (int i = depth < 4 ? r.range(0, depth ? 2 : 3) : 0; i > 0; i--) q.in.push_back(section(me, depth + 1));
        return q;
    }
    SS sref(const string& text, const string& f) { SS s; s.k = "sref"; s.name = text; s.to = full.at(f); s.mn = fconst.count(f) ? r.pick(vector<string>{ "lda #", "cmp #", ".byte " }) : r.pick(vector<string>{ "jmp ", "lda ", "sta ", "jsr ", ".word ", "bne " }); return s; }
    void secbody(vector<SS>& v, const Sec& q, const string& path) {
        string me = path + q.name + "."; SS s; s.k = "sec"; s.name = q.name; v.push_back(s);
        auto refs = [&] { for (int i = r.below(3); i > 0; i--) { if (!q.labels.empty() && r.chance(2, 3)) { string n = r.pick(q.labels); if (!fconst.count(me + n)) v.push_back(sref(n, me + n)); } else if (!fullnames.empty()) { string f = r.pick(fullnames); if (!fconst.count(f)) v.push_back(sref(f, f)); } } };
        for (auto& n : q.labels) if (fconst.count(me + n)) { SS d; d.k = "sequ"; d.name = n; d.n = (int)fconst[me + n]; v.push_back(d); v.push_back(sref(r.chance(1, 2) ? n : me + n, me + n)); }
        size_t k = 0; auto part = [&] { refs(); if (r.chance(1, 2)) for (auto& z : block(r.range(1, 2), allvars, nullptr, r.chance(1, 4) ? 1 : 9, false)) v.push_back(z); };
        for (auto& n : q.labels) { if (fconst.count(me + n)) continue; part(); SS d; d.k = "slab"; d.name = n; d.to = full.at(me + n); d.style = r.below(2); v.push_back(d); v.push_back(instr(allvars, nullptr)); if (k < q.in.size() && r.chance(1, 2)) secbody(v, q.in[k++], me); }
        for (; k < q.in.size(); k++) { part(); secbody(v, q.in[k], me); }
        part(); SS e; e.k = "ends"; v.push_back(e);
    }
    // a macro with labels of its own that is called some hundred times
    void often() {
        Mac m; m.name = "often_"; bool p = r.chance(1, 2); if (p) m.par.push_back('n'); string n = "@" + r.pick(vector<string>{ "x", "l0", "lp" }) + "7";
        auto ref = [&](const char* mn) { SS s; s.k = "ref"; s.mn = mn; s.name = n; m.body.push_back(s); }; auto one = [&](const char* mn, bool par) { SS s; s.k = "ins"; s.mn = mn; if (par) { X x(new SX); x->k = 'p'; s.suf = "#"; s.e.push_back(un('l', x)); } m.body.push_back(s); };
        if (r.chance(1, 2)) ref("beq"); if (p) one("ldx", true); SS l; l.k = "at"; l.name = n; m.body.push_back(l); one("dex", false); ref(r.pick(vector<string>{ "bne", "jmp" }).c_str()); macs.push_back(m);
    }
    void macro() {
        Mac m; m.name = r.pick(vector<string>{ "mm", "put_", "Word" }) + std::to_string(macs.size()); int n = r.chance(1, 6) ? r.range(8, 12) : r.range(0, 4); for (int i = 0; i < n; i++) m.par.push_back(r.chance(1, 3) ? 'a' : 'n');
        vector<SS> b; int at = r.chance(1, 2) ? r.range(1, 2) : 0; vector<string> names; for (int i = 0; i < at; i++) names.push_back("@" + r.pick(vector<string>{ "x", "l0", "lp" }) + std::to_string(i));
        bool local = !names.empty(); if (local) kinds.insert("at-in-macro"); int parts = at + 1;
        for (int i = 0; i < parts; i++) { auto q = block(r.range(1, 3), allvars, &m, 1, local); for (auto& z : q) { b.push_back(z); if (local && r.chance(1, 3)) { SS s; s.k = "ref"; s.mn = r.pick(vector<string>{ "jmp", "lda", "sta", "bne", "bcc" }); s.name = r.pick(names); b.push_back(s); } } if (i < at) { SS s; s.k = "at"; s.name = names[(size_t)i]; b.push_back(s); } }
        m.body = b; macs.push_back(m);
    }
    // ---- rendering
    string ind() { return r.pick(vector<string>{ "    ", "\t", "  " }); }
    string cas(const string& s) { if (!r.chance(1, 8)) return s; string o = s; for (auto& c : o) c = (char)toupper(c); return o; }
    void insx(string& t, const SS& s, const string& e) {
        string x = ind() + s.mn; if (s.suf == "#") x += " #" + e; else if (s.suf == "(),y") x += " (" + e + "),y"; else if (s.suf == "(,x)") x += " (" + e + ",x)"; else if (!s.e.empty()) x += " " + e + s.suf; t += x + "\n"; }
    string strtext(const SS& s) { return s.name; }
    void sugar(string& t, const vector<SS>& v) {
        for (auto& s : v) {
            if (s.k == "ins") insx(t, s, s.e.empty() ? string() : s.suf.empty() || s.suf[0] == ',' ? operand(s.e[0]) : text(s.e[0]));
            else if (s.k == "byte" || s.k == "word") { t += ind() + cas(s.k == "byte" ? (s.style & 1 ? ".db" : ".byte") : s.style & 1 ? (s.style & 2 ? ".dw" : ".dcw") : ".word") + " "; for (size_t i = 0; i < s.e.size(); i++) t += (i ? (s.style & 2 ? ", " : ",") : "") + text(s.e[i]); t += "\n"; }
            else if (s.k == "fill") t += ind() + cas(".fill") + " " + text(s.e[0]) + ", " + text(s.e[1]) + "\n";
            else if (s.k == "ds") t += ind() + cas(".ds") + " " + text(s.e[0]) + "\n";
            else if (s.k == "str") t += ind() + cas(r.pick(vector<string>{ ".str", ".text", ".string" })) + " \"" + s.name + "\"\n";
            else if (s.k == "label") t += s.name + (s.style ? ":\n" : "\n");
            else if (s.k == "at") t += s.name + "\n";
            else if (s.k == "ref") t += ind() + s.mn + " " + s.name + "\n";
            else if (s.k == "sec") t += ind() + cas(r.chance(1, 2) ? ".section" : ".sect") + " " + s.name + "\n";
            else if (s.k == "ends") t += ind() + cas(r.chance(1, 2) ? ".ends" : ".endsection") + "\n";
            else if (s.k == "slab") t += s.name + (s.style ? ":\n" : "\n");
            else if (s.k == "sequ") t += s.name + " = " + std::to_string(s.n) + "\n";
            else if (s.k == "sref") t += ind() + s.mn + s.name + "\n";
            else if (s.k == "far") t += ind() + cas(s.mn) + " " + s.name + "\n";
            else if (s.k == "raw") t += s.name;
            else if (s.k == "macs") t += macs_a;
            else if (s.k == "set") t += ind() + s.name + " = " + text(s.e[0]) + "\n";
            else if (s.k == "call") { t += ind() + s.name; for (size_t i = 0; i < s.e.size(); i++) { t += (i ? ", " : " ") + operand(s.e[i]); } t += "\n"; }
            else if (s.k == "if") { t += ind() + cas(".if") + " " + text(s.e[0]) + "\n"; sugar(t, s.body); if (!s.els.empty()) { t += ind() + cas(".else") + "\n"; sugar(t, s.els); } t += ind() + cas(".endif") + "\n"; }
            else if (s.k == "lvar") t += ind() + cas(".var") + " " + s.name + " = " + text(s.e[0]) + "\n";
            else if (s.k == "reg") { t += ind() + cas(".for") + " " + cas(s.name == "x" || s.name == "X" ? ".regx" : ".regy") + " = " + text(s.e[0]) + " " + cas(s.n > 0 ? ".to" : ".downto") + " " + text(s.e[1]) + "\n"; sugar(t, s.body); t += ind() + cas(".next") + " " + s.name + "\n"; }
            else if (s.k == "for") { t += ind() + ".var " + s.name + "\n"; t += ind() + cas(".for") + " " + s.name + " = " + text(s.e[0]) + " .to " + text(s.e[1]); if (s.n != 1 || s.style == 0) t += " .step " + (s.n < 0 ? "-" + std::to_string(-s.n) : std::to_string(s.n)); t += "\n"; sugar(t, s.body); t += ind() + cas(".next") + " " + s.name + "\n"; }
            else { string lim = text(s.e[1]), rel = s.n == 0 ? "!=" : "<"; t += ind() + ".var " + s.name + " = " + text(s.e[0]) + "\n"; if (s.k == "while") t += ind() + ".while " + s.name + " " + rel + " " + lim + "\n"; else t += ind() + cas("." + s.k) + "\n";
                sugar(t, s.body); t += ind() + s.name + " = " + s.name + " + 1\n"; if (s.k == "while") t += ind() + ".wend\n"; else if (s.k == "repeat") t += ind() + cas(".until") + " " + s.name + (s.n == 0 ? " == " : " >= ") + lim + "\n"; else t += ind() + cas(".while") + " " + s.name + " " + rel + " " + lim + "\n"; }
        }
    }
    void plain(string& t, const vector<SS>& v, const vector<SVal>& args, const map<string, string>& ats, int depth) {
        for (auto& s : v) {
            if (--fuel < 0 || bytes > 9000) { over = true; return; }
            if (s.k == "ins") { bytes += 3; string e; if (!s.e.empty()) { if (s.n == 1) { SVal q = eval(s.e[0]->a, args); e = string(s.e[0]->k == 'l' ? "<" : ">") + value(q); } else e = value(eval(s.e[0], args)); } insx(t, s, e); }
            else if (s.k == "byte") for (auto& x : s.e) { bytes++; string e; if (x->k == 'l' || x->k == 'h') { SVal q = eval(x->a, args); if (!q.label.empty()) e = string(x->k == 'l' ? "<" : ">") + value(q); } t += "    .byte " + (e.empty() ? value(eval(x, args)) : e) + "\n"; }
            else if (s.k == "word") for (auto& x : s.e) { bytes += 2; t += "    .word " + value(eval(x, args)) + "\n"; }
            else if (s.k == "fill") { SVal a = eval(s.e[0], args), n = eval(s.e[1], args); for (long i = 0; i < n.v; i++) { bytes++; t += "    .byte " + value(a) + "\n"; } }
            else if (s.k == "ds") { SVal n = eval(s.e[0], args); for (long i = 0; i < n.v; i++) { bytes++; t += "    .byte 0\n"; } }
            else if (s.k == "str") { for (size_t i = 0; i < s.name.size(); i++) { int c = (unsigned char)s.name[i]; if (c == '\\') { c = (unsigned char)s.name[++i]; if (c == 'n') c = 10; else if (c == 't') c = 9; else if (c == 'x') { c = 0x41; i += 2; } else if (c == '1') { c = 0101; i += 2; } } bytes++; t += "    .byte " + std::to_string(c) + "\n"; } }
            else if (s.k == "label") t += s.name + "\n";
            else if (s.k == "at") { auto i = ats.find(s.name); t += (i == ats.end() ? s.name : i->second) + "\n"; }
            else if (s.k == "ref") { bytes += 5; auto i = ats.find(s.name); t += "    " + s.mn + " " + (i == ats.end() ? s.name : i->second) + "\n"; }
            else if (s.k == "sec" || s.k == "ends" || s.k == "sequ") {}
            else if (s.k == "slab") t += s.to + "\n";
            else if (s.k == "sref") { bytes += 5; t += "    " + s.mn + s.to + "\n"; }
            else if (s.k == "far") { bytes += 5; static const map<string, string> opp = { { "bne", "beq" }, { "beq", "bne" }, { "bcs", "bcc" }, { "bcc", "bcs" }, { "bmi", "bpl" }, { "bpl", "bmi" }, { "bvs", "bvc" }, { "bvc", "bvs" } };
                string to = s.name[0] == '\\' ? value(args.at(0)) : s.name, l = "zz_" + std::to_string(uniq++); if (s.mn == "bra") t += "    jmp " + to + "\n"; else t += "    " + opp.at(s.mn) + " " + l + "\n    jmp " + to + "\n" + l + "\n"; }
            else if (s.k == "raw") { bytes += 3; t += s.name; }
            else if (s.k == "macs") {}
            else if (s.k == "set") env[s.name] = eval(s.e[0], args).v;
            else if (s.k == "call") { vector<Mac> all = macs; all.insert(all.end(), fmacs.begin(), fmacs.end()); for (auto& m : all) if (m.name == s.name) { vector<SVal> a; for (auto& x : s.e) { a.push_back(eval(x, args)); if (!a.back().ok) bad = true; } map<string, string> at; for (auto& z : m.body) if (z.k == "at") at[z.name] = "zz_" + std::to_string(uniq++); plain(t, m.body, a, at, depth + 1); break; } }
            else if (s.k == "if") { SVal c = eval(s.e[0], args); plain(t, c.v ? s.body : s.els, args, ats, depth); }
            else if (s.k == "lvar") { SVal q = eval(s.e[0], args); if (!q.ok || !q.label.empty()) bad = true; env[s.name] = q.v; }
            else if (s.k == "reg") { long p = eval(s.e[0], args).v, q = eval(s.e[1], args).v; char x = (char)tolower(s.name[0]); if (s.n > 0 ? p > q : p < q) continue; bytes += 8; string l = "zz_" + std::to_string(uniq++), c = string(1, x); t += "    ld" + c + " #" + std::to_string(p) + "\n" + l + "\n"; plain(t, s.body, args, ats, depth); if (over) return; if (p == q) continue;
                t += s.n > 0 ? "    in" + c + "\n" : "    de" + c + "\n"; if (s.n < 0 || q < 255) t += "    cp" + c + " #" + std::to_string(s.n > 0 ? q + 1 : q) + "\n"; t += string(s.n < 0 ? "    bcs " : q < 255 ? "    bcc " : "    bne ") + l + "\n"; }
            else if (s.k == "for") { long to = eval(s.e[1], args).v, i = eval(s.e[0], args).v; env[s.name] = i; while (s.n > 0 ? i <= to : i >= to) { plain(t, s.body, args, ats, depth); if (over) return; i += s.n; env[s.name] = i; } }
            else { long to = eval(s.e[1], args).v; env[s.name] = eval(s.e[0], args).v; auto go = [&] { long i = env[s.name]; return s.n == 0 ? i != to : i < to; };
                if (s.k == "while") { while (go()) { plain(t, s.body, args, ats, depth); if (over) return; env[s.name]++; } }
                else do { plain(t, s.body, args, ats, depth); if (over) return; env[s.name]++; } while (go()); }
        }
    }
    struct Region { vector<SS> v; map<string, string> ats; };
    vector<Region> regions; string head_a, head_b, name_a;
    void program(bool c64) {
        int nl = r.range(1, 7), nc = r.below(5), nv = r.below(4), nm = r.below(5); for (int i = 0; i < nl; i++) labels.push_back(r.pick(vector<string>{ "Lb", "lab_", "Far" }) + std::to_string(i));
        string o = r.chance(1, 2) ? "    *= $" : "    .org $"; char t[20]; snprintf(t, sizeof t, "%X\n", r.range(0x300, 0xa000)); head_a = head_b = r.chance(1, 12) ? string() : o + t; (void)c64;
        for (int i = 0; i < nc; i++) { string n = "KK" + std::to_string(i); X e = expr({}, nullptr, r.range(0, 3)); if (r.chance(1, 3)) e = word({}, nullptr); long v = eval(e, {}).v; if (v < 0 || v > 60000) { e = bin("&", e, num(0x3fff)); v &= 0x3fff; } string eq = r.chance(1, 3) ? " .equ " : " = "; head_a += n + eq + text(e) + "\n"; head_b += n + eq + std::to_string(v) + "\n"; consts[n] = v; if (v < 256) small.push_back(n); }
        string list; for (int i = 0; i < nv; i++) {
            string n = "gv" + std::to_string(i); long v = r.below(300); string init = v ? " = " + std::to_string(v) : string();
            if (r.chance(1, 2)) { X e = r.chance(1, 2) ? leaf(allvars, nullptr) : word(allvars, nullptr); v = eval(e, {}).v; init = " = " + text(e); }
            list += (list.empty() ? ind() + cas(".var") + " " : r.chance(1, 2) ? ", " : ",") + n + init; if (r.chance(1, 2) || i + 1 == nv) { head_a += list + "\n"; list.clear(); }
            env[n] = v; allvars.push_back(n); }
        bool times = nm && r.chance(1, 12); for (int i = 0; i < nm; i++) { if (times && i == 0) often(); else macro(); auto& m = macs.back(); macs_a += ind() + cas(r.chance(1, 2) ? ".macro" : ".mac") + " " + m.name + "\n"; sugar(macs_a, m.body); macs_a += ind() + cas(r.chance(1, 2) ? ".endm" : ".endmacro") + "\n"; }
        bool late_macros = nm && r.chance(1, 2); int nf = r.chance(1, 3) ? r.range(1, 2) : 0; cmos = nf && r.chance(1, 2);
        for (int i = r.chance(1, 2) && nf ? r.range(1, 2) : 0; i > 0; i--) { Mac m; m.name = "jump_" + std::to_string(i); m.par.push_back('a'); m.body = block(r.range(0, 2), allvars, &m, 9, false); m.body.push_back(far("\\1")); if (r.chance(1, 2)) m.body.push_back(instr(allvars, &m)); fmacs.push_back(m); macs_a += ind() + ".macro " + m.name + "\n"; sugar(macs_a, m.body); macs_a += ind() + ".endm\n"; }
        if (late_macros) {   // the macros come after code that has labels of all kinds
            late = true; vector<Mac> keep; keep.swap(macs); labels.push_back("Pre_"); Region g; SS s; s.k = "label"; s.name = "Pre_"; g.v.push_back(s); string n = "@" + r.pick(vector<string>{ "x0", "l00", "lp0" }); bool at = r.chance(2, 3);
            for (auto& z : block(r.range(1, 3), allvars, nullptr, 9, true)) g.v.push_back(z); if (at) { SS q; q.k = "at"; q.name = n; g.v.push_back(q); g.ats[n] = "zz_" + std::to_string(uniq++); } if (r.chance(1, 3)) { SS q; q.k = "raw"; q.name = "- dex\n    bne -\n"; g.v.push_back(q); }
            SS d; d.k = "macs"; g.v.push_back(d); macs.swap(keep); for (auto& z : block(r.range(1, 3), allvars, nullptr, 1, true)) g.v.push_back(z); if (at) { SS q; q.k = "ref"; q.mn = r.pick(vector<string>{ "jmp", "bne", "lda" }); q.name = n; g.v.push_back(q); } regions.push_back(g); labels.pop_back(); }
        bool first = true;
        for (auto& l : labels) {
            Region g; if (!(first && r.chance(1, 3))) {} { SS s; s.k = "label"; s.name = l; s.style = r.chance(1, 5); g.v.push_back(s); } first = false;
            vector<string> names; int na = r.chance(1, 2) ? r.range(1, 3) : 0; for (int i = 0; i < na; i++) { string n = "@" + r.pick(vector<string>{ "x", "l", "lp" }) + std::to_string(i); names.push_back(n); g.ats[n] = "zz_" + std::to_string(uniq++); } if (na) kinds.insert("at");
            bool plus = false; int parts = na + 1 + r.below(2);
            for (int i = 0; i < parts; i++) {
                for (auto& z : block(r.range(1, 4), allvars, nullptr, 0, true)) { g.v.push_back(z);
                    if (na && r.chance(1, 3)) { SS s; s.k = "ref"; s.mn = r.pick(vector<string>{ "jmp", "lda", "sta", "bne", "bcc" }); s.name = r.pick(names); g.v.push_back(s); }
                    if (r.chance(1, 10)) { SS s; s.k = "raw"; s.name = plus ? "+ nop\n" : "    jmp +\n"; plus = !plus; g.v.push_back(s); }
                    if (r.chance(1, 14)) { SS s; s.k = "raw"; s.name = "- dex\n    bne -\n"; g.v.push_back(s); }
                    if (r.chance(1, 10)) { SS s; s.k = "ref"; s.mn = r.pick(vector<string>{ "bne", "beq", "bcs", "bcc", "bmi", "bpl" }); s.name = r.pick(labels); g.v.push_back(s); } }
                if (i < na) { SS s; s.k = "at"; s.name = names[(size_t)i]; g.v.push_back(s); } }
            if (plus) { SS s; s.k = "raw"; s.name = "+ nop\n"; g.v.push_back(s); }
            regions.push_back(g);
            if (nf > 0 && (r.chance(1, 2) || &l == &labels.back())) { nf--; string a = "edge" + std::to_string(uniq++) + "_", b = a + "b"; Region f; SS q; q.k = "label"; q.name = a; f.v.push_back(q); for (auto& z : farblock(b)) f.v.push_back(z); SS d; d.k = "fill"; d.e = { num(r.below(256)), num(r.range(130, 260)) }; f.v.push_back(d); for (auto& z : farblock(a)) f.v.push_back(z); q.name = b; f.v.push_back(q); f.v.push_back(instr(allvars, nullptr)); regions.push_back(f); }
        }
        if (times) { int n = r.range(100, 700); Region g; SS f; f.k = "for"; f.style = 1; f.n = 1; f.name = "vv" + std::to_string(serial++); f.e = { num(1), num(n) }; SS c; c.k = "call"; c.name = "often_"; bool p = false; for (auto& m : macs) if (m.name == "often_") p = !m.par.empty(); if (p) c.e.push_back(sym(f.name)); f.body.push_back(c); g.v.push_back(f); kinds.insert("many-calls"); regions.push_back(g); }
        // sections between the regions; inside them only what is defined before is known by its short name
        for (int n = r.chance(1, 3) ? r.range(1, 3) : 0; n > 0; n--) {
            size_t at = (size_t)r.range(late_macros ? 1 : 0, (int)regions.size()); vector<string> known, keep = labels; for (size_t i = 0; i < at; i++) for (auto& z : regions[i].v) if (z.k == "label" && std::count(keep.begin(), keep.end(), z.name)) known.push_back(z.name);
            vector<Mac> km; km.swap(macs); labels = known; Region g; Sec q = section("", 0); assign = false; secbody(g.v, q, ""); assign = true; regions.insert(regions.begin() + (long)at, g); labels = keep; km.swap(macs); kinds.insert("section"); }
        if (!fullnames.empty()) for (auto& g : regions) { bool sec = false; for (auto& z : g.v) if (z.k == "sec" || z.k == "macs") sec = true; if (!sec && r.chance(1, 3)) { string f = r.pick(fullnames); if (!fconst.count(f)) g.v.push_back(sref(f, f)); } }
        map<string, long> e0 = env; for (auto& g : regions) { sugar(main_a, g.v); } env = e0; for (auto& g : regions) plain(main_b, g.v, {}, g.ats, 0);
    }
};
Verdict j_c28(const Scenario& s, Exec& e) {
    e = execute(s); Verdict v; if (e.runs.size() < 2) return v;
    auto &a = e.runs.front().r, &b = e.runs.back().r;
    if (fired(b)) { v.nontrivial = true; if (a.hang || a.sig) return v; orderly(v, b); if (b.code || v.bad) return v; }
    same_program(v, s, e, "written-out", "with macros, loops and expressions instead of their written-out form", false);
    return v;
}
void x_c28(Ctx& c) {
    for (int i = 0; i < 3 && !c.stop; i++) {
        Sugar g(c.r); g.err = c.r.chance(1, 10); g.program(false); if (g.bad || g.over) continue;
        Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); FS to = w.fs; bool inc = c.r.chance(1, 3), crlf = c.r.chance(1, 8);
        auto put = [&](FS& f, const string& p, const string& t) { string o; for (char ch : t) { if (ch == '\n' && crlf) o += '\r'; o += ch; } fs_file(f, p, o); };
        inc = inc && !g.late; if (inc) { put(w.fs, "/w/prog.s", g.head_b + "    .inc \"m.inc\"\n" + g.main_b); put(to, "/w/prog.s", g.head_a + "    .inc \"m.inc\"\n" + g.main_a); put(w.fs, "/w/m.inc", ";\n"); put(to, "/w/m.inc", g.macs_a + ";\n"); w.sources = { "/w/prog.s", "/w/m.inc" }; }
        else { put(w.fs, "/w/prog.s", g.head_b + g.main_b); put(to, "/w/prog.s", g.head_a + (g.late ? string() : g.macs_a) + g.main_a); w.sources = { "/w/prog.s" }; }
        w.argv = { "pasm", "-o", "out.bin", "-s", "out.sym", "-l", "out.lst", "prog.s" }; if (c.r.chance(1, 4)) w.argv.push_back("-c64"); if (c.r.chance(1, 6)) w.argv.push_back("-v"); if (g.cmos) w.argv.push_back("-65c02");
        const Result& ref = run_ref(w.fs, w.cwd, w.argv); if (ref.hang || ref.sig || (!g.err && !ref.success() && !run_ref(to, w.cwd, w.argv).success())) continue;
        string fam; for (auto& k : g.kinds) if (k == "loop" || k == "macro" || k == "far" || k == "section" || k == "many-calls") fam += (fam.empty() ? "" : "+") + k; if (fam.empty()) fam = "expressions";
        Scenario s = scn(w, fam); if (c.r.chance(1, 2)) world(c, run0(s)); budget(run0(s), ref); run0(s).step_budget = 400000000; run0(s).call_budget = 20000000; Run r2 = run0(s); world(c, r2);
        if (c.r.chance(1, 8)) { string p = c.r.pick(w.sources); Run pr; pr.argv = w.argv; auto h = probe_hits(to, w.cwd, pr, { { OP_OPEN, p }, { OP_READ, p }, { OP_SEEK, p } }); (void)h; for (int q = 0; q < 1; q++) r2.rules.push_back(mkrule(c.r.pick(vector<int>{ OP_OPEN, OP_READ, OP_SEEK }), p, c.r.range(1, 30), 1, EIO)); }
        second(s, w.fs, to, r2); c.check(s);
    }
}
