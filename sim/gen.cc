#include "gen.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

namespace vsim {
namespace {
string sf(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

enum M { IMP, IMM, ZP, ZPX, ZPY, ABS, ABSX, ABSY, IZX, IZY, IND, REL, ZPI, AIX };
struct OpDef { const char* n; int m; int cpu; };   // cpu 0 any, 1 65C02, 2 illegal
static vector<OpDef> build_ops() {
    vector<OpDef> v;
    auto add = [&](const char* names, std::initializer_list<int> modes, int cpu) {
        string s = names; size_t i = 0;
        static vector<std::unique_ptr<string>> keep;
        while (i < s.size()) { size_t j = s.find(' ', i); if (j == string::npos) j = s.size(); keep.push_back(std::make_unique<string>(s.substr(i, j - i))); for (int m : modes) v.push_back({ keep.back()->c_str(), m, cpu }); i = j + 1; }
    };
    add("tax txa tay tya tsx txs pha pla php plp dex dey inx iny clc sec cld sed cli sei clv nop rts rti brk asl rol lsr ror", { IMP }, 0);
    add("ora and eor adc sbc cmp lda", { IMM, ZP, ZPX, ABS, ABSX, ABSY, IZX, IZY }, 0);
    add("sta", { ZP, ZPX, ABS, ABSX, ABSY, IZX, IZY }, 0);
    add("ldx", { IMM, ZP, ZPY, ABS, ABSY }, 0); add("ldy", { IMM, ZP, ZPX, ABS, ABSX }, 0);
    add("stx", { ZP, ZPY, ABS }, 0); add("sty", { ZP, ZPX, ABS }, 0); add("cpx cpy", { IMM, ZP, ABS }, 0);
    add("inc dec asl rol lsr ror", { ZP, ZPX, ABS, ABSX }, 0); add("bit", { ZP, ABS }, 0);
    add("jmp", { ABS, IND }, 0); add("jsr", { ABS }, 0);
    add("phx phy plx ply wai stp", { IMP }, 1); add("stz", { ZP, ZPX, ABS, ABSX }, 1); add("trb tsb", { ZP, ABS }, 1);
    add("ora and eor adc sta lda cmp sbc", { ZPI }, 1); add("jmp", { AIX }, 1); add("bit", { IMM, ZPX, ABSX }, 1);
    add("rmb0 rmb3 rmb7 smb0 smb5 smb7", { ZP }, 1); add("inc dec", { IMP }, 1);
    add("slo rla sre rra dcp isc", { ZP, ZPX, ABS, ABSX, ABSY, IZX, IZY }, 2); add("sax", { ZP, ZPY, ABS, IZX }, 2); add("lax", { ZP, ZPY, ABS, ABSY, IZX, IZY }, 2);
    add("anc alr arr axs anc2 xaa usbc", { IMM }, 2); add("ahx shx las tas", { ABSY }, 2); add("shy", { ABSX }, 2); add("ahx", { IZY }, 2);
    return v;
}
static const vector<OpDef>& ops() { static vector<OpDef> v = build_ops(); return v; }

struct Const { string name; int val; };

struct PG {
    Rng& r; GenOpt o; Workload w;
    int cpu = 0;                     // 0 6502, 1 65C02
    bool illegal = false;
    int est = 0;                     // upper estimate of bytes emitted so far
    int maxbytes = 3000;
    int nlabel = 0, nmac = 0, nvar = 0, nsec = 0, nfile = 0, nloop = 0;
    vector<Const> consts;            // defined before use, known value
    vector<string> labels;           // global labels (some still to be defined)
    vector<string> pending;          // referenced, not yet defined
    struct Mac { string name; int params; };
    vector<Mac> macs;
    int depth = 0, maxdepth = 0;
    int instr_since_label = 0;
    string cur_near;                 // label within reach backwards
    int near_est = 0;
    bool in_block = false;           // inside loop/conditional/macro: no global labels
    int section_depth = 0; vector<string> secpath, scoped;
    int kinds = 0xffff;              // swarm mask
    vector<string> search;           // -dir entries (absolute with trailing slash)
    bool printing = true;

    explicit PG(Rng& rr, const GenOpt& oo) : r(rr), o(oo) {}

    bool has(const char* t) { for (auto& x : w.tags) if (x == t) return true; return false; }
    void tag(const char* t) { if (!has(t)) w.tags.push_back(t); }
    string cas(string s) { if (r.chance(1, 6)) for (auto& c : s) c = (char)toupper(c); return s; }

    string lit(int v) {
        switch (r.below(8)) {
        case 0: return sf("%d", v);
        case 1: return sf("$%X", v);
        case 2: return sf("$%04x", v);
        case 3: if (v < 256) { string s = "%"; for (int b = 7; b >= 0; b--) s += ((v >> b) & 1) ? '1' : '0'; return s; } return sf("$%x", v);
        case 4: if (v >= 0 && v < 256 && r.chance(1, 2)) switch (r.below(4)) {
                case 0: return sf("'\\%03o'", v);
                case 1: return sf("'\\x%02x'", v);
                case 2: if (v == 10) return "'\\n'"; if (v == 9) return "'\\t'"; if (v == 13) return "'\\r'"; if (v == 7) return "'\\a'"; if (v == 92) return "'\\\\'"; return sf("%d", v);
                default: if (v > 32 && v < 127 && v != ';' && v != '\\' && v != '\'' && v != '"') return sf("'%c'", v); return sf("%d", v);
                }
                if (v >= 'a' && v <= 'z') return sf("'%c'", v); return sf("%d", v);
        case 5: if (v < 256 && v > 0) { string s = "0b"; for (int b = 7; b >= 0; b--) s += ((v >> b) & 1) ? '1' : '0'; return s; } return sf("%d", v);
        default: return sf("$%X", v);
        }
    }
    // expressions with the values 1 and 0
    string verum() {
        int a = r.range(0, 9), b = r.range(0, 9); string x = sf("%d", a), y = sf("%d", b);
        switch (r.below(10)) {
        case 0: return "(" + x + " == " + x + ")";
        case 1: return "(" + x + (a == b ? " == " : r.chance(1, 2) ? " != " : " <> ") + y + ")";
        case 2: return "(" + x + (a < b ? " < " : a > b ? " > " : " <= ") + y + ")";
        case 3: return "(" + x + (a <= b ? " <= " : " >= ") + y + ")";
        case 4: return "(" + sf("%d", a + 1) + " && " + sf("%d", b + 1) + ")";
        case 5: return "(" + x + " || " + sf("%d", b + 1) + ")";
        case 6: return "(not 0)";
        case 7: return "((" + x + " < " + sf("%d", a + 1) + ") && (" + y + " == " + y + "))";
        case 8: return "(5 & ~4)";
        default: return "(not (" + x + " != " + x + "))";
        }
    }
    string falsum() {
        int a = r.range(0, 9); string x = sf("%d", a);
        switch (r.below(5)) {
        case 0: return "(" + x + " != " + x + ")";
        case 1: return "(" + x + " && 0)";
        case 2: return "(0 || (" + x + " < " + x + "))";
        case 3: return "(not " + sf("%d", a + 1) + ")";
        default: return "(" + sf("%d", a + 1) + " <= " + x + ")";
        }
    }
    // expression with a known value in [lo,hi]
    string num(int lo, int hi, int lvl = 0) {
        if (lvl < 2 && r.chance(1, 3)) {
            if (!consts.empty() && r.chance(1, 2)) {
                auto& c = r.pick(consts);
                int t = r.range(lo, hi);
                if (c.val == t) return c.name;
                if (t > c.val) return "(" + c.name + " + " + lit(t - c.val) + ")";
                return "(" + c.name + " - " + lit(c.val - t) + ")";
            }
            int t = r.range(lo, hi);
            switch (r.below(12)) {
            case 9: return "(" + lit(t) + " + " + falsum() + ")";
            case 10: if (t > 0) return "(" + lit(t - 1) + " + " + verum() + ")"; return lit(t);
            case 11: if (t == 0) return falsum(); if (t == 1) return verum(); return "-(-" + lit(t) + ")";
            case 0: { int a = r.range(0, t); return "(" + lit(a) + "+" + lit(t - a) + ")"; }
            case 1: { int a = r.range(0, 500); return "(" + lit(t + a) + " - " + lit(a) + ")"; }
            case 2: { int k = r.range(1, 4); if (t % k == 0) return "(" + lit(t / k) + " * " + lit(k) + ")"; return lit(t); }
            case 3: { return "(" + lit(t) + " & $ffff)"; }
            case 4: { int a = t & 0x0f0f; return "(" + lit(t & ~0x0f0f) + "|" + lit(a) + ")"; }
            case 5: { int a = r.range(0, 255); return "(" + lit(t ^ a) + "^" + lit(a) + ")"; }
            case 6: { int k = r.range(0, 3); return "(" + lit(t << k) + " >> " + lit(k) + ")"; }
            case 7: { if (t % 4 == 0) return "(" + lit(t / 4) + " << 2)"; return lit(t); }
            case 8: { if (t < 256) return "<(" + lit(t + 256 * r.range(0, 200)) + ")"; return lit(t); }
            }
        }
        return lit(r.range(lo, hi));
    }
    string anylabel() {
        if (section_depth) return labels.empty() ? string("$1234") : r.pick(labels);
        if (!labels.empty() && r.chance(2, 3)) return r.pick(labels);
        if (!pending.empty() && r.chance(1, 2)) return r.pick(pending);
        string n = newlabel(); pending.push_back(n); return n;
    }
    string newlabel() { static const char* st[] = { "Lab", "loop", "entry_", "data", "Sub", "L" }; return sf("%s%d", st[r.below(6)], nlabel++) + (r.chance(1, 8) ? "_long_name_for_label" : ""); }
    static string op(const string& e) { return !e.empty() && e[0] == '(' ? "0+" + e : e; }   // a leading parenthesis means an indirect mode
    string byteexpr() {
        switch (r.below(6)) {
        case 0: if (!in_block || r.chance(1, 2)) return "<" + anylabel(); return num(0, 255);
        case 1: return ">" + anylabel();
        default: return num(0, 255);
        }
    }
    string wordexpr() {
        switch (r.below(5)) {
        case 0: return anylabel();
        case 1: return anylabel() + "+" + lit(r.range(1, 9));
        default: return num(0, 65535);
        }
    }
    string absexpr() { switch (r.below(4)) { case 0: return anylabel(); case 1: return anylabel() + " + " + lit(r.range(1, 5)); default: return num(256, 65535); } }

    string strlit(bool word = false) {
        int n = r.chance(1, 8) ? r.range(20, 90) : r.range(2, 14);
        if (word && r.chance(1, 2)) n &= ~1;
        string s = "\"";
        for (int i = 0; i < n; i++) {
            int k = r.below(20);
            if (k == 0) { static const char* es[] = { "\\n", "\\t", "\\\\", "\\\"", "\\x41", "\\v", "\\r", "\\a" }; s += es[r.below(8)]; if (s.size() > 3 && s[s.size() - 3] == 'x') s += ' '; if (s.size() > 4 && isdigit((unsigned char)s.back())) s += ' '; }
            else { static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ;:,.!?()<>=+-*/@#$%&'"; s += cs[r.below((int)sizeof cs - 1)]; }
        }
        return s + "\"";
    }

    string instr() {
        const OpDef* d;
        do { d = &ops()[(size_t)r.below((int)ops().size())]; } while ((d->cpu == 1 && cpu != 1) || (d->cpu == 2 && (!illegal || cpu != 0)));
        string n = cas(d->n);
        est += 3;
        switch (d->m) {
        case IMP: return n;
        case IMM: return n + " #" + byteexpr();
        case ZP: return n + " " + op(num(0, 255));
        case ZPX: return n + " " + op(num(0, 255)) + (r.chance(1, 2) ? ",x" : " , X");
        case ZPY: return n + " " + op(num(0, 255)) + ",y";
        case ABS: return n + " " + op(absexpr());
        case ABSX: return n + " " + op(absexpr()) + ",X";
        case ABSY: return n + " " + op(absexpr()) + (r.chance(1, 2) ? ",y" : ", Y");
        case IZX: return n + " (" + num(0, 255) + ",x)";
        case IZY: return n + " (" + num(0, 255) + "),y";
        case IND: return n + " (" + absexpr() + ")";
        case ZPI: return n + " (" + num(0, 255) + ")";
        case AIX: return n + " (" + absexpr() + ",x)";
        }
        return n;
    }
    string branch(const string& t, bool near = false) {
        static const char* b[] = { "bne", "beq", "bcc", "bcs", "bmi", "bpl", "bvc", "bvs" };
        est += 5;
        if (near && cpu == 1 && r.chance(1, 3)) { static const char* q[] = { "bra", "bbr0", "bbr4", "bbr7", "bbs0", "bbs3", "bbs7" }; return cas(q[r.chance(1, 2) ? 0 : r.below(7)]) + " " + t; }
        return cas(b[r.below(near ? 8 : 6)]) + " " + t;   // bvc/bvs have no inverted form in the assembler
    }
    string data() {
        string s; int k = r.below(7);
        int n = r.chance(1, 10) ? r.range(8, 24) : r.range(1, 6);
        if (k < 3) {
            s = cas(r.chance(1, 2) ? ".byte" : ".db") + " ";
            for (int i = 0; i < n; i++) { if (i) s += r.chance(1, 2) ? "," : ", "; if (r.chance(1, 6)) { string q = strlit(); est += (int)q.size(); s += q; } else { s += byteexpr(); est++; } }
        } else if (k < 5) {
            static const char* nm[] = { ".word", ".dw", ".dcw" };
            s = cas(nm[r.below(3)]) + " ";
            for (int i = 0; i < n; i++) { if (i) s += ","; if (r.chance(1, 12)) { string q = strlit(true); est += (int)q.size() + 1; s += q; } else { s += wordexpr(); est += 2; } }
        } else {
            static const char* nm[] = { ".str", ".text", ".string" };
            s = cas(nm[r.below(3)]) + " ";
            n = r.range(1, 3);
            for (int i = 0; i < n; i++) { if (i) s += ","; if (r.chance(3, 4)) { string q = strlit(); est += (int)q.size(); s += q; } else if (r.chance(1, 2)) { s += num(1, 255); est += 1; } else { s += r.chance(1, 2) ? num(256, 65535) : anylabel(); est += 2; } }
        }
        return s;
    }
    string ind() { switch (r.below(4)) { case 0: return "\t"; case 1: return "        "; default: return "    "; } }
    string cmt() { if (!r.chance(1, 6)) return ""; static const char* c[] = { " ; comment", "   // note: \"x\"", " ;", " ; .byte 1" }; return c[r.below(4)]; }

    void put(string& t, const string& s) { t += ind() + s + cmt() + "\n"; }

    // straight code usable anywhere
    void simple(string& t) {
        if (est > maxbytes) { put(t, "nop"); est++; return; }
        if (in_block && !section_depth && o.far_branches && (kinds & 4096) && !labels.empty() && r.chance(1, 14)) { put(t, branch(r.pick(labels))); tag("farbranch"); return; }   // may or may not be within reach
        if ((kinds & 1) && r.chance(2, 7)) put(t, data()); else put(t, instr());
    }
    void locals(string& t) {     // local label loop inside the region of a label
        if (!(kinds & 2)) { simple(t); return; }
        if (in_block) { put(t, "ldx #" + num(0, 255)); est += 2; simple(t); return; }
        string l = newlabel();
        t += l + (r.chance(1, 4) ? ":" : "") + "\n"; labels.push_back(l); cur_near = l; near_est = est;
        int v = r.below(4);
        if (v == 3) { localrefs(t, l); return; }
        if (v == 0) { t += "@l" + std::to_string(r.below(3)) + "\n"; string nm = t.substr(t.rfind('@')); nm.pop_back(); simplei(t); simplei(t); put(t, branch(nm, true)); }
        else if (v == 1) { t += "-\n"; simplei(t); if (r.chance(1, 2)) put(t, branch("+", true)), simplei(t), t += "+\n"; simplei(t); put(t, branch("-", true)); }
        else { t += "- "; t += "dex\n"; est += 1; put(t, branch("-", true)); put(t, branch("+", true)); simplei(t); t += "+\n"; simplei(t); }
    }
    void simplei(string& t) { put(t, instr()); }
    // + and - labels that stand beside ordinary labels, so that both can be compared (;pair and ;ref are read by the C14 check)
    void localrefs(string& t, const string& back) {
        t += "- "; t += instr() + "\n";
        string a = newlabel(), b = newlabel(); bool two = r.chance(1, 2); tag("localrefs");
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) {
            int k = r.below(3); string ref = k == 0 ? "-" : k == 1 || !two ? "+" : "++", lab = k == 0 ? back : k == 1 || !two ? a : b;
            static const char* in[] = { "jmp", "lda", "sta", "jsr", "inc", "bit", "bne", "bcc" };
            if (r.chance(1, 2)) { t += ind() + ".word " + ref + "," + lab + " ;pair\n"; est += 4; }
            else { t += ind() + cas(in[r.below(8)]) + " " + ref + " ;ref " + lab + "\n"; est += 3; }
            if (r.chance(1, 3)) simplei(t);
        }
        if (r.chance(1, 4)) {   // exactly at the end of a branch's reach
            int f = r.range(118, 131); if (r.chance(1, 2)) { put(t, branch(a)); } else { t += ind() + "bcs + ;ref " + a + "\n"; est += 3; }
            put(t, sf(".fill %d,%d", r.below(256), f)); est += f;
            if (r.chance(1, 2)) put(t, branch(back));
        }
        t += a + "\n+ " + instr() + "\n"; labels.push_back(a);
        if (two) { if (r.chance(1, 2)) simplei(t); t += b + "\n+ " + instr() + "\n"; labels.push_back(b); if (r.chance(1, 3)) { t += ind() + ".word -," + back + " ;pair\n"; est += 4; } }
        cur_near = a; near_est = est;
    }

    void macdef(string& t) {
        Mac m; static const char* st[] = { "mac", "Push", "add16_", "movw" };
        m.name = sf("%s%d", st[r.below(4)], nmac++); m.params = r.range(0, 3);
        t += (r.chance(1, 2) ? ".macro " : ".mac ") + m.name + "\n";
        int n = r.range(1, 4); bool save = in_block; in_block = true; int e0 = est;
        if (labels.empty() && !nsec && r.chance(1, 2)) { t += "@x\n"; put(t, instr()); put(t, branch("@x", true)); }
        for (int i = 0; i < n; i++) {
            if (m.params && r.chance(1, 2)) { int p = r.range(1, m.params); switch (r.below(4)) { case 0: put(t, sf("lda #<\\%d", p)); break; case 1: put(t, sf("sta \\%d", p)); break; case 2: put(t, sf(".word \\%d", p)); break; default: put(t, sf("ldx #>\\%d", p)); } est += 3; }
            else if (!labels.empty() && (kinds & 4096) && r.chance(1, 8)) put(t, branch(r.pick(labels)));
            else put(t, instr());
        }
        t += (r.chance(1, 2) ? ".endmacro" : ".endm"); t += "\n";
        in_block = save; est = e0; (void)n;
        macs.push_back(m); tag("macro");
    }
    void maccall(string& t) {
        auto& m = r.pick(macs);
        string s = m.name;
        for (int i = 0; i < m.params; i++) s += (i ? ", " : " ") + (r.chance(1, 3) ? anylabel() : op(num(0, 65535)));
        est += 24;
        put(t, s);
    }
    int nest = 0;
    void block(string& t, int n) {
        bool s = in_block; in_block = true;
        for (int i = 0; i < n; i++) {
            if (nest < 2 && r.chance(1, 12)) { nest++; if (o.conds && (kinds & 16) && r.chance(1, 2)) cond(t); else if (o.loops && (kinds & 8) && est < maxbytes / 8) loop(t); else if (!macs.empty()) maccall(t); else simple(t); nest--; }
            else simple(t);
        }
        in_block = s;
    }

    void loop(string& t) {
        int e0 = est; int cnt = r.range(1, 5); string v = sf("ii%d", nloop++);
        int k = r.below(5); tag("loop");
        if (k <= 1) {
            int a = r.range(0, 5), step = r.range(1, 3);
            bool down = r.chance(1, 4); if (down) a += step;
            string h = ".for " + v + " = " + std::to_string(down ? a + cnt * step : a) + " .to " + std::to_string(down ? a : a + cnt * step);
            if (down) h += " .step -" + std::to_string(step); else if (step > 1 || r.chance(1, 2)) h += " .step " + std::to_string(step);
            put(t, ".var " + v); put(t, h); put(t, ".byte <" + v); block(t, r.range(1, 2)); put(t, ".next " + v);
            est = e0 + (est - e0 + 1) * (cnt + 2);
        } else if (k == 2) {
            put(t, ".var " + v + " = 0"); put(t, ".repeat"); put(t, ".db " + v + "+1"); block(t, 1); put(t, v + " = " + v + " + 1"); put(t, ".until " + v + sf(" %s %d", r.chance(1, 2) ? "==" : ">=", cnt));
            est = e0 + (est - e0 + 1) * (cnt + 1);
        } else if (k == 3) {
            put(t, ".var " + v + " = 0"); put(t, ".while " + v + sf(" < %d", cnt)); put(t, ".word " + v); block(t, 1); put(t, v + " = " + v + " + 1"); put(t, ".wend");
            est = e0 + (est - e0 + 2) * (cnt + 1);
        } else {
            put(t, ".var " + v + " = 0"); put(t, ".do"); put(t, ".db " + v); block(t, 1); put(t, v + " = " + v + " + 1"); put(t, ".while " + v + sf(" != %d", cnt));
            est = e0 + (est - e0 + 2) * (cnt + 1);
        }
    }
    void cond(string& t) {
        tag("cond");
        if (r.chance(1, 3)) {
            bool n = r.chance(1, 2); string s = consts.empty() || r.chance(1, 2) ? sf("undefd%d", r.below(9)) : r.pick(consts).name;
            t += string(n ? ".ifndef " : ".ifdef ") + s + "\n"; block(t, r.range(1, 2)); if (r.chance(1, 2)) { t += ".else\n"; block(t, r.range(1, 2)); } t += ".endif\n";
            return;
        }
        static const char* rel[] = { "==", "!=", "<", ">", "<=", ">=", "<>" };
        put(t, ".if " + num(0, 9) + string(" ") + rel[r.below(7)] + " " + num(0, 9));
        block(t, r.range(1, 2)); if (r.chance(1, 2)) { put(t, ".else"); block(t, r.range(1, 2)); } put(t, ".endif");
    }
    void regloop(string& t) {
        bool x = r.chance(1, 2); int a = r.range(0, 20), b = r.range(0, 255); bool down = r.chance(1, 2);
        tag("regloop");
        put(t, string(".for .reg") + (x ? "x" : "y") + sf(" = %d %s %d", down ? std::max(a, b) : std::min(a, b), down ? ".downto" : ".to", down ? std::min(a, b) : std::max(a, b)));
        block(t, r.range(1, 3)); put(t, string(".next ") + (x ? "x" : "y")); est += 8;
    }
    void label(string& t) {
        string l;
        if (!pending.empty() && r.chance(3, 4)) { size_t i = (size_t)r.below((int)pending.size()); l = pending[i]; pending.erase(pending.begin() + (long)i); }
        else l = newlabel();
        t += l; if (r.chance(1, 5)) t += ":";
        labels.push_back(l); cur_near = l; near_est = est;
        if (r.chance(1, 2)) { t += "\n"; return; }
        t += " " + instr() + cmt() + "\n";
    }
    void constdef(string& t) {
        Const c; c.name = sf("%s%d", r.chance(1, 2) ? "VAL" : "k_", (int)consts.size()); c.val = r.chance(1, 2) ? r.range(0, 255) : r.range(0, 60000);
        if (r.chance(1, 4)) t += c.name + " .equ " + lit(c.val) + "\n"; else t += c.name + " = " + num(c.val, c.val) + cmt() + "\n";
        consts.push_back(c);
    }
    void var(string& t) {
        string a = sf("va%d", nvar++), b = sf("vb%d", nvar++);
        if (r.chance(1, 4)) { string q = sf("vz%d", nvar++); int z = r.range(0, 255); put(t, ".var " + q + ", " + a + " = " + lit(z) + (r.chance(1, 2) ? ", " + b : "")); consts.push_back({ a, z }); consts.push_back({ q, 0 }); tag("var"); return; }
        int x = r.range(0, 200), y = r.range(0, 60000);
        put(t, ".var " + a + " = " + std::to_string(x) + ", " + b + " = " + lit(y)); consts.push_back({ a, x }); consts.push_back({ b, y }); tag("var");
    }
    void print(string& t) {
        int k = r.below(4); tag("print");
        if (r.chance(1, 10)) { static const char* e[] = { ".print", ".printall", "?", "??" }; put(t, e[r.below(4)]); return; }
        if (k == 0 && r.chance(1, 3)) { put(t, "?? " + strlit() + ", " + anylabel()); return; }
        string s = k == 0 ? ".printall " : k == 1 ? "?" : ".print ";
        s += strlit(); if (r.chance(1, 2)) s += ", " + num(0, 65535);
        put(t, s);
    }
    bool only_once(const string& b) { for (auto& f : w.fs) if (f.first.size() > b.size() && f.first.compare(f.first.size() - b.size(), string::npos, b) == 0) return false; return true; }
    // returns the name to be used in the directive
    string place(const string& base, const string& content, string& abs) {
        if (!search.empty() && r.chance(1, 2)) {
            string d = r.pick(search); abs = path_join(w.cwd, d + base);
            fs_file(w.fs, abs, content);
            return base;
        }
        if (r.chance(1, 4)) { abs = path_join(w.cwd, "sub/" + base); fs_file(w.fs, abs, content); return r.chance(1, 2) ? "sub/" + base : "./sub/" + base; }
        abs = path_join(w.cwd, base); fs_file(w.fs, abs, content);
        return base;
    }
    void load(string& t) {
        int n; switch (r.below(6)) { case 0: n = r.below(4); break; case 1: n = r.range(4, 40); break; default: n = r.range(1, std::max(2, o.load_max)); }
        string abs, nm, base = sf("bin%d.%s", nfile++, r.chance(1, 2) ? "dat" : "prg"), data = random_bytes(r, n);
        if (!w.loads.empty() && r.chance(1, 6)) {     // the name of another file, in a directory of its own
            string o = r.pick(w.loads); nm = sf("own%d/", nfile) + o.substr(o.rfind('/') + 1); abs = path_join(w.cwd, nm); fs_file(w.fs, abs, data);
        } else nm = place(base, data, abs);
        w.loads.push_back(abs); est += n; tag("load");
        put(t, cas(".load") + " \"" + nm + "\"");
    }
    void include(string& t, int budget) {
        depth++; maxdepth = std::max(maxdepth, depth);
        string body; if (r.chance(1, 3)) body += "; included file\n";
        stmts(body, budget);
        depth--;
        if (body.empty() || body.back() != '\n') body += "\n";
        if (o.crlf && r.chance(1, 10)) crlf(body);
        string base = sf("inc%d.%s", nfile++, r.chance(1, 2) ? "asm" : "inc");
        if (!w.sources.empty() && r.chance(1, 8)) {   // a name that differs from another one only in its case
            string o = w.sources.back(); o = o.substr(o.rfind('/') + 1); for (auto& ch : o) ch = (char)(islower((unsigned char)ch) ? toupper(ch) : ch);
            if (only_once(o)) base = o;
        }
        string abs, nm = place(base, body, abs);
        w.sources.push_back(abs); tag("include");
        put(t, cas(".inc") + " \"" + nm + "\"");
    }
    static void crlf(string& s) { string o; for (char c : s) { if (c == '\n') o += '\r'; o += c; } s = o; }

    void stmts(string& t, int n) {
        while (n-- > 0) {
            if (est > maxbytes) { put(t, "nop"); est++; n -= 3; continue; }
            int k = r.below(100);
            if (k < 34) simple(t);
            else if (k < 46) { if (!in_block) label(t); else simple(t); }
            else if (k < 52) { if (cur_near.size() && est - near_est < 90) put(t, branch(cur_near)); else simple(t); }
            else if (k < 56) constdef(t);
            else if (k < 62) locals(t);
            else if (k < 66) { if (o.macros && (kinds & 4) && depth == 0) { if (macs.size() < 4) macdef(t); else maccall(t); } else simple(t); }
            else if (k < 71) { if (!macs.empty()) maccall(t); else simple(t); }
            else if (k < 75) { if (o.loops && (kinds & 8)) loop(t); else simple(t); }
            else if (k < 79) { if (o.conds && (kinds & 16)) cond(t); else simple(t); }
            else if (k < 81) { if (o.regloops && (kinds & 32)) regloop(t); else simple(t); }
            else if (k < 85) { if (o.loads && (kinds & 64)) load(t); else simple(t); }
            else if (k < 89) { if (o.includes && (kinds & 128) && depth < 3 && n > 2 && nfile < 14) { int b = std::min(n, r.range(1, 8)); n -= b; include(t, b); } else simple(t); }
            else if (k < 91) { if (o.sections && (kinds & 256) && section_depth < 2 && !in_block) { section(t, n); } else simple(t); }
            else if (k < 93) { if (o.prints && (kinds & 512)) print(t); else simple(t); }
            else if (k < 94) { if (o.vars && (kinds & 1024)) var(t); else simple(t); }
            else if (k < 95) { if (o.print_dirs && (kinds & 2048) && section_depth == 0 && depth == 0) { put(t, printing ? ".print off" : ".print on"); printing = !printing; w.listing_full = false; tag("printctl"); } else simple(t); }
            else if (k < 96) { if (o.far_branches && (kinds & 4096) && !labels.empty() && est - near_est < 2000) { put(t, branch(r.pick(labels))); tag("farbranch"); } else simple(t); }
            else if (k < 97) { put(t, sf(".fill %s,%s", lit(r.range(0, 255)).c_str(), lit(r.chance(1, 6) ? 0 : r.range(1, 40)).c_str())); est += 40; }
            else if (k < 98) { switch (r.below(4)) { case 0: t += "/* block\n   comment */\n"; break; case 1: t += "\n\n"; break; case 2: t += "; " + string((size_t)r.below(120), '-') + "\n"; break; default: t += "    \n"; } }
            else { if (!in_block && (kinds & 8192)) { string l = newlabel(); t += l + " = *\n"; labels.push_back(l); } else simple(t); }
        }
    }
    void section(string& t, int& n) {
        string s = sf("scope%d", nsec++); section_depth++; tag("section");
        t += (r.chance(1, 2) ? ".section " : ".sect ") + s + "\n";
        string l = sf("in%d", nlabel++); secpath.push_back(s); string full; for (auto& q : secpath) full += q + ".";
        vector<string> sp = pending;
        t += l + " " + instr() + "\n";
        if (r.chance(1, 3)) { t += "same jmp same ;self\n"; est += 3; }
        bool b = in_block; in_block = true;
        int k = std::min(n, r.range(1, 4)); n -= k;
        for (int i = 0; i < k; i++) { if (r.chance(1, 3)) { put(t, "lda " + l); est += 3; } else if (section_depth < 3 && r.chance(1, 6)) { int m = 2; section(t, m); tag("nested-section"); } else simple(t); }
        in_block = b; scoped.push_back(full + l); secpath.pop_back();
        t += r.chance(1, 2) ? ".endsection\n" : ".ends\n"; section_depth--;
        if (section_depth == 0 && r.chance(1, 2)) { put(t, "lda " + r.pick(scoped)); est += 3; }
    }
    void finish(string& t) {
        for (auto& p : pending) { t += p + " " + instr() + "\n"; labels.push_back(p); if (r.chance(1, 3)) simple(t); }
        // instr() may have created new pending labels
        for (int g = 0; g < 3; g++) {}
        pending.clear();
    }
};
} // namespace

string random_bytes(Rng& r, int n) {
    string s; s.reserve((size_t)n);
    int k = r.below(5);
    for (int i = 0; i < n; i++) { switch (k) { case 0: s += (char)r.below(256); break; case 1: s += (char)0xff; break; case 2: s += (char)0; break; case 3: s += (char)(r.chance(1, 3) ? 0x1a : r.chance(1, 2) ? '\r' : '\n'); break; default: s += (char)(i & 255); } }
    return s;
}

Workload gen_program(Rng& r, const GenOpt& o) {
    PG g(r, o);
    g.w.cwd = r.chance(1, 5) ? "/home/u/proj" : "/w";
    g.kinds = r.chance(1, 3) ? 0xffff : (int)(r.next() & 0xffff) | 1;
    g.maxbytes = o.big ? r.range(4000, 14000) : r.range(150, 4500);
    vector<string> argv = { r.chance(1, 4) ? "/usr/bin/pasm" : "pasm" };
    if (o.dirs && r.chance(1, 2)) {
        int n = r.range(1, 3);
        static const char* dn[] = { "lib/", "inc/", "../shared/", "/opt/asm/", "a b/" };
        string d; std::set<int> used;
        for (int i = 0; i < n; i++) { int k = r.below(5); if (used.count(k)) continue; used.insert(k); if (!d.empty()) { d += ';'; if (r.chance(1, 4)) d += ' '; } d += dn[k]; g.search.push_back(dn[k]); fs_dir(g.w.fs, path_join(g.w.cwd, dn[k])); }
        argv.push_back(r.chance(1, 8) ? "-DIR" : "-dir"); argv.push_back(d); g.tag("dir");
    }
    int cpu = r.below(4);
    bool cpu_dir = r.chance(1, 4);
    if (cpu == 1) { g.cpu = 1; if (!cpu_dir) argv.push_back("-65c02"); } else if (cpu == 2) { if (!cpu_dir) argv.push_back("-6502"); }
    if (g.cpu == 0 && r.chance(1, 3)) { g.illegal = true; if (!cpu_dir) argv.push_back("-i"); }
    if (o.dsyms && r.chance(1, 3)) {
        int n = r.range(1, 2);
        for (int i = 0; i < n; i++) {
            int v = r.range(0, r.chance(1, 2) ? 99 : 65535); string val = r.chance(1, 3) ? sf("$%x", v = r.range(0, 65535)) : r.chance(1, 3) ? sf("0x%x", v = r.range(0, 4000)) : sf("%d", v);
            string nm = sf("CMD%d", i); argv.push_back("-d"); argv.push_back(nm); argv.push_back(val); g.consts.push_back({ nm, v });
        }
        g.tag("dsym");
    }
    bool c64opt = r.chance(1, 4), c64dir = !c64opt && r.chance(1, 6);
    if (c64opt) argv.push_back("-c64");
    bool bigger = r.chance(1, 12);
    // head
    string main;
    if (r.chance(1, 2)) main += "; generated program\n";
    if (cpu_dir) { main += g.cpu == 1 ? "    .65c02 on\n" : "    .6502 on\n"; if (g.illegal) main += "    .illegal on\n"; }
    if (c64dir) main += "    .c64\n";
    for (int i = r.below(4); i > 0; i--) g.constdef(main);
    int org = r.chance(1, 14) ? r.range(2, 0xa0) : r.chance(1, 4) ? r.range(0x0200, 0x4000) : r.pick(vector<int>{ 0x0801, 0x1000, 0xC000, 0x2000, 0x8000 });
    if (r.chance(1, 16)) {} // the default origin
    else main += r.chance(1, 2) ? sf("    .org $%04X\n", org) : r.chance(1, 2) ? sf("    * = $%x\n", org) : sf("    *= %d\n", org);
    int inputs = o.multi_input && r.chance(1, 4) ? r.range(2, 3) : 1;
    if (r.chance(1, 150)) { int n = r.range(850, 1100); for (int i = 0; i < n; i++) main += sf("many%d = %d\n", i, (i * 37) & 0xffff); g.tag("many-symbols"); }
    vector<string> texts; texts.push_back(main);
    int per = std::max(3, (o.size + (bigger ? 60 : 0)) / inputs);
    for (int i = 0; i < inputs; i++) {
        if (i) texts.push_back(r.chance(1, 2) ? "; next input\n" : "");
        g.stmts(texts.back(), r.range(per / 2, per));
        if (i > 0 && o.multi_org && r.chance(1, 6)) { texts.back() += sf("    *= $%x\n", 0x9000 + 0x1000 * i); g.w.single_org = false; g.stmts(texts.back(), 3); }
    }
    if (o.big) while (g.est < g.maxbytes) {
        string& t = texts[(size_t)r.below((int)texts.size())];
        int k = r.below(4);
        if (k == 0) { t += "    .byte "; int n = r.range(8, 24); for (int i = 0; i < n; i++) t += sf("%s%d", i ? "," : "", r.below(256)); t += "\n"; g.est += n; }
        else if (k == 1) { int n = r.range(50, 400); t += sf("    .fill %d,%d\n", r.below(256), n); g.est += n; }
        else { string abs, nm = g.place(sf("big%d.bin", g.nfile++), random_bytes(r, r.range(300, 5000)), abs); g.w.loads.push_back(abs); g.est += 2500; t += "    .load \"" + nm + "\"\n"; }
    }
    // resolve what is still pending; emitting may create more, bounded
    for (int guard = 0; guard < 6 && !g.pending.empty(); guard++) {
        auto p = g.pending; g.pending.clear();
        g.cur_near.clear();
        for (auto& l : p) { texts.back() += l + (guard < 3 ? " " + g.instr() : string(" nop")) + "\n"; g.labels.push_back(l); }
    }
    if (o.sections && (g.kinds & 256) && r.chance(1, 8)) { texts.back() += sf(".section tail\nin%d nop\nsame jmp same ;self\n", g.nlabel++); g.tag("open-section"); }   // left open
    if (!g.printing && r.chance(1, 2)) texts.back() += "    .print on\n";
    if (r.chance(1, 10)) texts.back() += "    .end\n";
    vector<string> inputs_args;
    for (int i = 0; i < inputs; i++) {
        if (o.crlf && r.chance(1, 12)) PG::crlf(texts[(size_t)i]);
        string nm = i == 0 ? (r.chance(1, 4) ? "main.asm" : "prog.s") : sf("part%d.asm", i);
        string abs;
        if (!g.search.empty() && r.chance(1, 4)) { abs = path_join(g.w.cwd, r.pick(g.search) + nm); } else { if (r.chance(1, 8)) nm = "src/" + nm; abs = path_join(g.w.cwd, nm); }
        fs_file(g.w.fs, abs, texts[(size_t)i]);
        g.w.sources.push_back(abs); inputs_args.push_back(nm);
    }
    fs_dir(g.w.fs, g.w.cwd);
    vector<string> outs;
    auto want = [&](bool allow, int num, int den) { return allow && (o.force_all || r.chance(num, den)); };
    if (o.want_o) { argv.push_back("-o"); argv.push_back(r.chance(1, 6) ? "/w/out.prg" : "out.bin"); }
    if (want(o.want_s, 1, 2)) { argv.push_back("-s"); argv.push_back("out.sym"); }
    if (want(o.want_l, 3, 5)) { argv.push_back("-l"); argv.push_back("out.lst"); }
    if (want(o.want_log, 1, 6)) { argv.push_back("-log"); argv.push_back("out.log"); }
    fs_dir(g.w.fs, "/w");
    if (o.verbose && r.chance(1, 10)) argv.push_back("-v");
    if (r.chance(1, 6)) argv.push_back("-nowarn");
    for (auto& a : inputs_args) argv.push_back(a);
    g.w.argv = argv; g.w.depth = g.maxdepth;
    if (c64opt || c64dir) g.tag("c64");
    return g.w;
}

const int n_error_kinds = 14;
string inject_error(Rng& r, Workload& w, int kind) {
    if (kind < 0) kind = r.below(n_error_kinds);
    // pick a source file to damage
    string p = r.pick(w.sources);
    string t = w.fs[p].str();
    vector<size_t> eols; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') eols.push_back(i + 1);
    size_t at = eols.empty() ? 0 : eols[(size_t)r.below((int)eols.size())];
    string ins, label;
    switch (kind) {
    case 0: ins = "    lda ##5\n"; label = "syntax"; break;
    case 1: ins = "    jmp nowhere_defined_symbol\n"; label = "unresolved"; break;
    case 2: ins = "    .inc \"missing_file.asm\"\n"; label = "missing-include"; break;
    case 3: ins = "    .load \"missing_file.bin\"\n"; label = "missing-load"; break;
    case 4: ins = "    .byte 300\n"; label = "byte-range"; break;
    case 5: ins = "    lda (1,y)\n"; label = "bad-mode"; break;
    case 6: ins = "zz_a = zz_b + 1\nzz_b = zz_a + 1\n    .word zz_a\n"; label = "never-settles"; break;
    case 7: ins = "    .ends\n"; label = "stray-ends"; break;
    case 8: ins = "    .byte 5/0\n"; label = "div-zero"; break;
    case 9: ins = "    .word 70000\n"; label = "word-range"; break;
    case 10: ins = "    .if 1\n"; label = "open-if"; break;
    case 12: ins = "    jmp ++++++\n"; label = "unresolved-local"; break;
    case 13: ins = "    lda ------\n"; label = "unresolved-local"; break;
    case 11: ins = "    .org $1000\n    .org $2000\n"; label = "org-twice"; break;
    }
    t.insert(at, ins);
    fs_file(w.fs, p, t);
    w.tags.push_back("err:" + label);
    return label;
}

Workload gen_edge(Rng& r, string* local, string* named) {
    Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); PG g(r, GenOpt());
    struct It { int k; int lab; int n; };   // 0 reference, 1 label, 2 + label, 3 - label, 4 filler
    vector<It> v; int n = r.range(4, 16), nl = 0; bool chain = r.chance(1, 2);
    if (chain) { int k = r.range(2, 15); for (int i = 0; i < k; i++) v.push_back({ 0, -1, 0 }); if (r.chance(1, 2)) v.push_back({ 4, 0, r.range(0, 40) }); for (int i = 0; i < k; i++) v.push_back({ r.range(1, 2), nl++, 0 }); }
    else for (int i = 0; i < n; i++) { int k = r.below(10); if (k < 5) v.push_back({ 0, -1, 0 }); else if (k < 9) v.push_back({ r.range(1, 3), nl++, 0 }); else v.push_back({ 4, 0, r.range(0, 30) }); }
    if (!nl) v.push_back({ 2, nl++, 0 });
    // bytes before the label that is to lie at the end of the zero page
    int pivot = chain ? 0 : r.below(nl), before = 0; for (auto& i : v) { if (i.k >= 1 && i.k <= 3 && i.lab == pivot) break; before += i.k == 0 ? 3 : i.k == 4 ? i.n : 1; }
    int org = std::max(2, 0x100 - before + r.range(-2, 3));
    string t = sf("    *= $%X\n", org), tl = t, tn = t; static const char* in[] = { "lda", "sta", "inc", "asl", "ldx", "stx", "cmp", "jmp", "ora", "bit" }; static const char* one[] = { "nop", "tax", "iny", "clc", "pha", "rts" };
    vector<string> name((size_t)nl); for (int i = 0; i < nl; i++) name[(size_t)i] = sf("Lab%d", i);
    for (size_t i = 0; i < v.size(); i++) {
        auto& x = v[i];
        if (x.k == 4) { string f = sf("    .fill %d,%d\n", r.below(256), x.n); t += f; tl += f; tn += f; continue; }
        if (x.k) { string ins = string(one[r.below(6)]) + "\n", lab = x.k == 2 ? "+ " : x.k == 3 ? "- " : "    "; t += name[(size_t)x.lab] + "\n" + lab + ins; tl += (x.k == 1 ? name[(size_t)x.lab] + "\n" : "") + lab + ins; tn += name[(size_t)x.lab] + "\n    " + ins; continue; }
        vector<std::pair<string, int>> c; string d;
        for (size_t j = i + 1; j < v.size() && d.size() < 6; j++) if (v[j].k == 2) { d += '+'; c.push_back({ d, v[j].lab }); c.push_back({ d, v[j].lab }); }
        d.clear(); for (size_t j = i; j-- > 0 && d.size() < 6;) if (v[j].k == 3) { d += '-'; c.push_back({ d, v[j].lab }); }
        for (auto& y : v) if (y.k >= 1 && y.k <= (local ? 1 : 3)) c.push_back({ name[(size_t)y.lab], y.lab });
        if (c.empty()) { t += "    nop\n"; tl += "    nop\n"; tn += "    nop\n"; continue; }
        auto& p = r.pick(c); string m = "    " + string(in[r.below(10)]) + " "; t += m + p.first + " ;ref " + name[(size_t)p.second] + "\n"; tl += m + p.first + "\n"; tn += m + name[(size_t)p.second] + "\n";
    }
    fs_file(w.fs, "/w/prog.s", t); w.sources = { "/w/prog.s" }; w.argv = { "pasm", "-o", "out.bin", "-s", "out.sym", "-l", "out.lst", "prog.s" }; w.tags.push_back("edge"); if (local) *local = tl; if (named) *named = tn;
    return w;
}

// programs whose layout depends on itself: some settle after a few passes, some after many, some never
Workload gen_moving(Rng& r) {
    Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); int n = r.range(2, 10), nl = 0;
    string t = sf("    *= $%X\n", r.chance(1, 2) ? 0x1000 : r.range(0x80, 0x140));
    auto lab = [&](int i) { return sf("Lab%d", i); }; int total = r.range(3, 10);
    auto one = [&] { return string(r.pick(vector<string>{ "    nop\n", "    lda #1\n", "    .byte 1,2,3\n", "    .word 5\n", "    jmp $1234\n", "    .fill 2,9\n", "    .str \"abc\"\n" })); };
    t += lab(nl++) + " nop\n";
    for (int i = 0; i < n || nl < total; i++) {
        string a = lab(r.below(total)), b = lab(r.below(total));
        switch (r.below(i < n ? 8 : 2)) {
        case 0: case 1: if (nl < total) { t += lab(nl++) + "\n" + one(); break; } t += one(); break;
        case 2: { string cmp = r.pick(vector<string>{ "<", ">", "==", "!=", "<=", ">=" }); t += "    .if " + a + "-" + b + " " + cmp + " " + std::to_string(r.range(-4, 20)) + "\n"; for (int k = r.range(1, 3); k > 0; k--) t += one(); if (r.chance(1, 3)) { t += "    .else\n"; for (int k = r.range(1, 3); k > 0; k--) t += one(); } t += "    .endif\n"; break; }
        case 3: t += "    .if " + a + " & " + std::to_string(1 << r.below(5)) + "\n" + one() + "    .endif\n"; break;
        case 4: t += "    .ds 1 + ((" + a + " + " + std::to_string(r.below(8)) + ") & " + std::to_string(r.pick(vector<int>{ 1, 3, 7, 15 })) + ")\n"; break;
        case 5: t += "    .fill 1,1 + ((" + a + "-" + b + ") & 7)\n"; break;
        case 6: t += "    " + string(r.pick(vector<string>{ "lda", "sta", "inc", "ldx" })) + " " + a + r.pick(vector<string>{ "", "", "-$1000", " & $1ff" }) + "\n"; break;
        default: t += "    bne " + a + "\n"; break;
        }
    }
    fs_file(w.fs, "/w/prog.s", t); w.sources = { "/w/prog.s" }; w.argv = { "pasm", "-nowarn", "-o", "out.bin", "-s", "out.sym", "-l", "out.lst", "prog.s" }; w.tags.push_back("moving");
    return w;
}

// statements whose meaning depends on what came before, in whatever file
const int stateful_kinds = 14;
string stateful(Rng& r, int kind, int j) {
    string ins; char b[80];
    switch (kind) {
    case 0: snprintf(b, sizeof b, "    .org $%X\n", 0x6000 + r.below(0x3000)); ins = b; break;
    case 1: snprintf(b, sizeof b, "    *= *+%d\n", r.range(0, 40)); ins = b; break;
    case 2: ins = r.pick(vector<string>{ "    .65c02 on\n    phx\n", "    .65c02 off\n", "    .6502 on\n", "    .illegal on\n    lax $10\n", "    .illegal off\n", "    stz $10\n", "    phy\n", "    sax $10\n" }); break;
    case 3: ins = r.pick(vector<string>{ "    .macro zdup\n    .byte 7\n    .endm\n", "    zdup\n", "    .macro zdup\n    .byte 8\n    .endm\n    zdup\n" }); break;
    case 4: ins = r.pick(vector<string>{ "zdupl nop\n", "    jmp zdupl\n", "zdupl = 5\n" }); break;
    case 5: ins = r.pick(vector<string>{ "    .var zcnt = 3\n", "zcnt = zcnt + 1\n    .byte zcnt\n", "    .byte zcnt\n", "zcnt = 9\n" }); break;
    case 6: ins = r.pick(vector<string>{ "    .section zsec\nzin nop\n    jmp zin\n    .ends\n", "    jmp zsec.zin\n", "zin nop\n", "    .section zsec\nzin2 lda zin2\n    .ends\n" }); break;
    case 7: ins = r.pick(vector<string>{ "@zl nop\n", "    bne @zl\n", "zglob" + std::to_string(j) + "\n", "    jmp @zl\n" }); break;
    case 8: ins = r.pick(vector<string>{ ".ifdef zflag\n    .byte 1\n.else\n    .byte 2,3\n.endif\n", "zflag = 1\n", ".ifndef zflag\n    .byte 4\n.endif\n" }); break;
    case 9: ins = r.pick(vector<string>{ "    .c64\n", "    .warn off\n", "    .warn on\n", "    .fill 1,200\n", "    .regx = 1 .to 3\n    nop\n    .nextx\n" }); break;
    case 10: ins = r.pick(vector<string>{ "    .repeat\n    .byte zcnt\nzcnt = zcnt + 1\n    .until zcnt > 5\n", "    .var zcnt = 1\n", "    .for zcnt = 1 .to 3\n    .byte zcnt\n    .next zcnt\n", "    .word zcnt\n" }); break;
    case 11: ins = r.pick(vector<string>{ "    .macro zdup\n    .byte \\1\n    .endm\n    zdup 5\n", "    zdup 6\n", "    zdup\n", "    .macro zother\n    zdup 7\n    .endm\n", "    zother\n", "    .if 0\n    .macro zdup\n    nop\n    .endm\n    .endif\n", "    .ifdef zdup\n    nop\n    .endif\n", "    .word zdup\n", "zdup = 6\n" }); break;
    case 12: ins = r.pick(vector<string>{ "    .section zs1\nzin nop\n", "    .ends\n", "    .section zs2\nzin jmp zin\n    .ends\n", "    jmp zs1.zin\n", "    jmp zs1.zs2.zin\n", "    .endsection\n" }); break;
    default: ins = r.pick(vector<string>{ "    .print *\n", "zhere" + std::to_string(j) + " = *\n    .word zhere" + std::to_string(j) + "\n", "    .ds 3\n", "    jmp *\n" }); break;
    }
    return ins;
}

Workload gen_extreme(Rng& r, string* kind) {
    Workload w; w.cwd = "/w"; fs_dir(w.fs, "/w"); string k, t = "    *= $1000\n";
    w.argv = { "pasm" }; if (r.chance(1, 4)) w.argv.push_back("-nowarn");
    auto size = [&] { return r.pick(vector<int>{ 24, 32, 64, 100, 128, 255, 256, 257, 260, 500, 512, 1000, 1023, 1024, 2030, 2047, 2048, 2049, 2060, 4095, 4096, 5000 }) + (r.chance(1, 2) ? r.range(-3, 3) : 0); };
    auto name = [&](char c) { string s((size_t)size(), c); if (r.chance(1, 2)) for (auto& x : s) x = (char)('a' + r.below(26)); s[0] = 'q'; return s; };
    auto depth = [&] { return r.chance(1, 2) ? r.range(20, 60) : r.range(60, 300); };
    auto some = [&] { return string(r.pick(vector<string>{ "    nop\n", "    lda #1\n", "    .byte 1,2\n", "    .word $1234\n", "    jmp $2000\n", "    .str \"abc\"\n" })); };
    string fs_name; int n = 0; bool many = false;
    switch (r.below(16)) {
    case 0: { k = "long-label"; string a = name('a'), b = name('b'); t += a + " nop\n    jmp " + a + "\n    .word " + b + ",<" + a + "," + b + "+1\n" + b + "\n    bne " + b + "\n.ifdef " + a + "\n    nop\n.endif\n"; break; }
    case 1: { k = "long-macro"; string a = name('m'); t += "    .macro " + a + "\n    lda #\\1\n    .endm\n    " + a + " 5\n"; if (r.chance(1, 2)) t += "    " + a + "\n"; break; }
    case 2: { k = "long-section"; string a = name('s'), b = name('i'); t += "    .section " + a + "\n" + b + " nop\n    jmp " + b + "\n    .ends\n    jmp " + a + "." + b + "\n"; break; }
    case 3: { k = "long-local"; string a = name('l'); t += "start nop\n@" + a + "\n    nop\n    bne @" + a + "\n"; break; }
    case 4: { k = "long-variable"; string a = name('v'); t += "    .var " + a + " = 5\n    .for " + a + " = 1 .to 3\n    .byte " + a + "\n    .next " + a + "\n" + a + "x = " + a + " + 1\n    .print " + a + "\n"; break; }
    case 5: { k = "long-undefined"; string a = name('u'); t += r.pick(vector<string>{ "    jmp " + a, "    .word " + a, "    .byte <" + a + ",>" + a, "    " + a + " 5", "    " + a, "    bne @" + a, "    .next " + a, "    .print " + a, a + " = " + a + "b", "    .ifdef " + a, "    lda " + a + "." + a }) + "\n"; break; }
    case 6: { k = "long-file-name"; string a = name('f'); t += r.pick(vector<string>{ "    .inc \"", "    .load \"" }) + (r.chance(1, 3) ? a + "/" : "") + a + "\"\n"; if (r.chance(1, 3) && a.size() <= 255) fs_file(w.fs, "/w/" + a, "    nop\n"); break; }
    case 7: { k = "long-command"; string a = name('c'); switch (r.below(6)) { case 0: w.argv.insert(w.argv.end(), { "-d", a, "5" }); t += "    .byte " + a + "\n"; break; case 1: w.argv.insert(w.argv.end(), { "-dir", a }); t += "    .inc \"x.inc\"\n"; if (r.chance(1, 2)) fs_file(w.fs, "/w/" + a + "/x.inc", "    nop\n"); break; case 2: { string d; int m = r.range(2, 200); for (int i = 0; i < m; i++) d += "dir" + std::to_string(i) + "/;"; w.argv.insert(w.argv.end(), { "-dir", d }); t += "    .inc \"x.inc\"\n"; fs_file(w.fs, "/w/dir" + std::to_string(r.below(m)) + "/x.inc", "    nop\n"); break; } case 3: w.argv.insert(w.argv.end(), { "-d", "abc", a }); break; case 4: w.argv.push_back(a); if (r.chance(1, 2)) fs_file(w.fs, "/w/" + a, "    nop\n"); break; default: w.argv.push_back("-" + a); break; } break; }
    case 8: { k = "deep-parentheses"; n = r.chance(1, 3) ? r.range(100, 3000) : r.range(10, 100); t += "    lda #" + string((size_t)n, '(') + "1" + string((size_t)n, ')') + "\n"; if (r.chance(1, 2)) { t += "    .word "; for (int i = 0; i < n; i++) t += r.chance(1, 2) ? "-" : "~"; t += "1 & $ff\n"; } break; }
    case 9: { k = "deep-conditions"; n = depth(); int st = r.below(3); vector<string> end; for (int i = 0; i < n; i++) { t += st == 0 ? string("    .if 1\n") : st == 1 ? string(".ifndef zz\n") : r.chance(1, 2) ? string("    .if 2 > 1\n") : string(".ifndef zz\n"); if (r.chance(1, 6)) t += some(); } t += some(); for (int i = 0; i < n; i++) { if (r.chance(1, 6)) t += some(); if (r.chance(1, 8)) t += st == 0 ? "    .else\n" + some() : ".else\n" + some(); t += st == 0 ? "    .endif\n" : ".endif\n"; } break; }
    case 10: { k = "deep-sections"; n = r.range(5, 60); string q; for (int i = 0; i < n; i++) { t += "    .section s" + std::to_string(i) + "\nin" + std::to_string(i) + " nop\n"; q += "s" + std::to_string(i) + "."; } t += some(); for (int i = n - 1; i >= 0; i--) t += "    jmp in" + std::to_string(i) + "\n    .ends\n"; if (r.chance(1, 2)) t += "    jmp " + q + "in" + std::to_string(n - 1) + "\n"; break; }
    case 11: { k = "deep-loops"; n = r.range(3, 60); string e; for (int i = 0; i < n; i++) { string v = "v" + std::to_string(i); switch (r.below(3)) { case 0: t += "    .repeat\n"; e = "    .until 1 == 1\n" + e; break; case 1: t += "    .var " + v + "\n    .for " + v + " = 1 .to " + (i < 4 ? "2" : "1") + "\n"; e = "    .next " + v + "\n" + e; break; default: t += "    .do\n"; e = "    .while 1 == 0\n" + e; break; } if (r.chance(1, 5)) t += some(); } t += some() + e; break; }
    case 12: { k = "long-list"; n = r.range(100, 3000); t += r.chance(1, 2) ? "    .byte 1" : "    .word 1"; for (int i = 1; i < n; i++) t += "," + std::to_string(i & 255); t += "\n"; if (r.chance(1, 2)) { t += "    .word 1"; for (int i = 0; i < n; i++) t += r.pick(vector<string>{ "+1", "-1", "|1", "^3", "&$ff" }); t += "\n"; } if (r.chance(1, 3)) t += "    .str \"" + string((size_t)size(), 's') + "\",\"" + string((size_t)size(), 'u') + "\"\n    .print \"" + string((size_t)size(), 'p') + "\"\n"; break; }
    case 13: { k = "many-macros"; n = r.range(10, 120); if (r.chance(1, 2)) for (int i = 0; i < n; i++) t += "    .macro m" + std::to_string(i) + "\n    .byte \\1," + std::to_string(i & 255) + "\n    .endm\n    m" + std::to_string(r.range(0, i)) + " 3\n"; else { for (int i = n - 1; i >= 0; i--) t += "    .macro m" + std::to_string(i) + "\n    .byte " + std::to_string(i & 255) + "\n" + (i + 1 < n ? "    m" + std::to_string(i + 1) + "\n" : "") + "    .endm\n"; t += "    m0\n    nop\n    m0\n"; } break; }
    case 14: { k = "many-parameters"; n = r.range(5, 40); t += "    .macro mp\n"; for (int i = 1; i <= n; i++) t += "    .byte \\" + std::to_string(i) + "\n"; t += "    .endm\n"; for (int j = 0; j < 2; j++) { t += "    mp "; int m = j ? n : r.range(std::max(1, n - 2), n + 2); for (int i = 0; i < m; i++) t += (i ? "," : "") + std::to_string(r.below(256)); t += "\n"; } break; }
    default: { k = "many-labels"; many = true; n = r.chance(1, 4) ? r.range(4850, 5150) : r.range(80, 700); int st = r.below(4); for (int i = 0; i < n; i++) { switch (st) { case 0: t += "- nop\n"; if (r.chance(1, 40)) t += "    bne -\n"; break; case 1: if (r.chance(1, 40)) t += "    jmp +\n"; t += "+ nop\n"; break; case 2: t += "lab" + std::to_string(i) + " nop\n"; if (r.chance(1, 30)) t += "    .word lab" + std::to_string(r.below(i + 1)) + "\n"; break; default: t += "    .section z" + std::to_string(i) + "\nq nop\n    jmp q\n    .ends\n"; break; } } if (st == 3 && n > 700) t = "    *= $1000\n    nop\n"; break; }
    }
    (void)many; t += "    rts\n";
    w.argv.insert(w.argv.end(), { "-o", "out.bin" }); if (r.chance(2, 3)) w.argv.insert(w.argv.end(), { "-l", "out.lst" }); if (r.chance(2, 3)) w.argv.insert(w.argv.end(), { "-s", "out.sym" }); if (r.chance(1, 4)) w.argv.insert(w.argv.end(), { "-log", "out.log" });
    fs_file(w.fs, "/w/prog.s", t); w.sources = { "/w/prog.s" }; w.argv.push_back("prog.s"); w.tags.push_back("extreme"); if (kind) *kind = k;
    return w;
}

Workload gen_garbage(Rng& r) {
    GenOpt o; o.size = r.range(5, 30); o.verbose = false;
    Workload w = gen_program(r, o);
    string p = r.pick(w.sources); string t = w.fs[p].str();
    int k = r.below(14);
    if (k >= 12) {
        int n = r.range(1, 5), kind = r.below(stateful_kinds);
        for (int i = 0; i < n; i++) { vector<size_t> at = { 0 }; for (size_t q = 0; q < t.size(); q++) if (t[q] == '\n') at.push_back(q + 1); t.insert(r.pick(at), stateful(r, r.chance(1, 3) ? r.below(stateful_kinds) : kind, i)); }
    }
    else if (k >= 7) { // token and line level: drop, repeat, exchange or transplant
        vector<string> lines; { size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); size_t n = j == string::npos ? t.size() - i : j + 1 - i; lines.push_back(t.substr(i, n)); i += n; } }
        static const char* ops[] = { "", "5", "$1234", "#5", "(5),y", "(5,x)", "5,x", "zz_none", "-1", "70000", "*", "#<*", "\"ab\"", "'c'", "1/0", "5%0", "a", "+", "--", "@q", "((((1))))", "~0", "!1", "1 <<40", "1<<-1", "$7fffffff+1", "x", "\\1", "*+200", "%2", "0x", "$", "1==", "1 .to 2", "\"\"", ".regx" };
        static const char* dirs[] = { ".byte", ".word", ".str", ".sstr", ".fill", ".ds", ".org", ".for i =", ".for .regx =", ".while", ".repeat", ".until", ".wend", ".next", ".next x", ".if", ".else", ".endif", ".ifdef", ".ifndef", ".macro", ".endm", ".sect", ".ends", ".var", ".print", ".printall", "?", "??", ".load", ".inc", ".c64", ".6502 on", ".65c02 on", ".illegal on", ".warn off", ".local", ".end", ".equ", "zz =", "*=", "@q", "@", "zz:", "+", "-", "bne", "bbr0", "rmb3", "stz", "lda", "jmp", "brk", ".print on", ".print off", ".dowhile", ".do", ".textsize" };
        int n = r.range(1, 5);
        for (int i = 0; i < n && !lines.empty(); i++) {
            size_t a = (size_t)r.below((int)lines.size()); string& l = lines[a]; string eol = !l.empty() && l.back() == '\n' ? "\n" : "";
            vector<string> tk; { size_t q = 0; while (q < l.size()) { size_t e = q; bool sp = isspace((unsigned char)l[q]); while (e < l.size() && (bool)isspace((unsigned char)l[e]) == sp) e++; tk.push_back(l.substr(q, e - q)); q = e; } }
            auto join = [&] { string s; for (auto& x : tk) s += x; return s; };
            switch (r.below(9)) {
            case 0: if (!tk.empty()) { tk.erase(tk.begin() + r.below((int)tk.size())); l = join(); } break;
            case 1: { size_t e = l.find_first_of(",(#="); if (e != string::npos) l = l.substr(0, e + (size_t)r.below(2)) + eol; } break;
            case 2: l = "    " + string(r.pick(vector<const char*>(dirs, dirs + sizeof dirs / sizeof *dirs))) + " " + ops[r.below(sizeof ops / sizeof *ops)] + (r.chance(1, 3) ? string(",") + ops[r.below(sizeof ops / sizeof *ops)] : "") + eol; break;
            case 3: { string x = "    " + string(r.pick(vector<const char*>(dirs, dirs + sizeof dirs / sizeof *dirs))) + (r.chance(1, 2) ? string(" ") + ops[r.below(sizeof ops / sizeof *ops)] : "") + "\n"; lines.insert(lines.begin() + (long)a, x); break; }
            case 4: lines.erase(lines.begin() + (long)a); break;
            case 5: { string x = l; lines.insert(lines.begin() + r.below((int)lines.size() + 1), x); break; }
            case 6: { size_t b = (size_t)r.below((int)lines.size()); std::swap(lines[a], lines[b]); break; }
            case 7: { vector<string> w2 = tk; if (tk.size() >= 2) { tk.back() = string(" ") + ops[r.below(sizeof ops / sizeof *ops)] + eol; l = join(); } break; }
            case 8: { string in; if (!tk.empty()) { in = tk[(size_t)r.below((int)tk.size())]; } string& m = lines[(size_t)r.below((int)lines.size())]; m.insert((size_t)r.below((int)m.size() + 1), in); break; }
            }
        }
        t = ""; for (auto& x : lines) t += x;
    }
    else if (k == 0) t = t.substr(0, (size_t)r.below((int)t.size() + 1));
    else if (k == 1) { int n = r.range(1, 6); for (int i = 0; i < n && !t.empty(); i++) t[(size_t)r.below((int)t.size())] = (char)r.range(1, 255); }
    else if (k == 2) { t = random_bytes(r, r.range(1, r.chance(1, 4) ? 1500 : 300)); }
    else if (k == 3) { int n = r.range(1, 4); for (int i = 0; i < n && t.size() > 4; i++) { size_t a = (size_t)r.below((int)t.size()), l = (size_t)r.range(1, 30); t.erase(a, l); } }
    else if (k == 4) { size_t a = (size_t)r.below((int)t.size()), b = (size_t)r.below((int)t.size()); t.insert(a, t.substr(b, (size_t)r.range(1, 60))); }
    else if (k == 5) { static const char* toks[] = { ".if", ".else", ".endif", ".endm", ".macro", ".next", ".wend", ".until", "/*", "\"", "'", "(", ")", ",", "#", "=", ".ifdef x", ".ends", ".section q", "*=", ".end", "\\1", "@a", "--", "++", ".load", ".inc", "x", "y", "~", "^" }; int n = r.range(1, 5); for (int i = 0; i < n; i++) t.insert((size_t)r.below((int)t.size() + 1), string(" ") + toks[r.below(31)] + (r.chance(1, 2) ? "\n" : " ")); }
    else { t = "    .org $1000\n"; int n = r.range(1, 40); static const char cs[] = "abcxyz019$%#()*+-/<>=,.@:;\"'\\ \t\n\n\n&|^~"; for (int i = 0; i < n * 6; i++) t += cs[r.below((int)sizeof cs - 1)]; t += "\n"; }
    fs_file(w.fs, p, t);
    w.tags.push_back("garbage");
    return w;
}

static vector<Workload> g_samples; static FS g_sample_fs;
const FS& sample_files() { return g_sample_fs; }
const vector<Workload>& sample_workloads() { return g_samples; }

void load_samples(const string& dir) {
    namespace fs = std::filesystem;
    if (!fs::exists(dir)) return;
    vector<fs::path> files;
    for (auto& e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) files.push_back(e.path());
    std::sort(files.begin(), files.end());
    map<string, vector<string>> bydir;
    for (auto& f : files) {
        std::ifstream in(f, std::ios::binary); string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        string rel = fs::relative(f, dir).string();
        fs_file(g_sample_fs, "/samples/" + rel, d);
    }
    auto mk = [&](const string& sub, vector<string> argv) {
        Workload w; w.cwd = "/samples/" + sub; bool ok = false;
        for (auto& e : g_sample_fs) {
            if (e.first.find(sub) != string::npos || e.first.find("/include/") != string::npos) { fs_file(w.fs, e.first, e.second.str()); if (e.first.find(".asm") != string::npos) w.sources.push_back(e.first); }
            if (e.first.find(sub) != string::npos) ok = true;
        }
        if (!ok) return;
        argv.insert(argv.begin(), "pasm"); w.argv = argv; w.depth = 3; w.single_org = false; w.listing_full = false; w.tags.push_back("sample"); g_samples.push_back(w);
    };
    mk("Commodore/blackboard", { "-c64", "-dir", "../include/", "-o", "bb.prg", "-l", "bb.lst", "-s", "bb.sym", "blackboard.asm" });
    mk("Commodore/misc", { "-dir", "../include/", "-o", "a.prg", "-l", "a.lst", "-s", "a.sym", "add16.asm" });
    mk("Commodore/renumber", { "-c64", "-dir", "../include/", "-o", "r.prg", "-l", "r.lst", "-s", "r.sym", "buildrenumer.asm" });
    mk("Commodore/sprites", { "-c64", "-dir", "../include/", "-o", "s.prg", "-l", "s.lst", "-s", "s.sym", "sprite1.asm" });
    mk("Commodore/sweet16", { "-dir", "../include/", "-o", "s16.prg", "-l", "s16.lst", "-s", "s16.sym", "sweet16.asm" });
    mk("Commodore/pong", { "-c64", "-dir", "../include/", "-o", "p.prg", "-l", "p.lst", "-s", "p.sym", "pong.asm" });
    mk("Commodore/supermon64-master", { "-c64", "-d", "ORG", "$9519", "-o", "sm.prg", "-l", "sm.lst", "-s", "sm.sym", "supermon64.asm" });
}
}
