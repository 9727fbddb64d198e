#include "gen.h"
#include <algorithm>

namespace gen {
using std::string; using std::vector; using std::to_string;
using model::Isa;

vector<string> Proj::argv() const {
	vector<string> v = {"asm6809"};
	v.push_back(string("-") + fmt);
	for (auto &o : opts) v.push_back(o);
	if (!out.empty()) { v.push_back("-o"); v.push_back(out); }
	if (!list.empty()) { v.push_back("-l"); v.push_back(list); }
	if (!exps.empty()) { v.push_back("-E"); v.push_back(exps); }
	if (!syms.empty()) { v.push_back("-s"); v.push_back(syms); }
	for (auto &m : mains) v.push_back(m);
	return v;
}
vector<string> Proj::outputs() const {
	vector<string> v;
	for (auto s : {&out, &list, &exps, &syms}) if (!s->empty()) v.push_back(*s);
	return v;
}

Feat swarm(Rng &r) {
	Feat f;
	auto c = [&](int n, int d) { return r.chance(n, d); };
	f.lines = c(1, 4) ? r.range(2, 8) : c(1, 4) ? r.range(40, 120) : r.range(8, 40);
	f.isa3 = c(1, 3); f.fwd = c(4, 5); f.sects = c(1, 3); f.macros = c(2, 5); f.incl = c(2, 5); f.bins = c(1, 4);
	f.floats = c(1, 4); f.strs = c(3, 4); f.exps = c(2, 3); f.locals = c(2, 3); f.conds = c(1, 3); f.setdp = c(1, 3);
	f.orgs = c(1, 3); f.big = c(1, 6); f.put = c(1, 10); f.end = c(1, 2); f.comments = c(1, 2); f.defs = c(1, 3);
	f.setv = c(1, 4); f.multi = c(1, 3); f.pcr = c(1, 2); f.align = c(1, 3); f.rmb = c(1, 3); f.afterend = c(1, 4);
	f.exec = c(1, 3);
	f.data_heavy = c(1, 4);
	f.late = c(1, 4); f.regs = c(1, 4); f.wide = c(1, 8); f.bulk = c(1, 10);
	f.warn = c(1, 3);
	return f;
}

string junk(Rng &r, size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }

namespace {
struct L { string text; int depth; string sect; };
struct MacroD { string name; vector<int> kinds; }; // 0 int literal, 1 expression, 2 index register, 3 string, 4 unique int, 5 accumulator

struct G {
	Rng &r; Feat f; Proj p;
	vector<L> out;
	vector<string> labels, consts, strs, flts, setvars, defs;
	vector<string> ldef;          // labels defined so far
	vector<string> cdef;          // constants defined so far
	vector<string> tolabel, toconst; // still to be defined
	std::map<string, int> crank;
	vector<MacroD> macros;
	vector<string> sections; string sect = "CODE";
	int depth = 0, uid = 0; int name_no = 0, short_no = 0;
	long at = 0;                  // upper bound of the address reached
	int nbin = 0;

	G(Rng &rr, const Feat &ff) : r(rr), f(ff) {}
	bool ch(int n, int d) { return r.chance(n, d); }
	string name() {
		if (f.prefix.empty() && short_no < 14 && ch(1, 10)) { static const char *one[] = {"g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "r", "t", "_", "ab"}; return one[short_no++]; }
		static const char *st[] = {"lab", "Loop", "start", "_v", "data.x", "Tbl", "q1_", "zz", "M_", "k.9.", "loop", "LAB", "val", "ptr", "Sx"};
		return f.prefix + st[r.below(15)] + to_string(name_no++);
	}
	string ws() { return ch(1, 2) ? "\t" : ch(1, 3) ? "  " : " "; }
	string mcase(const string &s) { string o = s; int m = r.below(4); if (m == 0) for (auto &c : o) c = toupper(c); else if (m == 1 && !o.empty()) o[0] = toupper(o[0]); return o; }
	void raw(const string &t) { out.push_back({t, depth, sect}); }
	void line(const string &label, const string &op, const string &args = "") {
		string t = label + ws() + mcase(op);
		if (!args.empty()) t += ws() + args;
		if (f.comments && ch(1, 5)) t += " ; " + words() + odd();
		else if (ch(1, 20)) t += " ";
		raw(t);
	}
	string words() {
		static const char *w[] = {"the", "loop", "is", "here", "x=1", "\"q\"", "(a)", "don't", "100%", "a,b", "&1", "\\2", "end"};
		string s; int n = r.below(6);
		for (int i = 0; i < n; i++) s += string(i ? ch(1, 10) ? "\t" : " " : "") + w[r.below(13)];
		if (ch(1, 40)) { s += string(r.below(300), '-'); if (ch(1, 2)) s += "\tafter a\ttab"; }
		if (f.wide && ch(1, 8)) { static const int z[] = {8000, 8190, 8191, 8192, 8193, 12000, 16384, 20000, 40000}; s += string(z[r.below(9)] - r.below(3), '='); s += " tail"; }
		return s;
	}
	string num(int64_t v) {
		char b[80];
		if (v < 0) { snprintf(b, sizeof b, "(-%lld)", (long long)-v); return b; }
		switch (r.below(8)) {
		case 0: case 1: snprintf(b, sizeof b, ch(1, 2) ? "$%llx" : "$%04llX", (long long)v); return b;
		case 2: snprintf(b, sizeof b, "0x%llx", (long long)v); return b;
		case 3: { string s; int64_t x = v; do { s += '0' + (x & 1); x >>= 1; } while (x); std::reverse(s.begin(), s.end()); return (ch(1, 2) ? "%" : "0b") + s; }
		case 4: snprintf(b, sizeof b, "@%llo", (long long)v); return b;
		case 5: if (v < 127 && isalnum((int)v)) { snprintf(b, sizeof b, ch(1, 2) ? "'%c" : "'%c'", (int)v); return b; } /* fall through */
		default: snprintf(b, sizeof b, "%lld", (long long)v); return b;
		}
	}
	int64_t val() {
		static const int64_t v[] = {0, 1, 2, 7, 15, 16, 17, 31, 32, 127, 128, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535};
		return ch(1, 2) ? v[r.below(20)] : (int64_t)r.below(ch(1, 2) ? 256 : 65536);
	}
	string anylabel() {
		if (f.fwd && ch(1, 2)) { if (!labels.empty()) return r.pick(labels); }
		if (!ldef.empty()) return r.pick(ldef);
		return "";
	}
	string anyconst() {
		if (f.fwd && ch(1, 2)) { if (!consts.empty()) return r.pick(consts); }
		if (!cdef.empty()) return r.pick(cdef);
		return "";
	}
	// an integer expression
	string expr(int d = 2) {
		string s;
		switch (r.below(d > 0 ? 12 : 6)) {
		case 0: case 1: break;
		case 2: case 3: s = anylabel(); break;
		case 4: s = anyconst(); break;
		case 5: if (f.setv && !setvars.empty() && ch(1, 2)) s = r.pick(setvars); else if (ch(1, 3)) return "*"; else if (!defs.empty()) s = r.pick(defs); break;
		case 6: case 7: case 8: {
			static const char *ops[] = {"+", "-", "+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "<", ">=", "==", "!=", "&&", "||"};
			string o = ops[r.below(18)];
			string a = expr(d - 1), b;
			if (o == "<<" || o == ">>") b = num(r.below(9));
			else if (o == "/" || o == "%") b = num(1 + r.below(300));
			else b = expr(d - 1);
			if ((o == "/" || o == "*") && a == "*") a = num(val());
			if (b.compare(0, 2, "-(") == 0 || b.compare(0, 2, "+(") == 0) b = "(" + b + ")";
			string sp = ch(1, 2) ? " " : "";
			if (o == "%" || o == "&") sp = " ";
			string e = a + sp + o + sp + b;
			return ch(2, 3) ? "(" + e + ")" : e; }
		case 9: return string(1, "-~!+"[r.below(4)]) + "(" + expr(d - 1) + ")";
		case 10: if (f.floats && ch(1, 2)) return ch(1, 2) ? "(2.5*" + num(1 + r.below(20)) + ")" : "(7/" + num(1 + r.below(9)) + ")"; break;
		case 11: { string a = anylabel(), b = anylabel(); if (!a.empty() && !b.empty()) return "(" + a + "-" + b + ")"; break; }
		}
		if (!s.empty()) return s;
		return num(ch(1, 12) ? -(int64_t)r.below(300) : val());
	}
	string str(size_t maxn = 12) {
		static const char cs[] = "abcXYZ 0123,.;:-+*#$@()[]{}<>=_qrstUVW'~^|`?!%";
		string s; size_t n = 1 + r.below(maxn);
		for (size_t i = 0; i < n; i++) s += cs[r.below(sizeof cs - 1)];
		return s;
	}
	string strlit(size_t maxn = 12) {
		char q = ch(3, 4) ? '"' : '/';
		string s = q + str(maxn);
		if (ch(1, 6)) s.insert(1 + r.below(s.size()), 1, q == '"' ? '/' : '"');
		if (ch(1, 12)) s += ch(1, 2) ? "\\n" : "\\\"";
		if (ch(1, 20)) s += "&& ";
		return s + q;
	}
	string newlabel() {
		if (tolabel.empty() || !ch(1, 3)) return "";
		size_t i = r.below(tolabel.size());
		string n = tolabel[i]; tolabel.erase(tolabel.begin() + i);
		ldef.push_back(n);
		return n;
	}
	string idxreg() { return string(1, "xyus"[r.below(4)]); }
	string indexed() {
		string o, i = mcase(idxreg());
		static const int off[] = {0, 1, -1, 15, 16, -16, -17, 127, 128, -128, -129, 1000, 32767, -32768, 5, 64};
		switch (r.below(f.isa3 ? 16 : 14)) {
		case 0: return "," + i;
		case 1: case 2: o = num(off[r.below(16)]); if (o[0] == '(') o = o.substr(1, o.size() - 2); return o + "," + i;
		case 3: return "<" + num(r.range(-128, 127)) + "," + i;
		case 4: return "<<" + num(r.range(-16, 15)) + "," + i;
		case 5: return ">" + num(r.range(-300, 300)) + "," + i;
		case 6: return string(1, "abd"[r.below(3)]) + "," + i;
		case 7: return "," + i + "+";
		case 8: return "," + i + "++";
		case 9: return ",-" + i;
		case 10: return ",--" + i;
		case 11: return expr(1) + "," + i;
		case 12: case 13: if (f.pcr) { string l = anylabel(); if (!l.empty()) return (ch(1, 8) ? ">" : "") + l + (ch(1, 3) ? "+" + num(r.below(5)) : "") + "," + (ch(4, 5) ? "pcr" : "pc"); } return "," + i;
		case 14: return string(1, "efw"[r.below(3)]) + "," + i;
		default: { static const char *w[] = {",w", ",w++", ",--w", "5,w", "300,w"}; return w[r.below(5)]; }
		}
	}
	string indirect() {
		string i = idxreg();
		switch (r.below(8)) {
		case 0: return "[," + i + "]";
		case 1: return "[" + num(r.range(-40, 300)) + "," + i + "]";
		case 2: return "[," + i + "++]";
		case 3: return "[,--" + i + "]";
		case 4: return "[" + string(1, "abd"[r.below(3)]) + "," + i + "]";
		case 5: return "[" + expr(1) + "]";
		case 6: { string l = anylabel(); if (f.pcr && !l.empty()) return "[" + l + ",pcr]"; return "[," + i + "]"; }
		default: return "[" + expr(1) + "," + i + "]";
		}
	}
	string memop(const Isa &e) {
		bool direct = e.dir >= 0, ext = e.ext >= 0;
		int k = r.below(10);
		if (direct && k == 0) return "<" + expr(1);
		if (ext && k == 1) return ">" + expr(1);
		if (ext && k < 6) { string l = anylabel(); if (!l.empty() && ch(1, 2)) return l + (ch(1, 4) ? "+" + num(r.below(20)) : ""); return expr(1); }
		if (k == 6) return indirect();
		return indexed();
	}
	string operand(const Isa &e, bool &ok) {
		ok = true;
		static const vector<string> r16 = {"x", "y", "u", "s", "d", "pc"}, r8 = {"a", "b", "cc", "dp"};
		switch (e.kind) {
		case model::K_INH: return "";
		case model::K_IMM8: case model::K_IMM16: case model::K_IMM32:
			if (e.imm >= 0 && (ch(1, 2) || e.idx < 0)) return "#" + expr(1);
			if (e.idx < 0) { ok = false; return ""; }
			return memop(e);
		case model::K_NONE: return memop(e);
		case model::K_IMM8MEM: return "#" + num(r.below(256)) + "," + memop(e);
		case model::K_PAIR: { auto &v = ch(1, 2) ? r16 : r8; return mcase(r.pick(v)) + "," + mcase(r.pick(v)); }
		case model::K_STKU: case model::K_STKS: {
			vector<string> v = {"cc", "a", "b", "dp", "x", "y", "pc", "d", e.kind == model::K_STKU ? "s" : "u"};
			string s; int n = 1 + r.below(4);
			for (int i = 0; i < n; i++) s += (i ? "," : "") + mcase(r.pick(v));
			return s; }
		case model::K_REL16: { string l = anylabel(); if (l.empty()) return "*"; return l; }
		case model::K_REL8: return ch(1, 2) ? "*" : "*+" + num(r.below(100));
		case model::K_REGMEM: return string(ch(1, 3) ? "cc" : ch(1, 2) ? "a" : "b") + "," + num(r.below(8)) + "," + num(r.below(8)) + "," + (ch(1, 2) ? "<" : "") + num(r.below(256));
		case model::K_TFM: {
			static const char *t[] = {"x+,y+", "x-,u-", "y+,d", "s,x+", "d+,u+"};
			return t[r.below(5)]; }
		}
		ok = false; return "";
	}
	void instr(const string &label) {
		for (;;) {
			const Isa &e = model::isa_table[r.below(model::isa_count)];
			if (e.only6309 && !f.isa3) continue;
			if (e.only6309 && ch(1, 2)) continue;
			bool ok; string o = operand(e, ok);
			if (!ok) continue;
			line(label, e.name, o);
			at += 6;
			return;
		}
	}
	void small() { // few bytes, no labels, no references
		static const char *s[] = {"nop", "inca", "abx", "rts", "clrb", "mul", "sex"};
		line("", s[r.below(7)]); at += 1;
	}
	void local_block() {
		static const char *br[] = {"bra", "bne", "beq", "bcc", "bsr", "bmi", "bhi"};
		int n = 1 + r.below(ch(1, 4) ? 100 : 4);
		int k = r.below(7);
		if (ch(1, 2)) {
			line(to_string(n), ch(1, 3) ? "" : "nop");
			for (int i = 0; i < k; i++) small();
			line("", br[r.below(7)], to_string(n) + (ch(1, 2) ? "b" : "B"));
		} else {
			line("", ch(1, 4) ? "lbra" : br[r.below(7)], to_string(n) + (ch(1, 2) ? "f" : "F"));
			for (int i = 0; i < k; i++) small();
			line(to_string(n), "nop");
		}
		at += 8;
	}
	void data(const string &label) {
		int k = r.below(12);
		int n = 1 + r.below(ch(1, 6) ? 40 : 5);
		string a;
		if (k < 3) { for (int i = 0; i < n; i++) a += (i ? (ch(1, 4) ? ", " : ",") : "") + (f.strs && ch(1, 5) ? strlit() : expr(1)); line(label, ch(1, 2) ? "fcb" : "fcc", a); at += n * 14; }
		else if (k < 5) { if (f.wide && ch(1, 3)) n = 120 + r.below(400); for (int i = 0; i < n; i++) a += (i ? "," : "") + (n > 100 ? to_string(r.below(65536)) : expr(2)); line(label, "fdb", a); at += n * 2; }
		else if (k == 5) { static const char *ev[] = {"-2147483648", "2147483647", "2147483648", "4294967295", "-1", "$80000001", "65536", "65535", "-32769"}; for (int i = 0; i < n; i++) a += (i ? "," : "") + (ch(1, 4) ? string(ev[r.below(9)]) : expr(1)); line(label, "fqb", a); at += n * 4; }
		else if (k < 9 && f.strs) {
			static const char *o[] = {"fcc", "fcn", "fcv", "fci", "fcs"};
			n = 1 + r.below(3);
			for (int i = 0; i < n; i++) a += (i ? "," : "") + (ch(1, 4) && !strs.empty() ? r.pick(strs) : ch(3, 4) ? strlit(ch(1, 8) ? 90 : 12) : num(r.below(256)));
			line(label, o[r.below(5)], a); at += n * 92 + 1;
		} else if (k == 9) { int c = r.below(ch(1, 4) ? 300 : 20); line(label, ch(1, 2) ? "rzb" : "zmb", num(c) + (ch(1, 3) ? "," + num(r.below(256)) : "")); at += c; }
		else if (k == 10) { int c = r.below(ch(1, 4) ? 300 : 20); line(label, "fill", num(r.below(256)) + "," + num(c)); at += c; }
		else if (f.big && ch(1, 2)) {
			static const int bc[] = {32, 64, 128, 255, 256, 257, 511, 4095, 4096, 4097, 6000, 8192};
			int c = bc[r.below(12)]; line(label, "rzb", num(c) + "," + num(r.below(256))); at += c;
		} else { line(label, "fcb", num(r.below(256))); at += 1; }
	}
	void defconst(string n) {
		auto it = std::find(toconst.begin(), toconst.end(), n);
		if (it != toconst.end()) toconst.erase(it);
		// only constants of a lower rank, so that there are no cycles
		int rank = crank[n];
		string e;
		vector<string> low; for (auto &c : consts) if (crank[c] < rank) low.push_back(c);
		if (!low.empty() && ch(1, 2) && f.fwd) {
			string o = r.pick(low);
			e = ch(1, 2) ? o + "+" + num(r.below(50)) : o;
		} else if (!labels.empty() && f.fwd && ch(1, 2)) {
			e = r.pick(labels); if (ch(1, 2)) e += "-" + r.pick(labels); else if (ch(1, 3)) e += "+" + num(r.below(9));
		} else e = num(val());
		line(n, "equ", e);
		cdef.push_back(n);
	}
	string arg(int kind) {
		switch (kind) {
		case 0: return num(r.below(256));
		case 1: return expr(1);
		case 2: return idxreg();
		case 3: return "\"" + f.prefix + "s" + to_string(r.below(50)) + "\"";
		case 4: return to_string(uid++);
		default: return ch(1, 2) ? "a" : "b";
		}
	}
	void defmacro() {
		MacroD m; m.name = name();
		int n = r.below(4);
		for (int i = 0; i < n; i++) m.kinds.push_back(r.below(5));
		line(m.name, "macro");
		depth++;
		int k = ch(1, 6) ? 0 : 1 + r.below(5);
		auto P = [&](int i) { return ch(2, 3) ? "\\" + to_string(i + 1) : "\\{" + to_string(i + 1) + "}"; };
		auto Q = [&](int i) { return ch(1, 2) ? "\\" + to_string(i + 1) : "&{" + to_string(i + 1) + "}"; };
		for (int j = 0; j < k; j++) {
			if (ch(1, 3)) {
				static const char *rich[] = {"\tlda\t,--x", "\tldd\t,-y", "\tstx\t,u++", "\tlda\t,s+", "\tldb\t<<5,x", "\tldb\t<5,x", "\tldb\t>5,y", "\tldx\t[,--u]", "\tldx\t[5,s]", "\tfcb\t-5,-(3+2),~(1+2)*3,!0", "\tldx\t#-5", "\tleay\t-5,y", "\tfcb\t1-(-5),(2-3)-4,2-(3-4)", "\tfcb\t(1<2)&(3>=2),1<<3|1,7^2", "\tfcb\t12/4*3,12/(4*3),7 % 4", "\tfcc\t/q/,\"it's\"", "\tpshs\ta,b,x", "\texg\tx,d", "\tlda\t<$20", "\tlda\t>$0020", "\tlbra\t1f\n1\tnop", "; a comment", "* another", "\tldd\t#1.5*4", "\tfdb\t*,*+2", "\tlda\tb,x", "\tjmp\t[$1234]", "1\tdecb\n\tbne\t1b"};
				static const char *rich3[] = {"\ttfm\tx-,u-", "\ttfm\tx+,y+", "\ttfm\ts,x+", "\ttfm\ty+,d", "\tldq\t#$12345678", "\tlda\te,x", "\tldd\t,w++", "\tband\ta,1,3,<$20", "\toim\t#5,<$20", "\taim\t#$f0,5,x"};
				string t = f.isa3 && ch(1, 2) ? rich3[r.below(10)] : rich[r.below(28)];
				size_t q; while ((q = t.find('\n')) != string::npos) { raw(t.substr(0, q)); t = t.substr(q + 1); }
				raw(t); continue;
			}
			if (ch(1, 12)) { raw(to_string(1 + r.below(3)) + (ch(1, 3) ? " " : "")); continue; }
			if (n == 0 || ch(1, 4)) { small(); continue; }
			int i = r.below(n);
			switch (m.kinds[i]) {
			case 0: case 1: switch (r.below(4)) { case 0: line("", "lda", "#" + P(i)); break; case 1: line("", "fcb", P(i)); break; case 2: line("", "fdb", P(i) + "+1"); break; default: line("", "ldx", ">" + P(i)); } break;
			case 2: { static const char *o[] = {"5,", ",", ",", "<5,", "a,", ",-", ",--", "[5,", "<<3,"}; string q = o[r.below(9)]; if (q[q.size() - 1] == '-') q = ","; line("", ch(1, 2) ? "ldb" : "stx", q + P(i) + (q[0] == '[' ? "]" : "")); break; }
			case 3: line("", ch(1, 2) ? "fcc" : "fcn", "\"x" + Q(i) + "y\""); break;
			case 4: { bool dup = false; for (int z = 0; z < j; z++) dup = true; if (!dup) line(m.name + "." + Q(i) + "_", "equ", "*"); else line("", "fcb", P(i)); break; }
			}
			if (ch(1, 6) && !macros.empty()) {
				const MacroD &c = r.pick(macros); string a; bool uniq = false;
				for (size_t q = 0; q < c.kinds.size(); q++) { if (c.kinds[q] == 4) uniq = true; a += (q ? "," : "") + arg(c.kinds[q]); }
				if (!uniq) line("", c.name, a), out.back().text = ws() + c.name + (a.empty() ? "" : ws() + a);
			}
		}
		depth--;
		line("", "endm");
		macros.push_back(m);
	}
	void callmacro() {
		if (macros.empty()) return;
		const MacroD &c = r.pick(macros); string a;
		for (size_t q = 0; q < c.kinds.size(); q++) a += (q ? "," : "") + arg(c.kinds[q]);
		raw(newlabel() + ws() + c.name + (a.empty() ? "" : ws() + a));
		at += 60;
	}
	string cond() {
		string s;
		if (!cdef.empty() && ch(1, 4)) s = r.pick(cdef);
		if (!defs.empty() && ch(1, 2)) s = r.pick(defs);
		if (s.empty()) return ch(1, 2) ? num(r.below(2)) : num(r.below(5)) + (ch(1, 2) ? ">" : "==") + num(r.below(5));
		return s + (ch(1, 2) ? "==" : "<") + num(r.below(4));
	}
	// lines that stand for nothing
	void noop() { static const char *t[] = {"opt l", "OPT nol", "ttl \"a title\"", "sttl /part/", "opt cre,s", "TTL", "opt 1+2"}; raw(ws() + t[r.below(7)]); }
	void condblock(int lvl) {
		line("", "if", cond());
		depth++;
		auto body = [&] { int n = r.below(4); for (int i = 0; i < n; i++) { if (lvl > 0 && ch(1, 6)) condblock(lvl - 1); else if (ch(1, 15)) noop(); else if (ch(1, 3)) data(""); else if (ch(1, 2)) instr(""); else small(); } };
		body();
		while (ch(1, 4)) { line("", "elsif", cond()); body(); }
		if (ch(1, 2)) { line("", "else"); body(); }
		depth--;
		line("", "endif");
	}
	void gosection(const string &n) {
		static const vector<string> direct = {"CODE", "DATA", "BSS", "RAM", "AUTO"};
		bool d = std::find(direct.begin(), direct.end(), n) != direct.end();
		sect = n;
		string lb = depth == 0 && ch(1, 2) ? newlabel() : "";
		if (d && ch(1, 2)) raw(lb + ws() + n); else raw(lb + ws() + mcase("section") + ws() + "\"" + n + "\"");
	}
	void one() {
		int k = r.below(100);
		string lb = newlabel();
		if (k < 8 && !toconst.empty() && lb.empty()) { defconst(r.pick(toconst)); return; }
		if (f.late && depth == 0 && lb.empty() && at < 0xa000 && ch(1, 15)) { bulk(ch(1, 3) ? 29 : 25); return; }
		if (f.bulk && depth == 0 && lb.empty() && at < 0xa000 && ch(1, 4)) { if (ch(1, 3)) f.bulk = false; bulk(); return; }
		if (k < 10 && f.late && f.fwd && lb.empty() && !ch(1, 3)) { lateblock(); return; }
		if (k == 10 && f.regs && lb.empty()) { regsyms(); return; }
		if (k < 14 && f.locals && lb.empty()) { local_block(); return; }
		if (k < 18 && f.macros && lb.empty() && macros.size() < 4) { defmacro(); return; }
		if (k < 26 && f.macros && lb.empty()) { callmacro(); if (!macros.empty()) return; }
		if (k < 30 && f.conds && lb.empty()) { condblock(2); return; }
		if (k < 33 && f.setdp) { line(lb, "setdp", ch(1, 6) ? num(-1) : ch(1, 2) ? num(r.below(8)) : num(at >> 8 & 0xff)); return; }
		if (k < 36 && f.orgs && depth == 0 && lb.empty() && at < 0xa000 && ch(1, 10)) { bulk(28); return; }
		if (k < 36 && f.orgs) { at = (at + 16 + r.below(ch(1, 3) ? 3000 : 40)); if (at < 0xd000) { line(lb, "org", num(at)); return; } }
		if (k < 38 && f.rmb) { int n = r.below(ch(1, 4) ? 500 : 20); line(lb, "rmb", num(n)); at += n; return; }
		if (k < 40 && f.align) { int n = 1 << r.below(7); line(lb, "align", num(n) + (ch(1, 3) ? "," + num(r.below(256)) : "")); at += n; return; }
		if (k < 43 && f.warn && ch(1, 4)) { // forms that work but are warned about
			static const char *w[][2] = {{"tfr", "a,x"}, {"exg", "d,b"}, {"tfr", "5,b"}, {"exg", "x,2"}, {"tfr", "8,9"}, {"lda", "[,x+]"}, {"ldd", "[,-y]"}, {"leau", "[,s+]"}, {"jmp", "[,-u]"}, {"lbra", "*+10"}, {"tfr", "cc,d"}, {"exg", "15,dp"}, {"tfr", "0,a"}, {"tfm", "1,x+"}, {"tfm", "y+,4"}, {"tfm", "0,y+"}, {"tfm", "u+,0"}, {"eorr", "1,e"}, {"cmpr", "w,f"}, {"oim", "#1,[$1234]"}, {"adcr", "a,x"}, {"addr", "3,d"}};
			int i = r.below(f.isa3 ? 21 : 13); line(lb, w[i][0], w[i][1]); at += 4; return; }
		if (k < 43 && f.setv && f.strs + f.floats && lb.empty() && ch(1, 3)) { // text or a floating point value that changes
			bool tx = f.strs && (!f.floats || ch(1, 2)); string n = name(); int m = 1 + r.below(3);
			for (int i = 0; i < m; i++) {
				static const char *fv[] = {"1.5", "7/3", "-(2.75)", "100/8", "0.5*9"};
				line(n, "set", tx ? strlit() : string(fv[r.below(5)]));
				if (ch(2, 3)) { line("", tx ? "fcc" : "fdb", tx ? n : n + "*4"); at += 8; }
			}
			return; }
		if (k < 43 && f.setv && lb.empty()) { if (setvars.size() < 3 && ch(1, 2)) { string n = name(); line(n, "set", num(val())); setvars.push_back(n); return; } if (!setvars.empty()) { string n = r.pick(setvars); line(n, "set", n + "+" + num(1 + r.below(4))); return; } }
		if (k < 46 && f.sects && lb.empty()) {
			if (sections.size() < 4 && ch(1, 2)) {
				static const vector<string> ns = {"DATA", "BSS", "RAM", "extra", "AUTO", "Z.1"};
				string n = r.pick(ns);
				if (std::find(sections.begin(), sections.end(), n) == sections.end()) {
					if (sect != sections.back()) gosection(sections.back());
					gosection(n); sections.push_back(n); return;
				}
			}
			string n = r.pick(sections); if (n != sect) gosection(n); return;
		}
		if (k < 49 && f.bins && nbin < 3) {
			string n = f.prefix + "bin" + to_string(nbin++) + (ch(1, 2) ? ".dat" : "");
			size_t c = ch(1, 6) ? 0 : ch(1, 6) ? 4090 + r.below(20) : r.below(ch(1, 2) ? 8 : 200);
			p.files[n] = junk(r, c); p.bins.push_back(n);
			if (ch(1, 4)) line("", "includebin", "\"" + n + "\""), at += c;
			line(lb, "includebin", "\"" + n + "\""); at += c; return;
		}
		if (k < 51 && f.exps && lb.empty()) { expline(); return; }
		if (k < 54 && f.comments && lb.empty()) { if (ch(1, 6)) { noop(); return; } if (ch(1, 3)) raw(""); else raw((ch(1, 2) ? "" : ws()) + (ch(1, 2) ? "; " : "* ") + words() + odd()); return; }
		if (k < 56 && !lb.empty()) { raw(lb + (ch(1, 3) ? " " : "")); return; }
		if (k < (f.data_heavy ? 90 : 70)) { data(lb); return; }
		instr(lb);
	}
	// values that settle several passes after the first, or change late in ways
	// that a careless comparison of passes overlooks
	void lateblock() {
		string n = name(); int k = r.below(9), m = 1 + r.below(3);
		auto N = [&](const char *s, int i = 0) { return n + s + to_string(i); };
		static const char *ia[][2] = {{"5", "65541"}, {"$100", "$10100"}, {"1", "$100000001"}, {"3", "4"}, {"0", "65536*3"}, {"128", "127"}, {"0-1", "65535"}, {"0-1", "255"}};
		static const char *fa[][2] = {{"1.25", "1.75"}, {"2.5", "2.625"}, {"100.125", "100.25"}, {"3.0", "3.5"}, {"0.5", "0.75"}, {"1.0000001", "1.0000002"}, {"1000000.25", "1000000.5"}, {"0.1", "0.1000000001"}, {"65536.5", "65537.5"}, {"0.00001", "0.00002"}};
		static const char *sa[][2] = {{"\"abcdefg\"", "\"abcdefh\""}, {"\"abcd\"", "\"abcde\""}, {"\"longer text one\"", "\"longer text two\""}, {"\"a\"", "\"b\""}, {"/xy/", "/xyz/"}, {"\"same1\"", "\"SAME1\""}};
		static const char *ra[][2] = {{"x", "y"}, {"u", "s"}, {"y", "u"}};
		string v[2]; int q;
		string u = N("_u");
		if (k == 6) { // a local label that comes or goes
			string l = to_string(70 + r.below(3));
			line("", "fdb", l + "f"); if (ch(1, 2)) line("", "lbra", l + "f");
			line("", "if", N("_c") + (ch(1, 2) ? "==1" : "!=0")); depth++; if (ch(1, 2)) { raw(l); line("", "else"); } else { line("", "else"); raw(l); } depth--; line("", "endif");
			if (ch(1, 2)) line("", "rmb", "2");
			line(l, "nop"); if (ch(1, 2)) line("", "fdb", l + "b");
			for (int i = 0; i < m; i++) line(N("_c", i), "equ", N("_c", i + 1));
			line(N("_c", m), "equ", ch(1, 3) ? "0" : "1");
			at += 20; return;
		}
		if (k == 7) { // what a condition takes for granted
			static const char *av[] = {"\"a\"", "1.5", "0.5", "7", "0", "\"ab\"", "2.0", "0.25*2"};
			line("", "if", u + (ch(1, 3) ? "==1" : "")); line("", "fcb", "1"); line("", "else"); line("", "fcb", "2"); line("", "endif");
			line(u, "equ", av[r.below(8)]);
			at += 2; return;
		}
		if (k == 8) { // a macro that is defined anew while it is being expanded
			bool in = ch(2, 3); int a = 1 + r.below(3), b = r.below(3);
			if (ch(1, 3)) line(N("_x"), "equ", "*");
			line(N("_m"), "macro", "");
			if (ch(1, 4)) line("", "fcb", "3");
			line(N("_n"), "macro", "");
			if (in) line("", N("_m"), "");
			for (int i = 0; i < a; i++) line("", ch(1, 2) ? "nop" : "fdb", "*");
			line("", "endm", "");
			for (int i = 0; i < b; i++) line("", "fcb", to_string(i));
			line("", "endm", "");
			line("", "if", N("_c")); line("", N("_n"), ""); if (!in) line("", N("_m"), ""); line("", "else", ""); line("", N("_m"), ""); line("", "endif", "");
			for (int i = 0; i < m; i++) line(N("_c", i), "equ", N("_c", i + 1));
			line(N("_c", m), "equ", "1");
			at += 12; return;
		}
		switch (k) {
		case 0: q = r.below(8); v[0] = ia[q][0]; v[1] = ia[q][1]; { static const char *o[] = {"fqb", "fdb", "fcb"}; line("", o[r.below(3)], u); if (ch(1, 2)) line("", "fcb", u + ">>16," + u + ">255," + u); } break;
		case 1: q = r.below(10); v[0] = fa[q][0]; v[1] = fa[q][1]; line("", "fdb", u + "*1000," + u + "*8"); if (q > 4) line("", "fqb", u + "*1000000000"); break;
		case 2: q = r.below(6); v[0] = sa[q][0]; v[1] = sa[q][1]; if (ch(1, 2)) { string com(1 + r.below(ch(1, 4) ? 300 : 40), 'c'); for (int i = 0; i < 2; i++) v[i] = v[i][0] == '/' ? "/" + com + v[i].substr(1) : "\"" + com + v[i].substr(1); } line("", ch(1, 2) ? "fcc" : "fcn", u); break;
		case 3: q = r.below(3); v[0] = ra[q][0]; v[1] = ra[q][1]; line("", ch(1, 2) ? "lda" : "leax", (ch(1, 2) ? "5," : ",") + u); break;
		case 4: v[0] = "0"; v[1] = ch(1, 2) ? "300" : "1"; line("", "rmb", u); line(N("_e"), "equ", "*"); line("", "fdb", N("_e")); break;
		default: { // the end of a section as another one sees it
			string s1 = "L1" + n, s2 = "L2" + n, back = sect;
			v[0] = "$2000"; v[1] = "$2100"; q = 0;
			gosection(s1); line("", "org", u); line("", "put", num(at + 2000)); line("", "fcb", "1,2,3");
			gosection(s2); line("", "put", num(at + 2100)); line("", "fdb", "*"); if (ch(1, 2)) line("", "leax", "*+3,pcr");
			gosection(back); break; }
		}
		if (ch(1, 2)) std::swap(v[0], v[1]);
		int hops = 1 + r.below(2); string prev = u; bool sv = ch(1, 4);
		if (sv && ch(2, 3)) { hops = 0; if (ch(1, 2)) m = 0; }
		for (int i = 0; i < hops; i++) { line(prev, "equ", N("_h", i)); prev = N("_h", i); }
		line("", "if", N("_c") + (ch(1, 2) ? "==1" : "")); depth++;
		line(prev, sv ? "set" : "equ", v[0]);
		line("", "else");
		line(prev, sv ? "set" : "equ", v[1]);
		depth--; line("", "endif");
		for (int i = 0; i < m; i++) line(N("_c", i), "equ", N("_c", i + 1));
		line(N("_c", m), "equ", "1");
		at += 300;
	}
	// bytes that mean nothing in a comment
	string odd() {
		string o;
		if (ch(1, 15)) for (int i = 1 + r.below(4); i; i--) o += "\x01\x07\x08\x0b\x0c\x1b\x1a\x7f\x80\xa0\xc3\xff\t\x1f"[r.below(14)];
		return o;
	}
	// many of one thing, deep, or long: past every small table, buffer and stack
	void bulk(int kind = -1) {
		static const int cnt[] = {2, 5, 10, 17, 33, 65, 100, 130, 257, 300, 520, 1000};
		string n = name(); int N = cnt[r.below(12)], k = kind >= 0 ? kind : (int)r.below(31), cap = N > 130 ? 130 : N;
		auto S = [&](int i) { return n + "_b" + to_string(i); };
		auto L1 = [&](const string &l, const string &o, const string &a = "") { raw(l + "\t" + o + (a.empty() ? "" : " " + a)); };
		string back = sect;
		switch (k) {
		case 0: // symbols, in either order
			if (ch(1, 2)) for (int i = 0; i < N; i++) L1(S(i), "equ", to_string(i * 7)); else for (int i = N; i-- > 0;) L1(S(i), "equ", to_string(i * 5 + 1));
			for (int i = 0; i < 3; i++) L1("", "fdb", S(r.below(N)) + "," + S(N - 1));
			break;
		case 1: // labels
			if (ch(1, 2)) L1("", "fdb", S(N - 1) + "," + S(0));
			for (int i = 0; i < N; i++) L1(S(i), "fcb", to_string(i & 255));
			at += N; L1("", "fdb", S(N / 2) + "-" + S(0));
			break;
		case 2: { // conditions, one inside the other
			int off = ch(1, 3) ? (int)r.below(cap) : -1;
			for (int i = 0; i < cap; i++) { L1("", "if", i == off ? "0" : "1"); depth++; if (ch(1, 6)) L1("", "fcb", to_string(i)); }
			L1("", "fcb", "170");
			for (int i = cap; i-- > 0;) { if (i == off || ch(1, 4)) { L1("", ch(3, 4) ? "else" : "elsif 1"); L1("", "fcb", to_string(i)); } depth--; L1("", "endif"); }
			at += 2 * cap; break; }
		case 3: // sections
			for (int i = 0; i < cap; i++) { gosection(S(i)); if (ch(1, 3)) { L1("", "org", to_string(at + 3 * i)); } L1("", "fcb", to_string(i & 255)); if (ch(1, 4)) gosection(S(r.below(i + 1))); }
			at += 4 * cap; gosection(back); break;
		case 4: { // macros
			for (int i = 0; i < cap; i++) { L1(S(i), "macro"); depth++; L1("", "fcb", to_string(i & 255) + (ch(1, 4) ? ",\\1" : "")); depth--; L1("", "endm"); }
			for (int i = 0; i < 4; i++) L1("", S(r.below(cap)), "5");
			at += 40; break; }
		case 5: // local labels
			for (int i = 0; i < cap; i++) { L1("1", ch(1, 2) ? "nop" : "fcb 1"); if (ch(1, 3)) L1(ch(1, 2) ? "2" : "", "fdb", "1b"); }
			L1("", "fdb", "1b"); L1("", "fdb", "1f"); L1("1", "rmb", "1");
			at += 4 * cap + 6; break;
		case 6: // files
			for (int i = 0; i < cap && i < 40; i++) { string fn = f.prefix + "b" + to_string(name_no++) + ".s"; p.files[fn] = "\tfcb " + to_string(i) + "\n"; p.incs.push_back(fn); L1("", "include", "\"" + fn + "\""); }
			at += cap; break;
		case 7: { // long names
			string a = n + string(N * (ch(1, 4) ? 8 : 1), 'y'), b = a + "z";
			L1(a, "equ", "300"); L1(b, "fcb", "1"); L1("", "fdb", a + "," + b); if (ch(1, 2)) labels.push_back(b), ldef.push_back(b);
			at += 6; break; }
		case 8: { // pieces that do not follow on one another
			int base = at, st = 1 + r.below(3), q = 1 + 2 * r.below(50);
			for (int i = 0; i < cap; i++) { L1("", "org", to_string(base + ((i * q) % cap) * 3)); if (cap % 2 == 0 || cap % q || q == 1) { } L1("", "fcb", to_string(i & 255) + (st > 1 ? ",1" : "")); if (q > 1 && cap % q == 0 && i * q >= cap) break; }
			at = base + 3 * cap + 8; L1("", "org", to_string(at)); break; }
		case 9: { // arguments
			string a, b; for (int i = 0; i < cap; i++) { a += (i ? "," : "") + to_string(i & 255); }
			L1(S(0), "macro"); depth++; for (int i = 0; i < 4; i++) { int w = 1 + r.below(cap); L1("", "fcb", "\\{" + to_string(w) + "}"); } depth--; L1("", "endm");
			L1("", S(0), a); at += 4; break; }
		case 10: { string a; for (int i = 0; i < N; i++) a += (i ? "," : "") + to_string(i & 255); L1(S(0), ch(3, 4) ? "fcb" : "fdb", a); at += 2 * N; break; }
		case 11: { N = std::min(N, 520); string a(N, '('), b(N, ')'); L1("", "fdb", a + "1+2" + b); if (ch(1, 2)) { string o; for (int i = 0; i < cap; i++) o += ch(1, 2) ? "!" : "~"; L1("", "fdb", o + "(5)"); } at += 4; break; }
		case 12: { // macros calling macros
			int d = std::min(cap, 60);
			for (int i = 0; i < d; i++) { L1(S(i), "macro"); depth++; if (ch(1, 3)) L1("", "fcb", "\\1"); if (i + 1 < d) L1("", S(i + 1), ch(1, 2) ? "\\1" : "\\1+1"); else L1("", "fcb", "\\1"); depth--; L1("", "endm"); }
			L1("", S(0), "3"); at += 2 * d; break; }
		case 13: { // up to the top of memory
			int m = 1 + r.below(ch(1, 2) ? 4 : 300); L1("", "org", num(0x10000 - m));
			if (ch(1, 2)) { string a; for (int i = 0; i < m; i++) a += (i ? "," : "") + to_string((i * 3) & 255); L1(S(0), "fcb", a); } else { for (int i = 0; i < m; i++) L1("", "fcb", to_string(i & 255)); }
			if (ch(1, 2)) { L1(S(1), "equ", "*"); L1("", "org", num(at)); L1("", "fqb", S(1)); } else L1("", "org", num(at));
			at += 4; break; }
		case 14: { string t; for (int i = 0; i < N; i++) t += (char)('a' + i % 26); L1("", ch(1, 2) ? "fcc" : "fcn", "\"" + t + "\""); at += N + 1; break; }
		case 15: { string a; for (int i = 0; i < N; i++) a += (i ? ch(1, 2) ? "+" : " + " : "") + string("1"); L1("", "fdb", a + "," + a); at += 4; break; }
		case 16: for (int i = 0; i < cap; i++) { L1(S(0), "set", i && ch(2, 3) ? S(0) + "+1" : to_string(i)); if (ch(1, 5)) L1("", "fcb", S(0)); } L1("", "fdb", S(0)); at += cap + 2; break;
		case 17: { string fn = f.prefix + "bulk" + to_string(name_no++) + ".bin", d; static const int z[] = {1, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 8192}; int m = z[r.below(15)]; if (at + 2 * m > 0xf000) m = 100; for (int i = 0; i < m; i++) d += (char)r.below(256); p.files[fn] = d; p.bins.push_back(fn); for (int i = 0; i < 1 + (int)r.below(2); i++) { L1("", "includebin", "\"" + fn + "\""); at += m; } if (ch(1, 2)) L1("", "fcb", "1"), at++; break; }
		case 18: { // a chain of definitions, forwards
			int d = f.fwd ? std::min(cap, 9) : 1;
			L1("", "fdb", S(0)); for (int i = 0; i < d; i++) L1(S(i), "equ", i + 1 < d ? S(i + 1) + "+1" : "7"); at += 2; break; }
		case 19: { string a = string(N * (f.wide ? 9 : 1), ' '); raw(a + "fcb" + a + "1," + (ch(1, 2) ? a : "") + "2" + a); at += 2; break; }
		case 20: if (ch(1, 10)) N = 65500 + r.below(200); for (int i = 0; i < N; i++) raw(ch(1, 2) ? "" : ch(1, 2) ? " " : "; c"); break;
		case 21: { // pieces around the size an allocation grows by
			static const int z[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 384, 512, 640}; int m = z[r.below(12)];
			for (int i = 0; i < m;) { int w = std::min<int>(m - i, 1 + r.below(3)); static const char *o[] = {"1", "1,2", "1,2,3"}; L1("", "fcb", o[w - 1]); i += w; }
			L1("", "fdb", "*"); if (ch(1, 2)) { L1("", "rmb", "3"); L1("", "fcb", "9"); } at += m + 8; break; }
		case 22: { string a; int d = std::min(cap, 100); for (int i = 0; i < d; i++) { L1(S(i), "equ", to_string(i)); a += (i ? "," : "") + S(i); } if (f.exps) L1("", "export", a); break; }
		case 24: { // an expression of many operators, up to as many as can be
			int m = ch(1, 8) ? 4090 + r.below(7) : ch(1, 4) ? 4 * N : N; if (m > 4096) m = 4096; string a = "1"; bool deep = m < 300 && ch(1, 2);
			if (deep) { m = std::min(m, 90); a = string(m, '(') + "1"; for (int i = 0; i < m; i++) a += (i % 2 ? "+1)" : "*1)"); }
			else for (int i = 0; i < m; i++) a += i % 3 == 2 ? "-1" : "+1";
			L1("", "fdb", a); L1(S(0), "equ", a); L1("", "fdb", S(0)); at += 4; break; }
		case 25: { // lines that only some passes see: what they define stays
			int nb = 0;
			auto some = [&](int b) {
				for (int c = 1 + r.below(3); c; c--) switch (r.below(13)) {
				case 0: L1("", "fcb", "1,2"); at += 2; break;
				case 12: { string x = S(50 + b * 10 + nb++); L1("", "if", x + (ch(1, 2) ? "" : "==0")); L1("", "nop"); if (ch(1, 2)) { L1("", "else"); L1("", "fcb", "9,9"); } L1("", "endif"); static const char *xv[] = {"0", "1", "0", "1", "256", "-65536"}; L1(x, "equ", xv[r.below(6)]); at += 2; break; }
				case 10: if (f.incl) { string fn = f.prefix + "l" + to_string(name_no++) + ".s"; p.files[fn] = "\tfcb 4,5\n"; p.incs.push_back(fn); L1("", "include", "\"" + fn + "\""); at += 2; } break;
				case 11: if (f.bins) { string fn = f.prefix + "l" + to_string(name_no++) + ".bin"; p.files[fn] = gen::junk(r, 5); p.bins.push_back(fn); L1("", "includebin", "\"" + fn + "\""); at += 5; } break;
				case 1: L1("", "nop"); at++; break;
				case 2: L1(S(20 + b * 10 + nb++), "equ", "*"); break;
				case 3: L1(S(20 + b * 10 + nb++), ch(1, 4) ? "set" : "equ", to_string(r.below(300))); break;
				case 4: L1("", "rmb", to_string(1 + r.below(4))); at += 4; break;
				case 5: if (f.locals) { L1(to_string(60 + b), "nop"); L1("", "bra", to_string(60 + b) + "b"); at += 3; } break;
				case 6: if (f.sects) { L1("", "section", "\"" + n + "o" + to_string(b) + "\""); L1("", "org", "60000"); L1("", "fcb", "7,8,9"); L1("", "section", "\"" + back + "\""); } break;
				case 7: if (f.exps) L1("", "export", S(9)); break;
				case 8: L1("", "if", "1"); L1("", "fcb", "3"); L1("", "endif"); at++; break;
				default: L1("", "fdb", S(9)); at += 2; break;
				}
			};
			if (ch(1, 4)) L1("", "fdb", S(0)); L1("", "if", S(9) + "==0"); some(0); L1(S(0), ch(1, 4) ? "set" : "equ", "5");
			if (ch(1, 2)) { L1("", "else"); some(1); L1(S(1), "equ", "6"); L1("", "endif"); if (ch(2, 3)) L1("", "fcb", S(1)); } else L1("", "endif");
			if (ch(2, 3)) L1("", "fdb", S(0));
			if (f.exps && ch(1, 4)) L1("", "export", S(0));
			L1("", "nop"); int c = ch(1, 2) ? 0 : 1 + r.below(4);
			for (int i = 0; i < c; i++) L1(i ? S(90 + i) : S(9), "equ", S(91 + i));
			static const char *av[] = {"1", "1", "1", "256", "$8000", "65536", "-256", "512", "$100000000"};
			L1(c ? S(90 + c) : S(9), "equ", av[r.below(9)]); at += 9; break; }
		case 26: { // macros in place of operations, some without a line in them
			static const char *t[] = {"sex", "daa", "abx", "mul", "fcn", "rzb", "swi2"}; string o = t[r.below(7)]; if (ch(1, 4)) o[0] = toupper(o[0]);
			L1(o, "macro"); depth++; if (ch(1, 2)) L1("", "fcb", "1,2"); if (ch(1, 4)) raw("; in " + o); depth--; L1("", "endm");
			L1("", o); if (ch(1, 2)) L1(S(0), o); if (ch(1, 2)) L1("", ch(1, 2) ? model::lower(o) : o); L1("", "fdb", "*"); at += 10;
			if (f.exps) { if (ch(1, 2)) L1("", "export", o); L1(S(1), "macro"); L1("", "endm"); L1("", "export", S(1)); if (ch(1, 2)) L1("", S(1)); }
			break; }
		case 27: { // macros defined by macros
			int d = 2 + r.below(5); if (ch(1, 8)) d = 20;
			auto body = [&] { if (ch(1, 2)) L1("", "fcb", to_string(r.below(200))); };
			for (int i = 0; i < d; i++) { L1(S(i), "macro"); depth++; body(); }
			for (int i = 0; i < d; i++) { depth--; L1("", "endm"); if (depth > 0) body(); }
			int m = ch(2, 3) ? d : 1 + r.below(d); for (int i = 0; i < m; i++) L1("", S(i));
			if (m == d && ch(1, 2)) L1("", S(m - 1)); if (f.exps && ch(1, 2)) L1("", "export", S(r.below(m)));
			at += 3 * d; break; }
		case 28: { // bytes side by side in memory although their addresses are not
			int a = at + 16, c = 1 + r.below(4), next = a; L1("", "org", to_string(a));
			for (int i = 0; i < c; i++) {
				int w = 1 + r.below(ch(1, 4) ? 300 : 5); if (i) { L1("", "org", to_string(ch(1, 3) ? 0x10000 - w + (ch(1, 6) ? 1 + (int)r.below(3) : 0) : ch(1, 2) ? 0xff00 + r.below(200) : r.below(0x8000))); L1("", "put", to_string(next)); }
				if (w < 6 && ch(1, 2)) for (int q = 0; q < w; q++) L1("", q == 0 && ch(1, 2) ? "fcb *&255" : "nop"); else L1("", "fill", to_string(r.below(256)) + "," + to_string(w));
				next += w;
			}
			L1("", "org", to_string(next)); at = next; break; }
		case 30: { // so many values used before they are known
			int M = ch(1, 6) ? 1500 + r.below(4000) : N; if (at + M > 0xf000) M = 200;
			bool ch1 = ch(1, 2);
			for (int i = 0; i < M; i++) L1("", "fcb", S(i) + "&255");
			if (ch1) L1(S(M), "equ", S(M + 1)); // and something that comes to light last of all
			for (int i = 0; i < M; i++) L1(S(i), "equ", ch1 && i == M - 1 ? S(M) : to_string(i * 3));
			if (ch1) L1(S(M + 1), "equ", "77");
			at += M; break; }
		case 29: { // conditions that come to light one after the other, none moving anything
			int d = 1 + r.below(4); static const char *o[] = {"nop", "sex", "daa", "abx"}, *v[] = {"1", "2", "256", "512", "$8000", "65536", "-1", "-256", "$100000000", "1.5", "0.5"};
			bool cmp[6], neg[6]; for (int i = 0; i <= d; i++) cmp[i] = ch(1, 2), neg[i] = ch(1, 4);
			for (int i = 0; i <= d; i++) { bool e = cmp[i]; L1("", "if", e ? S(i) + "==0" : S(i)); depth++; if (e) { L1("", o[i % 4]); L1("", "else"); } }
			L1("", o[r.below(4)]);
			for (int i = d; i >= 0; i--) { if (i < d) L1(S(i + 1), ch(1, 5) ? "set" : "equ", neg[i] ? "0" : v[r.below(11)]); if (!cmp[i]) { L1("", "else"); L1("", o[(i + 1) % 4]); } depth--; L1("", "endif"); }
			L1(S(0), "equ", v[r.below(11)]); at++; break; }
		default: { // FILL and RMB of many
			int m = std::min(N, 600); L1(S(0), "fill", "165," + to_string(m)); L1(S(1), "rmb", to_string(m)); L1("", "fdb", S(1) + "-" + S(0) + ",*"); at += 2 * m + 4; break; }
		}
	}
	void regsyms() {
		string n = name(); static const char *rg[] = {"x", "y", "u", "s", "x", "a"};
		int k = r.below(6); string g = mcase(rg[k]);
		bool after = f.fwd && ch(1, 3);
		if (!after) line(n, "equ", g);
		if (k == 5) line("", "lda", n + ",x");
		else switch (r.below(4)) { case 0: line("", "lda", "," + n); break; case 1: line("", "ldd", num(r.below(300)) + "," + n); break; case 2: line("", "tfr", "d," + n); break; default: line("", "leax", "b," + n); }
		if (k == 5) { } else if (ch(1, 2)) line("", "ldx", "[5," + n + "]");
		if (after) line(n, "equ", g);
		strs.push_back(n); at += 12;
	}
	void expline() {
		vector<string> all = labels; all.insert(all.end(), consts.begin(), consts.end());
		for (auto &m : macros) all.push_back(m.name);
		for (auto &s : strs) all.push_back(s);
		for (auto &s : flts) all.push_back(s);
		if (all.empty()) return;
		string a; int n = 1 + r.below(3);
		for (int i = 0; i < n; i++) a += (i ? "," : "") + (!macros.empty() && ch(1, 3) ? r.pick(macros).name : r.pick(all));
		line("", "export", a);
	}
	Proj run() {
		if (f.isa3) p.opts.push_back(ch(1, 2) ? "-3" : "--6309");
		else if (ch(1, 8)) p.opts.push_back(ch(1, 2) ? "-9" : "--6809");
		static const char *fm = "BDCSH";
		p.fmt = fm[r.below(5)];
		sections = {"CODE"};
		int nl = r.below(3 + f.lines / 5), nc = r.below(2 + f.lines / 8);
		for (int i = 0; i < nl; i++) labels.push_back(name());
		for (int i = 0; i < nc; i++) { string n = name(); consts.push_back(n); crank[n] = i; }
		tolabel = labels; toconst = consts;
		if (f.defs) { int n = 1 + r.below(2); for (int i = 0; i < n; i++) { string d = f.prefix + "DEF" + to_string(i); defs.push_back(d); p.opts.push_back("-d"); static const char *dv[] = {"", "=0", "=1", "=$20", "=0x1f", "=%101", "=300", "=@17"}; p.opts.push_back(d + dv[r.below(8)]); } }
		if (f.org >= 0) { at = f.org; line("", "org", num(at)); }
		else if (ch(4, 5)) { static const int o[] = {0, 1, 0x100, 0x400, 0x1000, 0x3ffe, 0x7fff, 0x8000, 0xc000}; at = o[r.below(9)]; line("", "org", num(at)); }
		if (f.strs && f.macros + f.exps + f.strs > 1) { int n = r.below(3); for (int i = 0; i < n; i++) { string s = name(); line(s, "equ", strlit()); strs.push_back(s); } }
		if (f.floats) { int n = r.below(3); for (int i = 0; i < n; i++) { string s = name(); static const char *fv[] = {"1.5", "7/3", "0.1", "100/8", "22/7*2", "3.25", "-(2.75)", "1/1024", "123456.789"}; line(s, "equ", fv[r.below(9)]); flts.push_back(s);
			while (ch(1, 3)) { // rounded where an integer is called for, and only there
				static const char *u[][2] = {{"fcb", "~#&255"}, {"fcb", "!#"}, {"fcb", "#?1:2"}, {"fdb", "(#|1)&255"}, {"fdb", "#&&1,#||0"}, {"fcb", "(#^5)&127"}, {"fdb", "(#<<2)&$fff"}, {"fdb", "#>1,#==1.5"}, {"fcb", "(-#)<0"}, {"fqb", "#*1000"}, {"fqb", "#"}, {"fdb", "(# % 3)"}};
				int k = r.below(12); string a = u[k][1]; size_t q; while ((q = a.find('#')) != string::npos) a.replace(q, 1, s); line("", u[k][0], a); at += 4;
				if (ch(1, 4)) { line("", "rmb", s + "&7"); at += 8; }
				if (ch(1, 4)) { line("", "if", s); line("", "nop"); line("", "endif"); at++; }
			} } }
		if (f.put && ch(1, 2)) line(newlabel(), "put", num(at + r.below(500)));
		int want = f.lines;
		while ((int)out.size() < want && at < 0xe000) one();
		while (!tolabel.empty()) { string n = tolabel.back(); tolabel.pop_back(); ldef.push_back(n); if (ch(1, 3)) data(n); else if (ch(1, 2)) line(n, "rmb", num(1 + r.below(4))); else instr(n); at += 4; }
		while (!toconst.empty()) defconst(toconst[r.below(toconst.size())]);
		if (f.exps && ch(2, 3)) expline();
		if (sect != "CODE" && ch(1, 2)) gosection("CODE");
		if (f.exec) { static const char *ev[] = {"4660", "0", "$0", "1", "0xffff", "65535", "$8000", "@17", "%101", "255", "256"}; string e = ch(1, 3) ? "$" + string("1a2b") : ch(1, 2) ? ev[r.below(11)] : ""; if (e.empty() && !labels.empty()) e = r.pick(labels); if (!e.empty()) { p.opts.push_back(ch(1, 2) ? "-e" : "--exec=" + e); if (p.opts.back() == "-e") p.opts.push_back(e); } }
		size_t endpos = 0;
		if (f.end) { endpos = out.size() + 1; string el = f.prefix.empty() && ch(1, 6) ? name() : ""; if (labels.empty() || ch(1, 3)) line(el, "end", ch(1, 2) ? "" : num(r.below(65536))); else line(el, "end", r.pick(labels)); if (f.afterend) { raw("whatever lda"); raw("\tnot an instruction"); } }
		split(endpos);
		return p;
	}
	// distribute the lines over files
	void split(size_t endpos) {
		auto join = [](const vector<L> &v, size_t a, size_t b) { string s; for (size_t i = a; i < b; i++) s += v[i].text + "\n"; return s; };
		vector<L> v = out;
		int names = r.below(5); if (names == 4 || !f.prefix.empty()) names = 0;
		bool sect_free = ch(1, 4);
		if (f.incl) {
			int n = 1 + r.below(3);
			for (int i = 0; i < n; i++) {
				size_t lim = endpos ? endpos - 1 : v.size();
				if (lim < 2) break;
				size_t a = r.below(lim), b = a + 1 + r.below(std::min<size_t>(lim - a, 12));
				if (b > lim) b = lim;
				auto open = [&](size_t k) { return k < v.size() && v[k].depth > 0; };
				auto flow = [&](size_t k) { string t = model::lower(v[k].text); return t.find("elsif") != string::npos || t.find("else") != string::npos || t.find("endif") != string::npos || t.find("endm") != string::npos; };
				while (a > 0 && (open(a) || flow(a))) a--;
				while (b < lim && (open(b) || flow(b))) b++;
				// whole section excursions only
				bool okk = true; string s0 = a ? v[a - 1].sect : "CODE"; if (b > a && v[b - 1].sect != s0) okk = false;
				if (sect_free && !okk) okk = true; // INCLUDE goes back to the section it started in
				if (!okk || b <= a) continue;
				string n2 = f.prefix + (names == 0 ? "inc" + to_string(i) + ".s" : names == 1 ? string(i == 0 ? "inc" : i == 1 ? "Inc" : "INC") + ".s" : names == 2 ? string("inc") + (i == 0 ? ".s" : i == 1 ? ".S" : "") : "d" + to_string(i) + "/inc.s");
				p.files[n2] = join(v, a, b); p.incs.push_back(n2);
				if (ch(1, 6)) { auto &t = p.files[n2]; if (!t.empty() && t.find('\n') != t.size() - 1) t.pop_back(); } // last line not terminated
				L inc{ws() + mcase(ch(1, 5) ? "lib" : "include") + ws() + "\"" + (ch(1, 12) ? "./" : "") + n2 + "\"", 0, s0};
				bool plain = true;
				for (size_t k = a; k < b; k++) { auto &t = v[k].text; if (!t.empty() && t[0] != ' ' && t[0] != '\t' && t[0] != ';' && t[0] != '*') plain = false; string tl = model::lower(t); if (tl.find("org") != string::npos || tl.find("setdp") != string::npos || tl.find("put") != string::npos || tl.find("include") != string::npos || tl.find("lib") != string::npos) plain = false; }
				v.erase(v.begin() + a, v.begin() + b); v.insert(v.begin() + a, inc);
				if (endpos) endpos -= b - a - 1;
				if (plain && ch(1, 3)) { v.insert(v.begin() + a, inc); if (endpos) endpos++; }
			}
		}
		size_t cut = v.size();
		if (f.multi && v.size() > 2) {
			size_t lim = endpos ? endpos - 1 : v.size();
			size_t k = r.below(lim + 1);
			auto bad = [&](size_t k) { if (k >= v.size()) return false; if (v[k].depth > 0) return true; string t = model::lower(v[k].text); return t.find("elsif") != string::npos || t.find("else") != string::npos || t.find("endif") != string::npos || t.find("endm") != string::npos; };
			while (k > 0 && bad(k)) k--;
			cut = k;
		}
		string m1 = f.prefix + "main.s";
		p.files[m1] = join(v, 0, cut); p.mains.push_back(m1);
		if (cut < v.size()) { string m2 = f.prefix + "part2.s"; p.files[m2] = join(v, cut, v.size()); p.mains.push_back(m2); }
		if (f.multi && ch(1, 12)) { // a file named more than once is assembled again
			string m3 = f.prefix + "rep.s"; static const char *t[] = {"\tfcb 5\n", "1\tnop\n\tbra 1b\n", "\tfcc /rep/\n; again\n"};
			p.files[m3] = t[r.below(3)]; for (int i = 1 + r.below(3); i; i--) p.mains.push_back(m3);
			if (ch(1, 3)) p.mains.insert(p.mains.begin() + 1, m3);
		}
		if (ch(1, 8)) { auto &t = p.files[p.mains.back()]; if (t.size() > 1 && t[t.size() - 2] != '\n') t.pop_back(); }
	}
};
} // namespace

Proj program(Rng &r, const Feat &f) {
	G g(r, f);
	Proj p = g.run();
	p.out = f.prefix + "out.img";
	return p;
}

void all_outputs(Rng &r, Proj &p, int keep) {
	string pre = p.mains[0].substr(0, p.mains[0].size() - 6);
	static const char *kind[] = {"img", "lst", "exp", "sym"};
	int style = r.chance(2, 3) ? 0 : 1 + r.below(9);
	auto nm = [&](int k) -> string {
		string e = kind[k];
		switch (style) {
		case 1: return pre + "o/out." + e;
		case 2: return pre + "o_" + e;               // no extension
		case 3: return pre + "out.a." + e;
		case 4: return pre + "out." + string(1, (char)toupper(e[0])) + e.substr(1);
		case 5: return pre + "out of it." + e;
		case 6: return "./" + pre + "out." + e;
		case 7: return pre + string(120, 'o') + "." + e;
		case 8: return pre + ".out" + e;
		case 9: return pre + "out." + e + (k == 0 ? "" : "~");
		}
		return pre + "out." + e;
	};
	p.out = r.below(4) < (unsigned)keep ? nm(0) : "";
	p.list = r.below(4) < (unsigned)keep ? nm(1) : "";
	p.exps = r.below(4) < (unsigned)keep ? nm(2) : "";
	p.syms = r.below(4) < (unsigned)keep ? nm(3) : "";
	if (p.outputs().empty()) p.out = nm(0);
	if (style == 1) p.files[pre + "o/.keep"] = "";
	if (r.chance(1, 8)) { static const char *w[] = {"-v", "-q", "--verbose", "--quiet"}; p.opts.push_back(w[r.below(4)]); }
}

const int error_kinds = 99;
string inject_error(Rng &r, Proj &p, int kind) {
	if (kind < 0) kind = r.below(error_kinds);
	vector<string> cand = p.mains; cand.insert(cand.end(), p.incs.begin(), p.incs.end());
	string fn = r.pick(cand);
	vector<string> ls = model::split_lines(p.files[fn]);
	// outside conditionals, macros and before END
	vector<size_t> pos; int d = 0; bool end = false;
	for (size_t i = 0; i <= ls.size(); i++) {
		if (d == 0 && !end) pos.push_back(i);
		if (i == ls.size()) break;
		string t = model::lower(ls[i]);
		size_t q = t.find_first_of(" \t"); if (q == string::npos) continue;
		q = t.find_first_not_of(" \t", q); if (q == string::npos) continue;
		string op = t.substr(q, t.find_first_of(" \t;", q) - q);
		if (t[0] == ';' || t[0] == '*' || op[0] == ';' || op[0] == '*') continue;
		if (op == "if" || op == "macro") d++;
		if (op == "endif" || op == "endm") d--;
		if (op == "end") end = true;
	}
	size_t at = pos.empty() ? 0 : r.pick(pos);
	vector<string> ins; string what;
	string u = "Err" + to_string(r.below(1000));
	switch (kind) {
	case 0: what = "undefined symbol"; ins = {"\tldx #" + u}; break;
	case 1: what = "redefined symbol"; ins = {u + " equ 1", u + " equ 2"}; break;
	case 2: what = "syntax"; ins = {"= what"}; break;
	case 3: what = "unknown instruction"; ins = {"\tfrob #1"}; break;
	case 4: what = "branch out of range"; ins = {"\tbra *+1000"}; break;
	case 5: what = "too few arguments"; ins = {"\tfill 1"}; break;
	case 6: what = "ELSE without IF"; ins = {"\telse"}; break;
	case 7: what = "ENDM without MACRO"; ins = {"\tendm"}; break;
	case 8: what = "INCLUDE of a missing file"; ins = {"\tinclude \"nowhere.s\""}; break;
	case 9: what = "INCLUDEBIN of a missing file"; ins = {"\tincludebin \"nowhere.bin\""}; break;
	case 10: what = "endless macro"; ins = {u + " macro", "\t" + u, "\tendm", "\t" + u}; break;
	case 11: what = "unstable symbol"; ins = {u + " equ 1-" + u}; break;
	case 12: what = "fill too large"; ins = {"\tfill 1,70000"}; break;
	case 13: what = "beyond memory"; ins = {"\torg $fffe", "\trzb 10,1", "\torg $8000"}; break;
	case 14: what = "IF without ENDIF"; ins = {"\tif 1"}; break;
	case 15: what = "macro not ended"; ins = {u + " macro"}; break;
	case 16: what = "modulo by zero"; ins = {"\tfcb 5 % (1-1)"}; break;
	case 17: what = "inherent with operand"; ins = {"\tnop #1"}; break;
	case 18: what = "invalid addressing mode"; ins = {"\tleax #5"}; break;
	case 19: what = "bad register"; ins = {"\tpshs s"}; break;
	case 20: what = "missing local label"; ins = {"\tlbra 97f"}; break;
	case 21: what = "syntax at end"; ins = {") x"}; break;
	}
	if (kind == error_kinds - 1) { what = "too many operators"; string a = "\tfdb 1"; int m = 4097 + (r.chance(1, 3) ? 0 : r.below(3000)); for (int i = 0; i < m; i++) a += "+1"; ins = {a}; }
	else if (kind >= 22) {
		static const char *more[][2] = {
			{"repeated ELSE", "\tif 1\n\tnop\n\telse\n\telse\n\tendif"}, {"repeated ELSE", "\tif 0\n\tnop\n\telse\n\telse\n\tendif"}, {"ELSIF after ELSE", "\tif 1\n\telse\n\telsif 1\n\tendif"}, {"ELSIF after ELSE", "\tif 0\n\telse\n\telsif 0\n\tendif"}, {"AIM of one", "\taim #1"}, {"OIM of four", "\toim #1,2,x,3"}, {"BAND of two", "\tband a,1"}, {"BAND of five", "\tband a,1,2,<3,4"}, {"repeated ELSE, left out", "\tif 0\n\tif 1\n\telse\n\telse\n\tendif\n\tendif"}, {"ELSIF without IF", "\telsif 1"}, {"ELSIF of two", "\tif 0\n\telsif 1,1\n\tendif"},
			{"negative RZB", "\trzb 0-5"}, {"negative FILL", "\tfill 1,0-3"}, {"negative RMB", "\trmb 0-2"}, {"negative PUT", "\tput 0-1"},
			{"ALIGN 0", "\talign 0"}, {"bit number", "\tband a,8,1,<$20"}, {"bit number", "\tbeor b,1,8,<$20"}, {"TFM", "\ttfm x+,y"},
			{"TFM register", "\ttfm a+,b+"}, {"EXG", "\texg a"}, {"PSHU U", "\tpshu u"}, {"ORG", "\torg 1,2"},
			{"RMB", "\trmb 1,2"}, {"immediate", "\tldx #1,2"}, {"SETDP", "\tsetdp"}, {"SECTION", "\tsection"},
			{"EXPORT", "\texport"}, {"PUT", "\tput 1,2"}, {"END", "\tend 1,2"}, {"positional variable", "\tfcb \\1"},
			{"missing local label", "\tbra 98b"}, {"SECTION", "\tsection 5"}, {"INCLUDE", "\tinclude 5"}, {"INCLUDEBIN", "\tincludebin 5"},
			{"string for a count", "\trmb \"ab\""}, {"no operand", "\tlda"}, {"operands", "\tleax 1,x,y"}, {"index", "\tlda 5,dp"},
			{"PUT too large", "\tput 1<<33"}, {"ORG too large", "\torg 1<<33"}, {"negative address", "\torg 0-5\n\tfcb 1\n\torg $8000"}, {"far conditional branch", "\tbne *-200"},
			{"redefinition with the same value", "@ equ 1\n@ equ 1"}, {"label defined twice", "@\tnop\n@\tnop"}, {"label and value", "@ equ *\n@\tnop"}, {"undefined export", "\texport @"},
			{"ENDM with a number", "@ macro\n\tnop\n\tendm 5\n\tfcb 1"}, {"ENDM with two arguments", "@ macro\n\tendm 1,2\n\t@"},
			{"INCLUDE of two", "\tinclude \"nowhere.s\",1"}, {"INCLUDEBIN of two", "\tincludebin \"nowhere.bin\",\"b\""}, {"SETDP of two", "\tsetdp 1,2"}, {"SECTION of two", "\tsection \"q1\",\"q2\""}, {"ALIGN of three", "\talign 2,3,4"},
			{"FILL of three", "\tfill 1,2,3"}, {"RZB of three", "\trzb 1,2,3"}, {"EQU of two", "@ equ 1,2"}, {"SET of none", "@ set"}, {"EQU of none", "@ equ"}, {"SETDP of a string", "\tsetdp \"ab\""}, {"FILL of none", "\tfill"}, {"INCLUDE of none", "\tinclude"}, {"ELSE with an argument", "\tif 1\n\telse 5\n\tendif"}, {"ENDIF with an argument", "\tif 0\n\tendif 5"}, {"IF of two", "\tif 1,0\n\tnop\n\tendif"}, {"MACRO with an argument", "@ macro 5\n\tnop\n\tendm"}, {"RMB of none", "\trmb"}, {"ALIGN of none", "\talign"}, {"one for a pair", "\ttfr a"}, {"three for a pair", "\ttfr a,b,cc"}, {"EQU without a label", "\tequ 5"}, {"SET without a label", "\tset 5"}, {"MACRO without a name", "\tmacro\n\tendm"}, {"END of a register", "\tend x"}, {"data beyond the top", "\tput 4294967290\n\tfcb 1,2,3,4,5,6,7\n\tput $8000"}, {"room beyond the top", "\tput 4294967290\n\trmb 9\n\tput $8000"}};
		what = more[kind - 22][0]; static_assert(sizeof more / sizeof *more == 76, "error_kinds"); string t = more[kind - 22][1]; size_t q;
		while ((q = t.find('@')) != string::npos) t.replace(q, 1, u);
		while ((q = t.find('\n')) != string::npos) { ins.push_back(t.substr(0, q)); t = t.substr(q + 1); }
		ins.push_back(t);
	}
	// one that only a later pass can see
	static const int can[] = {0, 1, 3, 4, 5, 8, 9, 10, 12, 13, 16, 17, 18, 19, 20};
	bool ok_late = kind >= 22 && kind != 51; for (int c : can) if (c == kind) ok_late = true;
	if (ok_late && r.chance(1, 4)) {
		what += ", late";
		vector<string> w = {"\tif " + u + "lt"}; w.insert(w.end(), ins.begin(), ins.end()); w.push_back("\tendif");
		int n = r.below(4); string d = u + "lt";
		for (int i = 0; i < n; i++) { w.push_back(d + to_string(i) + " equ " + d + to_string(i + 1)); }
		w.push_back(d + to_string(n) + " equ 1"); w.push_back(d + " equ " + d + "0");
		ins = w;
	}
	ls.insert(ls.begin() + at, ins.begin(), ins.end());
	string t; for (auto &l : ls) t += l + "\n";
	p.files[fn] = t;
	return what;
}

} // namespace gen
