#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>

namespace model {
using std::string; using std::vector; using std::map; using std::set;

const Isa isa_table[] = {
#include "isa.inc"
};
const int isa_count = sizeof isa_table / sizeof *isa_table;

string lower(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

static const map<string, const Isa *> &isa_map() {
	static map<string, const Isa *> m;
	if (m.empty()) for (auto &e : isa_table) m[e.name] = &e;
	return m;
}

bool Val::same(const Val &o) const {
	if (t != o.t) return false;
	switch (t) {
	case Int: return i == o.i;
	case Float: return f == o.f;
	case Str: return s == o.s;
	case Reg: return s == o.s;
	case Arr: if (a.size() != o.a.size()) return false;
		for (size_t k = 0; k < a.size(); k++) if (!a[k].same(o.a[k])) return false;
		return true;
	default: return true;
	}
}
string Val::show() const {
	char b[64];
	switch (t) {
	case Undef: return "undefined";
	case Empty: return "empty";
	case Int: snprintf(b, sizeof b, "%lld", (long long)i); return b;
	case Float: snprintf(b, sizeof b, "%.17g", f); return b;
	case Reg: return "reg " + s;
	case Str: return "\"" + s + "\"";
	case Arr: return "[...]";
	}
	return "?";
}

enum { A_none, A_5, A_8, A_16, A_imm, A_inc, A_inc2, A_dec, A_dec2, A_pdec };

static const char *regs9[] = {"cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "pcr"};
static const char *regs3[] = {"e", "f", "w", "q", "v"};
bool is_register(const string &w0, bool i3) {
	string w = lower(w0);
	for (auto r : regs9) if (w == r) return true;
	if (i3) for (auto r : regs3) if (w == r) return true;
	return false;
}
static int tfr_size(const string &r) {
	static const map<string, int> m = {{"cc", 8}, {"a", 8}, {"b", 8}, {"dp", 8}, {"x", 16}, {"y", 16}, {"u", 16}, {"s", 16}, {"pc", 16}, {"d", 16}, {"e", 8}, {"f", 8}, {"w", 16}, {"q", 32}, {"v", 16}};
	auto it = m.find(r); return it == m.end() ? -1 : it->second;
}
static int tfr_nib(const string &r) {
	static const map<string, int> m = {{"cc", 10}, {"a", 8}, {"b", 9}, {"dp", 11}, {"x", 1}, {"y", 2}, {"u", 3}, {"s", 4}, {"pc", 5}, {"d", 0}, {"e", 14}, {"f", 15}, {"w", 6}, {"v", 7}};
	auto it = m.find(r); return it == m.end() ? -1 : it->second;
}
static int stack_bit(const string &r) {
	static const map<string, int> m = {{"cc", 1}, {"a", 2}, {"b", 4}, {"dp", 8}, {"x", 16}, {"y", 32}, {"u", 64}, {"s", 64}, {"pc", 128}, {"d", 6}};
	auto it = m.find(r); return it == m.end() ? 0 : it->second;
}

// ---- parse tree -----------------------------------------------------------

struct Part { bool interp; string s; int n; };
struct Ex {
	enum K { Lit, Id, Text, Pc, Back, Fwd, Op1, Op2, Op3, Deep, Arr, EmptyArg } k = Lit;
	Val v; vector<Part> parts; int64_t n = 0; string op; vector<Ex> a; int attr = 0;
	int depth = 0; // of nested operators
};
struct Line {
	bool has_label = false, has_op = false, has_args = false;
	bool local = false; int64_t lnum = 0;
	vector<Part> label, op;
	vector<Ex> args;
	string text;
	bool optional = false;    // stands for an empty file: listed or not
	bool syntax = false;      // certain syntax error when the file is read
};
struct File { vector<Line> lines; bool unknown = false; string why; bool ended = false; };

struct Unknown { string why; };

static bool isw0(char c) { return isalpha((unsigned char)c) || c == '_'; }
static bool isw(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }

struct Parser {
	const string &s; size_t p = 0; bool i3;
	Parser(const string &t, bool isa) : s(t), i3(isa) {}
	[[noreturn]] void unk(const string &w) { throw Unknown{w}; }
	char c(size_t k = 0) const { return p + k < s.size() ? s[p + k] : 0; }
	bool interp(Part &o, bool amp) {
		if ((c() == '\\' || (c() == '&' && amp)) && isdigit((unsigned char)c(1))) { o = {true, "", c(1) - '0'}; p += 2; return true; }
		if ((c() == '\\' || c() == '&') && c(1) == '{') {
			size_t q = p + 2; int n = 0; size_t d = 0;
			while (q < s.size() && isdigit((unsigned char)s[q])) { n = n * 10 + (s[q] - '0'); q++; if (++d > 4) unk("long interp"); }
			if (d && q < s.size() && s[q] == '}') { o = {true, "", n}; p = q + 1; return true; }
		}
		return false;
	}
	void ws() { while (c() == ' ' || c() == '\t') p++; }
	bool at_end() { size_t q = p; while (q < s.size() && (s[q] == ' ' || s[q] == '\t')) q++; return q >= s.size() || s[q] == ';'; }

	// identifier in label or opcode position
	void idparts(vector<Part> &out) {
		for (;;) {
			Part pt;
			if (interp(pt, true)) { out.push_back(pt); continue; }
			if (isw0(c())) {
				size_t q = p; while (q < s.size() && isw(s[q])) q++;
				string w = s.substr(p, q - p);
				if (is_register(w, i3)) unk("register name as identifier");
				out.push_back({false, w, 0}); p = q; continue;
			}
			break;
		}
	}
	Line line() {
		Line l; l.text = s;
		for (size_t i = 0; i < s.size(); i++) {
			unsigned char ch = s[i];
			if (!(ch >= 0x80 || ch < 9 || (ch > 9 && ch < 32) || ch == 127)) continue;
			if (ch == 0 || ch == 13) unk("odd character");
			// anything else may stand in a comment
			size_t q = s.find_first_not_of(" \t"), semi = s.find(';'), del = s.find_first_of("\"/'");
			if (q < i && (s[q] == ';' || s[q] == '*')) continue;
			if (semi < i && semi < del) continue;
			unk("odd character");
		}
		{ size_t q = s.find_first_not_of(" \t"); if (q == string::npos) return l; if (s[q] == ';' || s[q] == '*') return l; }
		if (c() == '=' || c() == ')' || c() == ']' || c() == ',') { l.syntax = true; return l; }
		if (c() != ' ' && c() != '\t') {
			if (isdigit((unsigned char)c())) {
				size_t q = p; while (q < s.size() && isdigit((unsigned char)s[q])) q++;
				if ((s[p] == '0' && q - p > 1) || q - p > 15) unk("label number");
				if (q < s.size() && s[q] != ' ' && s[q] != '\t' && s[q] != ';') unk("label");
				l.local = true; l.lnum = strtoll(s.c_str() + p, nullptr, 10); p = q;
			} else {
				idparts(l.label);
				if (l.label.empty()) unk("label");
			}
			l.has_label = true;
			if (at_end()) { ws(); return l; }
			if (c() == '*') unk("label*");
			if (c() != ' ' && c() != '\t') unk("after label");
		}
		{ size_t q = p; while (q < s.size() && (s[q] == ' ' || s[q] == '\t')) q++; if (q >= s.size()) return l; if (s[q] == ';' || s[q] == '*') { return l; } }
		ws();
		idparts(l.op);
		if (l.op.empty()) unk("opcode");
		l.has_op = true;
		if (at_end()) return l;
		if (c() != ' ' && c() != '\t') unk("after opcode");
		ws();
		l.has_args = true;
		args(l.args, false);
		ws();
		if (c() && c() != ';') unk("text after operand");
		return l;
	}
	void args(vector<Ex> &out, bool inner) {
		for (;;) {
			out.push_back(arg(inner));
			ws();
			if (c() == ',') { p++; continue; }
			break;
		}
	}
	bool reg(string &r) {
		if (!isw0(c())) return false;
		size_t q = p; while (q < s.size() && isw(s[q])) q++;
		string w = s.substr(p, q - p);
		if (!is_register(w, i3)) return false;
		r = lower(w); p = q; return true;
	}
	Ex regex_(const string &r, int attr) { Ex e; e.k = Ex::Lit; e.v.t = Val::Reg; e.v.s = r; e.attr = attr; return e; }
	Ex arg(bool inner) {
		ws();
		string r;
		char ch = c();
		if (ch == 0 || ch == ';' || ch == ',' || (ch == ']' && inner)) { Ex e; e.k = Ex::EmptyArg; return e; }
		if (ch == '[') {
			if (inner) unk("nested array");
			p++; Ex e; e.k = Ex::Arr; args(e.a, true); ws();
			if (c() != ']') unk("no ]"); p++; ws();
			if (c() && c() != ',' && c() != ';') unk("after ]");
			return e;
		}
		if (ch == '#') { p++; Ex e = expr(); e.attr = A_imm; return fin(e); }
		if (ch == '<' && c(1) == '<') { p += 2; Ex e = expr(); e.attr = A_5; return fin(e); }
		if (ch == '<' || ch == '>') {
			if (c(1) == '=' || c(1) == '>') unk("odd operand");
			p++; ws(); if (c() == 0 || c() == ',' || c() == ';' || c() == ']') unk("bare < or >");
			Ex e = expr(); e.attr = ch == '<' ? A_8 : A_16; return fin(e);
		}
		if (ch == '-') {
			size_t save = p;
			if (c(1) == '-') { p += 2; ws(); if (reg(r)) return fin(regex_(r, A_dec2)); unk("--"); }
			p++; ws();
			if (reg(r)) return fin(regex_(r, A_dec));
			p = save;
		}
		if (reg(r)) {
			if (c() == '+' && c(1) == '+') { p += 2; return fin(regex_(r, A_inc2)); }
			if (c() == '+') { p++; return fin(regex_(r, A_inc)); }
			if (c() == '-') { p++; return fin(regex_(r, A_pdec)); }
			return fin(regex_(r, A_none));
		}
		return fin(expr());
	}
	Ex fin(Ex e) { ws(); char ch = c(); if (ch && ch != ',' && ch != ';' && ch != ']') unk("after operand"); return e; }

	// operators may nest 4096 deep, an expression beyond that is an error when evaluated
	void deepen(Ex &e) {
		e.depth = 1; for (auto &x : e.a) e.depth = std::max(e.depth, x.depth + 1);
		if (e.depth > 4096) { e.k = Ex::Deep; e.a.clear(); }
	}
	// binary operators, loosest first
	Ex expr() { return tern(); }
	Ex tern() {
		Ex a = bin(0); ws();
		if (c() == '?') {
			p++; Ex b = tern(); ws(); if (c() != ':') unk("ternary"); p++; Ex d = tern();
			Ex e; e.k = Ex::Op3; e.op = "?"; e.a.reserve(3); e.a.push_back(std::move(a)); e.a.push_back(std::move(b)); e.a.push_back(std::move(d)); deepen(e); return e;
		}
		return a;
	}
	string peek_op(int lvl) {
		ws();
		string two = s.substr(std::min(p, s.size()), 2);
		static const vector<vector<string>> L = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"<", "<=", ">", ">="}, {"==", "!="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}};
		string tok;
		static const char *twos[] = {"||", "&&", "<=", ">=", "==", "!=", "<<", ">>", "++", "--"};
		for (auto t : twos) if (two == t) tok = t;
		if (tok.empty() && !two.empty()) tok = two.substr(0, 1);
		if (tok == "++" || tok == "--") unk("++ or -- in expression");
		if (tok == "&" && (c(1) == '{')) unk("interp after operand");
		if (tok == "\\") unk("interp after operand");
		if (tok == "%" && (c(1) == '0' || c(1) == '1')) unk("% followed by binary digit");
		for (auto &o : L[lvl]) if (o == tok) return tok;
		return "";
	}
	int nest = 0;
	Ex bin(int lvl) {
		struct Deeper { int &n; Deeper(int &x) : n(x) { n++; } ~Deeper() { n--; } } deeper(nest);
		if (nest > 5600) unk("nesting");
		if (lvl == 10) return unary();
		Ex a = bin(lvl + 1);
		for (;;) {
			string o = peek_op(lvl);
			if (o.empty()) return a;
			p += o.size();
			Ex b = bin(lvl + 1);
			Ex e; e.k = Ex::Op2; e.op = o; e.a.reserve(2); e.a.push_back(std::move(a)); e.a.push_back(std::move(b)); deepen(e); a = std::move(e);
		}
	}
	Ex unary() {
		ws();
		char ch = c();
		if (ch == '-' || ch == '+' || ch == '~' || ch == '!') {
			if ((ch == '-' && c(1) == '-') || (ch == '+' && c(1) == '+')) unk("-- or ++");
			if (ch == '!' && c(1) == '=') unk("!=");
			p++; struct Deeper { int &n; Deeper(int &x) : n(x) { n++; } ~Deeper() { n--; } } deeper(nest);
			if (nest > 5600) unk("nesting");
			Ex b = unary();
			Ex e; e.k = Ex::Op1; e.op = string(1, ch); e.a.push_back(std::move(b)); deepen(e); return e;
		}
		return prim();
	}
	Ex prim() {
		ws();
		Ex e;
		char ch = c();
		if (ch == '(') { p++; e = expr(); ws(); if (c() != ')') unk("no )"); p++; e.attr = 0; return e; }
		if (ch == '*') { p++; e.k = Ex::Pc; ws(); if (c() == '/') unk("* before /"); return e; }
		if (ch == '\'') {
			if (p + 1 >= s.size()) unk("'");
			e.v = Val::I((signed char)c(1)); p += 2; if (c() == '\'') p++; return e;
		}
		if (ch == '$' && isxdigit((unsigned char)c(1))) return num(1, 16);
		if (ch == '@' && c(1) >= '0' && c(1) <= '7') return num(1, 8);
		if (ch == '%' && (c(1) == '0' || c(1) == '1')) return num(1, 2);
		if (isdigit((unsigned char)ch) || (ch == '.' && isdigit((unsigned char)c(1)))) {
			if (ch == '0' && c(1) == 'x' && isxdigit((unsigned char)c(2))) return num(2, 16);
			if (ch == '0' && c(1) == 'b' && (c(2) == '0' || c(2) == '1')) return num(2, 2);
			size_t q = p; while (q < s.size() && isdigit((unsigned char)s[q])) q++;
			if (q < s.size() && s[q] == '.') {
				size_t r = q + 1; while (r < s.size() && isdigit((unsigned char)s[r])) r++;
				if (r < s.size() && isw(s[r])) unk("number");
				e.v = Val::F(strtod(s.substr(p, r - p).c_str(), nullptr)); p = r; return e;
			}
			if (q < s.size() && strchr("bBfF", s[q])) {
				if (q + 1 < s.size() && isw(s[q + 1])) unk("number");
				if (q - p > 15) unk("number");
				e.k = strchr("bB", s[q]) ? Ex::Back : Ex::Fwd;
				e.n = strtoll(s.c_str() + p, nullptr, 10); p = q + 1; return e;
			}
			if (q < s.size() && isw(s[q])) unk("number");
			if (ch == '0' && q - p > 1) unk("leading zero");
			if (q - p > 18) unk("big number");
			e.v = Val::I(strtoll(s.substr(p, q - p).c_str(), nullptr, 10)); p = q; return e;
		}
		if (ch == '"' || ch == '/') { text(e); return e; }
		if (isw0(ch) || ch == '\\' || ch == '&') {
			bool first = true, lastinterp = false;
			e.k = Ex::Id;
			for (;;) {
				Part pt;
				if (interp(pt, false)) { e.parts.push_back(pt); lastinterp = true; first = false; continue; }
				if ((first && isw0(c())) || (lastinterp && isw(c()))) {
					size_t q = p; while (q < s.size() && isw(s[q])) q++;
					string w = s.substr(p, q - p);
					if (first && is_register(w, i3)) unk("register in expression");
					e.parts.push_back({false, w, 0}); p = q; lastinterp = false; first = false; continue;
				}
				break;
			}
			if (e.parts.empty()) unk("identifier");
			return e;
		}
		unk("operand");
	}
	Ex num(int skip, int base) {
		size_t q = p + skip;
		auto ok = [&](char ch) { return base == 16 ? isxdigit((unsigned char)ch) != 0 : ch >= '0' && ch < '0' + base; };
		while (q < s.size() && ok(s[q])) q++;
		if (q < s.size() && isw(s[q])) unk("number");
		if (q - p > 15u + (base == 2 ? 40 : 0)) unk("big number");
		Ex e; e.v = Val::I(strtoll(s.substr(p + skip, q - p - skip).c_str(), nullptr, base)); p = q; return e;
	}
	void text(Ex &e) {
		char d = c(); p++;
		e.k = Ex::Text;
		string acc;
		auto flush = [&] { if (!acc.empty()) { e.parts.push_back({false, acc, 0}); acc.clear(); } };
		for (;;) {
			char ch = c();
			if (!ch) unk("unterminated string");
			if (ch == d) { p++; break; }
			Part pt;
			if ((ch == '&' || ch == '\\') && interp(pt, true)) { flush(); e.parts.push_back(pt); continue; }
			if (ch == '&') { acc += '&'; p += c(1) == '&' ? 2 : 1; continue; }
			if (ch == '\\') {
				if (!c(1)) unk("backslash at end");
				if (c(1) == 'n') acc += '\n'; else if (c(1) == 'r') acc += '\r'; else acc += c(1);
				p += 2; continue;
			}
			acc += ch; p++;
		}
		flush();
		if (e.parts.empty()) unk("empty string");
	}
};

vector<string> split_lines(const string &s) {
	vector<string> v; size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i);
		if (j == string::npos) { v.push_back(s.substr(i)); break; }
		size_t e = j;
		if (e > i && s[e - 1] == '\r') e--;
		v.push_back(s.substr(i, e - i)); i = j + 1;
	}
	return v;
}

static File parse_file(const string &text, bool i3) {
	File f;
	if (text.empty()) { Line l; l.optional = true; f.lines.push_back(l); }
	for (auto &t : split_lines(text)) {
		try {
			Parser p(t, i3);
			Line l = p.line();
			f.lines.push_back(l);
			if (l.op.size() == 1 && !l.op[0].interp && lower(l.op[0].s) == "end") { f.ended = true; break; }
			bool any = false; for (auto &x : l.op) any |= x.interp;
			if (any && l.op.size() > 0) { bool one = false; for (auto &x : l.op) one |= !x.interp; (void)one; }
		} catch (Unknown &u) { f.unknown = true; f.why = u.why + ": " + t; return f; }
	}
	return f;
}

// ---- options --------------------------------------------------------------

Opts parse_opts(const vector<string> &av) {
	Opts o;
	size_t i = 1;
	bool only = false;
	while (i < av.size()) {
		string a = av[i++];
		if (only || a.empty() || a[0] != '-' || a == "-") { o.files.push_back(a); continue; }
		if (a == "--") { only = true; continue; }
		string name, val; bool hasval = false;
		static const map<string, char> longs = {{"bin", 'B'}, {"dragondos", 'D'}, {"coco", 'C'}, {"srec", 'S'}, {"hex", 'H'}, {"exec", 'e'}, {"6809", '9'}, {"6309", '3'}, {"define", 'd'}, {"max-passes", 'P'}, {"output", 'o'}, {"listing", 'l'}, {"exports", 'E'}, {"symbols", 's'}, {"quiet", 'q'}, {"verbose", 'v'}};
		char ch;
		if (a[1] == '-') {
			size_t e = a.find('=');
			name = a.substr(2, e == string::npos ? string::npos : e - 2);
			if (e != string::npos) { val = a.substr(e + 1); hasval = true; }
			auto it = longs.find(name);
			if (it == longs.end()) { o.bad = true; return o; }
			ch = it->second;
			bool takes = strchr("edPolEs", ch) != nullptr;
			if (hasval && !takes) { o.bad = true; return o; }
		} else {
			ch = a[1];
			if (!strchr("BDCSHe893dPolEsqv", ch)) { o.bad = true; return o; }
			if (a.size() > 2) { if (!strchr("edPolEs", ch)) { o.bad = true; return o; } val = a.substr(2); hasval = true; }
		}
		if (strchr("edPolEs", ch) && !hasval) {
			if (i >= av.size()) { o.usage = true; return o; }
			val = av[i++];
		}
		switch (ch) {
		case 'B': case 'D': case 'C': case 'S': case 'H': o.fmt = ch; break;
		case 'e': o.exec = val; o.has_exec = true; break;
		case '8': case '9': o.isa6309 = false; break;
		case '3': o.isa6309 = true; break;
		case 'd': o.defs.push_back(val); break;
		case 'P': {
			char *end; long v = strtol(val.c_str(), &end, 0);
			if (*end) o.bad = true;
			if (v < 2 || v > 255) o.usage = true; else o.max_passes = v;
			break; }
		case 'o': o.out = val; o.has_out = true; break;
		case 'l': o.list = val; o.has_list = true; break;
		case 'E': o.exports = val; o.has_exp = true; break;
		case 's': o.symbols = val; o.has_sym = true; break;
		case 'q': o.verbosity = -1; break;
		case 'v': o.verbosity = 1; break;
		}
		if (o.usage) return o;
	}
	if (o.files.empty()) o.usage = true;
	return o;
}
static bool simple_int(const string &s, int64_t &v) {
	const char *p = s.c_str();
	if (p[0] == '$') v = strtol(p + 1, nullptr, 16);
	else if (p[0] == '@') v = strtol(p + 1, nullptr, 8);
	else if (p[0] == '%') v = strtol(p + 1, nullptr, 2);
	else if (p[0] == '0' && p[1] == 'x') v = strtol(p + 2, nullptr, 16);
	else if (p[0] == '0' && p[1] == 'b') v = strtol(p + 2, nullptr, 2);
	else if (p[0] >= '0' && p[0] <= '9') v = strtol(p, nullptr, 10);
	else return false;
	return true;
}

// ---- assembly -------------------------------------------------------------

struct Span { int64_t put, org; string data; };
struct Sym { Val v; int pass; };
struct Loc { Val v; int pass; };
struct Sect {
	int pass = -1; int64_t pc = 0, put = 0; int64_t last_pc = 0, last_put = 0; int64_t dp = -1; int line = 0;
	vector<Span> spans;
	map<int64_t, map<int, Loc>> locals;
};
struct Macro { int pass; vector<const Line *> lines; };

struct Asm {
	const sim::FS &fs; Opts o; Pred &P;
	map<string, File> parsed;
	map<string, Sym> syms; map<string, Sect> sects; map<string, Macro> macros; set<string> exports;
	Sect *cur = nullptr; string curname;
	int pass = 0; int depth = 0; bool too_deep = false;
	bool ignore_undef = false;
	set<string> assumed; // taken to be zero in this pass for want of a definition
	vector<Err> errs; bool inconsistent = false;
	vector<LLine> listing;
	struct Ctx { string file; int line; };
	vector<Ctx> ctx;
	vector<const vector<Val> *> interps;
	long work = 0;
	const BinSeq *seq = nullptr; map<string, size_t> binread; // readings so far

	Asm(const sim::FS &f, const Opts &op, Pred &p) : fs(f), o(op), P(p) {}
	[[noreturn]] void unk(const string &w) { throw Unknown{w}; }
	string macname;
	void err(int lvl, const string &what) {
		if (ctx.empty()) errs.push_back({lvl, "", 0, what});
		else errs.push_back({lvl, ctx.back().file, ctx.back().line, what});
		if (lvl == L_inconsistent) inconsistent = true;
	}

	// symbols
	void set_sym(const string &k, const Val &v, bool changeable) {
		auto it = syms.find(k);
		if (it != syms.end() && !changeable && it->second.pass == pass) { err(L_syntax, "redefined " + k); return; }
		if (it != syms.end() && !changeable && !it->second.v.same(v)) err(L_inconsistent, "unstable " + k);
		syms[k] = {v, pass};
	}
	Val get_sym(const string &k) {
		auto it = syms.find(k);
		if (it == syms.end() || it->second.v.t == Val::Undef) {
			if (ignore_undef) { assumed.insert(k); return Val::I(0); }
			err(L_inconsistent, "undefined " + k);
			return Val();
		}
		return it->second.v;
	}
	Val interp(int n) {
		if (interps.empty()) { err(L_syntax, "no positional variables"); return Val(); }
		auto *a = interps.back();
		if (!a || n < 1 || n > (int)a->size()) { err(L_syntax, "invalid positional variable"); return Val(); }
		return (*a)[n - 1];
	}
	bool paste(const vector<Part> &ps, string &out) {
		out.clear();
		for (auto &p : ps) {
			if (!p.interp) { out += p.s; continue; }
			Val v = interp(p.n);
			if (v.t == Val::Str) out += v.s;
			else if (v.t == Val::Int) out += std::to_string(v.i);
			else if (v.t == Val::Reg) { if (v.attr) return false; out += v.s; }
			else return false;
		}
		return true;
	}
	static Val str2int(const Val &v) {
		if (v.t != Val::Str) return v;
		uint32_t x = 0; for (char c : v.s) x = (x << 8) | (uint32_t)(int32_t)(signed char)c;
		Val r = Val::I(x); r.attr = v.attr; return r;
	}
	static bool to_int(const Val &v, int64_t &o) {
		if (v.t == Val::Int) { o = v.i; return true; }
		if (v.t == Val::Float) { o = f2i(v.f); return true; }
		return false;
	}
	static int64_t f2i(double f) {
		if (!(f > -9e18 && f < 9e18)) throw Unknown{"float out of range"};
		return (int64_t)f;
	}
	Val eval(const Ex &e) {
		Val r = eval0(e);
		if (r.t == Val::Undef) return r;
		if (e.k == Ex::Id) {
			if (e.attr != A_none) r.attr = e.attr;
			else if (!(r.attr == A_inc || r.attr == A_inc2 || r.attr == A_dec || r.attr == A_dec2 || r.attr == A_pdec)) r.attr = A_none;
		} else r.attr = e.attr;
		return r;
	}
	Val eval0(const Ex &e) {
		if (++work > 3000000) unk("too much work");
		switch (e.k) {
		case Ex::Lit: return e.v;
		case Ex::EmptyArg: { Val v; v.t = Val::Empty; return v; }
		case Ex::Pc: return Val::I(cur->pc);
		case Ex::Back: {
			auto it = cur->locals.find(e.n);
			if (it != cur->locals.end()) {
				auto j = it->second.upper_bound(cur->line);
				if (j != it->second.begin()) { --j; return j->second.v; }
			}
			err(L_inconsistent, "backref"); return Val(); }
		case Ex::Fwd: {
			auto it = cur->locals.find(e.n);
			if (it != cur->locals.end()) {
				auto j = it->second.upper_bound(cur->line);
				if (j != it->second.end()) return j->second.v;
			}
			err(L_inconsistent, "fwdref"); return Val(); }
		case Ex::Id: {
			if (e.parts.size() == 1 && e.parts[0].interp) return interp(e.parts[0].n);
			string k; if (!paste(e.parts, k)) return Val();
			return get_sym(k); }
		case Ex::Text: { string k; if (!paste(e.parts, k)) return Val(); return Val::S(k); }
		case Ex::Arr: { Val v; v.t = Val::Arr; for (auto &x : e.a) v.a.push_back(eval(x)); return v; }
		case Ex::Deep: err(L_syntax, "expression too complex"); return Val();
		case Ex::Op1: return op1(e);
		case Ex::Op2: return op2(e);
		case Ex::Op3: {
			Val c = eval(e.a[0]); if (c.t == Val::Undef) return c;
			int64_t v; if (!to_int(c, v)) return Val();
			return eval(v ? e.a[1] : e.a[2]); }
		}
		return Val();
	}
	Val op1(const Ex &e) {
		Val a = eval(e.a[0]); if (a.t == Val::Undef) return a;
		a = str2int(a);
		int64_t v;
		switch (e.op[0]) {
		case '-': if (a.t == Val::Int) return Val::I((int64_t)(0 - (uint64_t)a.i)); if (a.t == Val::Float) return Val::F(-a.f); return Val();
		case '+': if (a.t == Val::Int || a.t == Val::Float) return a; return Val();
		case '!': if (to_int(a, v)) return Val::I(!v); return Val::I(1);
		case '~': if (to_int(a, v)) return Val::I(~v); return Val();
		}
		return Val();
	}
	Val op2(const Ex &e) {
		Val a = eval(e.a[0]); if (a.t == Val::Undef) return Val();
		Val b = eval(e.a[1]); if (b.t == Val::Undef) return Val();
		const string &o = e.op;
		if (a.t == Val::Str && b.t != Val::Str) a = str2int(a);
		if (b.t == Val::Str && a.t != Val::Str) b = str2int(b);
		if (a.t == Val::Str) {
			int c = a.s < b.s ? -1 : a.s > b.s;
			if (o == "<") return Val::I(c < 0); if (o == "<=") return Val::I(c <= 0);
			if (o == ">") return Val::I(c > 0); if (o == ">=") return Val::I(c >= 0);
			if (o == "==") return Val::I(c == 0); if (o == "!=") return Val::I(c != 0);
			return Val();
		}
		static const set<string> ar = {"*", "/", "+", "-", "<", "<=", ">", ">=", "==", "!="};
		if (ar.count(o)) {
			bool ii = a.t == Val::Int && b.t == Val::Int;
			if (ii && o != "/") {
				uint64_t x = a.i, y = b.i;
				if (o == "*") return Val::I((int64_t)(x * y));
				if (o == "+") return Val::I((int64_t)(x + y));
				if (o == "-") return Val::I((int64_t)(x - y));
				if (o == "<") return Val::I(a.i < b.i); if (o == "<=") return Val::I(a.i <= b.i);
				if (o == ">") return Val::I(a.i > b.i); if (o == ">=") return Val::I(a.i >= b.i);
				if (o == "==") return Val::I(a.i == b.i);
				return Val::I(a.i != b.i);
			}
			double x, y;
			if (a.t == Val::Int) x = a.i; else if (a.t == Val::Float) x = a.f; else return Val();
			if (b.t == Val::Int) y = b.i; else if (b.t == Val::Float) y = b.f; else return Val();
			if (o == "*") return Val::F(x * y); if (o == "/") return Val::F(x / y);
			if (o == "+") return Val::F(x + y); if (o == "-") return Val::F(x - y);
			if (o == "<") return Val::I(x < y); if (o == "<=") return Val::I(x <= y);
			if (o == ">") return Val::I(x > y); if (o == ">=") return Val::I(x >= y);
			if (o == "==") return Val::I(x == y);
			return Val::I(x != y);
		}
		int64_t x, y;
		if (!to_int(a, x) || !to_int(b, y)) return Val();
		if (o == "%") {
			if (y == 0) { err(L_range, "modulo by zero"); return Val(); }
			if (y == -1) return Val::I(0);
			return Val::I(x % y);
		}
		if (o == "<<" || o == ">>") {
			if (y < 0 || y > 63) unk("shift count");
			if (o == "<<") return Val::I((int64_t)((uint64_t)x << y));
			return Val::I(x >> y);
		}
		if (o == "&") return Val::I(x & y); if (o == "^") return Val::I(x ^ y); if (o == "|") return Val::I(x | y);
		if (o == "&&") return Val::I(x && y); if (o == "||") return Val::I(x || y);
		return Val();
	}

	// sections
	void section(const string &n) {
		Sect *nx = &sects[n];
		if (nx->pass != pass) {
			nx->spans.clear();
			if (cur && cur->pass == pass) { nx->pc = cur->last_pc; nx->put = cur->last_put; }
			else { nx->pc = 0; nx->put = 0; }
			nx->pass = pass; nx->dp = -1; nx->line = 0;
		}
		cur = nx; curname = n;
	}
	void emit(const string &b) {
		work += b.size(); if (work > 3000000) unk("too much work");
		if (cur->spans.empty() || cur->put != cur->spans.back().put + (int64_t)cur->spans.back().data.size() ||
		    cur->pc != cur->spans.back().org + (int64_t)cur->spans.back().data.size())
			cur->spans.push_back({cur->put, cur->pc, ""});
		if (cur->pc < 0) err(L_range, "negative address");
		cur->spans.back().data += b;
		cur->put += b.size(); cur->pc += b.size();
		if (cur->pc > 0x10000 || cur->put > (int64_t)UINT32_MAX) err(L_range, "beyond memory");
		lastbytes += b;
	}
	string lastbytes;
	void e8(int64_t v) { emit(string(1, (char)v)); }
	void e16(int64_t v) { string b; b += (char)(v >> 8); b += (char)v; emit(b); }
	void e32(int64_t v) { string b; b += (char)(v >> 24); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; emit(b); }
	void pad(int n) { emit(string(n, '\0')); }
	void eop(int op) { if (op >> 8) e16(op); else e8(op); }
	void list(bool has, int64_t pc, const string &bytes, const Line &l) {
		LLine x; x.has = has; x.pc = pc & 0xffff; x.bytes = bytes; x.text = l.text; x.optional = l.optional;
		if (!ctx.empty()) { x.file = ctx.back().file; x.line = ctx.back().line; }
		listing.push_back(x);
	}
	void set_label(const Line &l, const Val &v, bool changeable) {
		if (!l.has_label) return;
		if (l.local) {
			auto &m = cur->locals[l.lnum];
			auto it = m.find(cur->line);
			if ((it == m.end() && pass > 0) || (it != m.end() && !it->second.v.same(v))) err(L_inconsistent, "local unstable");
			m[cur->line] = {v, pass};
			return;
		}
		string k; if (!paste(l.label, k)) unk("label paste");
		set_sym(k, v, changeable);
	}
	bool nargs(const vector<Val> &a, int lo, int hi) {
		int n = a.size();
		if (n < lo || (hi >= 0 && n > hi)) { err(L_syntax, "argument count"); return false; }
		return true;
	}
	int64_t geti(const vector<Val> &a, size_t i, int64_t def, bool req) {
		if (i >= a.size()) { if (req) err(L_syntax, "argument missing"); return def; }
		switch (a[i].t) {
		case Val::Undef: return def;
		case Val::Empty: return 0;
		case Val::Int: return a[i].i;
		case Val::Float: return f2i(a[i].f);
		default: err(L_syntax, "integer expected"); return def;
		}
	}

	const File &file(const string &name) {
		auto it = parsed.find(name);
		if (it != parsed.end()) return it->second;
		sim::InodeP ino;
		auto f = fs.names.find(sim::FS::norm(name));
		if (f == fs.names.end() || f->second->dir || f->second->noread) unk("file cannot be read: " + name);
		File x = parse_file(f->second->data, o.isa6309);
		if (x.unknown) unk(x.why);
		return parsed[name] = x;
	}
	void parse_errors(const string &name) {
		const File &f = file(name);
		for (size_t i = 0; i < f.lines.size(); i++) if (f.lines[i].syntax) errs.push_back({L_syntax, name, (int)i + 1, "syntax"});
	}

	void prog(const vector<const Line *> &lines, const string &name) {
		if (depth == 0) too_deep = false;
		if (depth >= 8) { err(L_fatal, "depth"); too_deep = true; return; }
		depth++;
		ctx.push_back({name, 0});
		enum { IFS, DONE, ELSES };
		vector<int> conds; int excl = -1; // index of the excluding cond
		int mdepth = 0; Macro *mac = nullptr;
		for (size_t li = 0; li < lines.size() && !too_deep; li++) {
			const Line &l = *lines[li];
			ctx.back().line = li + 1;
			cur->line++;
			if (++work > 3000000) unk("too much work");
			if (l.syntax) continue;
			if (!l.has_label && !l.has_op && !l.has_args) { list(false, 0, "", l); continue; }
			string op, lop;
			if (l.has_op) { if (!paste(l.op, op)) unk("opcode paste"); lop = lower(op); }
			if (excl < 0 && lop == "macro") {
				mdepth++;
				if (mdepth == 1) {
					list(false, 0, "", l);
					string nm;
					if (!l.has_label || l.local || !paste(l.label, nm)) { err(L_syntax, "macro name"); mac = nullptr; continue; }
					auto it = macros.find(nm);
					if (it != macros.end() && it->second.pass == pass) { err(L_syntax, "macro redefined"); mac = nullptr; continue; }
					macros[nm] = Macro{pass, {}};
					mac = &macros[nm]; macname = nm;
					continue;
				}
			}
			if (excl < 0 && lop == "endm") {
				if (mdepth == 0) { err(L_syntax, "ENDM without MACRO"); continue; }
				mdepth--;
				if (mdepth == 0) {
					mac = nullptr;
					vector<Val> a; for (auto &x : l.args) a.push_back(eval(x));
					if (a.size() > 1) err(L_syntax, "ENDM arguments");
					else if (a.size() == 1 && a[0].t != Val::Str) err(L_syntax, "ENDM argument");
					 list(false, 0, "", l); continue;
				}
			}
			if (mdepth > 0) { if (mac) mac->lines.push_back(&l); list(false, 0, "", l); continue; }
			if (lop == "opt" || lop == "sttl" || lop == "ttl") { list(false, 0, "", l); continue; }
			if (lop == "if") {
				list(false, 0, "", l);
				bool v = true;
				if (excl < 0) {
					vector<Val> a; ignore_undef = true; for (auto &x : l.args) a.push_back(eval(x)); ignore_undef = false;
					if (!nargs(a, 1, 1)) continue;
					v = geti(a, 0, 0, true) != 0;
				}
				if (excl < 0 && !v) { conds.push_back(IFS); excl = conds.size() - 1; }
				else conds.push_back(DONE);
				continue;
			}
			if (lop == "elsif") {
				list(false, 0, "", l);
				if (conds.empty()) err(L_syntax, "ELSIF without IF");
				else if (conds.back() == ELSES) err(L_syntax, "repeated ELSE");
				else if (excl < 0) excl = conds.size() - 1;
				else if (excl == (int)conds.size() - 1 && conds.back() != DONE) {
					vector<Val> a; ignore_undef = true; for (auto &x : l.args) a.push_back(eval(x)); ignore_undef = false;
					if (!nargs(a, 1, 1)) continue;
					if (geti(a, 0, 0, true)) { excl = -1; conds.back() = DONE; }
				}
				continue;
			}
			if (lop == "else") {
				list(false, 0, "", l);
				if (conds.empty()) err(L_syntax, "ELSE without IF");
				else if (conds.back() == ELSES) err(L_syntax, "repeated ELSE");
				else if (excl == (int)conds.size() - 1) { if (conds.back() != DONE) { conds.back() = ELSES; excl = -1; } }
				else if (excl < 0) { conds.back() = ELSES; excl = conds.size() - 1; }
				continue;
			}
			if (lop == "endif") {
				list(false, 0, "", l);
				if (conds.empty()) { err(L_syntax, "ENDIF without IF"); continue; }
				if (excl == (int)conds.size() - 1) excl = -1;
				conds.pop_back();
				continue;
			}
			if (excl >= 0) { list(false, 0, "", l); continue; }
			if (l.has_label && !l.local) { string k; if (!paste(l.label, k)) unk("label paste"); if (is_register(k, o.isa6309)) unk("register label"); }
			if (lop == "export") {
				vector<Val> dummy(l.args.size());
				if (nargs(dummy, 1, -1)) for (auto &x : l.args) {
					if (x.k != Ex::Id) { if (x.k == Ex::Text) { string k; if (paste(x.parts, k)) exports.insert(k); } continue; }
					string k; if (paste(x.parts, k)) exports.insert(k);
				}
				list(false, 0, "", l);
				continue;
			}
			if (pseudo_label(l, lop, op)) continue;
			if (l.has_label) set_label(l, Val::I(cur->pc), false);
			vector<Val> a; for (auto &x : l.args) a.push_back(eval(x));
			if (!l.has_op) { list(true, cur->pc, "", l); continue; }
			lastbytes.clear();
			int64_t old = cur->pc;
			if (pseudo_data(l, lop, a)) { list(true, old, lastbytes, l); continue; }
			if (lop == "put" || lop == "setdp" || lop == "include" || lop == "lib" || lop == "end" || lop == "page" || lop == "spc" || lop == "nam" || lop == "name") {
				list(true, cur->pc, "", l);
				if (lop == "put") {
					if (nargs(a, 1, 1)) { int64_t v = geti(a, 0, cur->put, true); if (v < 0) err(L_range, "PUT"); else if (v > (int64_t)UINT32_MAX) err(L_range, "PUT"); else { if (v > 0x20000) unk("big put"); cur->put = v; } }
				} else if (lop == "setdp") {
					if (nargs(a, 1, 1)) { int64_t v = geti(a, 0, -1, true); cur->dp = v >= 0 ? (v & 0xff) : -1; }
				} else if (lop == "include" || lop == "lib") {
					if (nargs(a, 1, -1)) {
						if (a[0].t != Val::Str) err(L_syntax, "INCLUDE argument");
						else {
							string fn = a[0].s;
							auto f = fs.names.find(sim::FS::norm(fn));
							Sect *os = cur; string on = curname;
							if (!parsed.count(fn)) {
								if (f == fs.names.end() || f->second->noread) { err(L_fatal, "file not found"); continue; }
								parse_errors(fn);
							}
							const File &fl = file(fn);
							vector<const Line *> ls; for (auto &x : fl.lines) ls.push_back(&x);
							prog(ls, fn);
							cur = os; curname = on;
						}
					}
				} else if (lop == "end") {
					if (nargs(a, 0, 1) && a.size() == 1 && a[0].t != Val::Undef) {
						Val v = str2int(a[0]); int64_t x;
						if (!to_int(v, x)) err(L_syntax, "END argument");
						else set_sym(".exec", Val::I(x), false);
					}
				}
				continue;
			}
			auto it = isa_map().find(lop);
			if (it != isa_map().end() && (!it->second->only6309 || o.isa6309)) {
				instr(l, *it->second, a);
				list(true, old, lastbytes, l);
				continue;
			}
			auto m = macros.find(op);
			if (m != macros.end()) {
				list(true, cur->pc, "", l);
				vector<const Line *> ls = m->second.lines;
				interps.push_back(l.has_args ? &a : nullptr);
				prog(ls, op);
				interps.pop_back();
				continue;
			}
			err(L_syntax, "unknown instruction");
		}
		// an open macro definition is what the assembler names as the place
		auto at_end = [&](const char *what) { if (mdepth > 0 && mac) errs.push_back({L_syntax, macname, (int)mac->lines.size(), what}); else err(L_syntax, what); };
		if (!conds.empty() && !too_deep) at_end("IF without ENDIF");
		if (mdepth > 0) at_end("unfinished macro");
		depth--;
		ctx.pop_back();
	}

	bool pseudo_label(const Line &l, const string &lop, const string &op) {
		static const set<string> ops = {"equ", "set", "org", "section", "code", "data", "bss", "ram", "auto"};
		if (!ops.count(lop)) return false;
		vector<Val> a; for (auto &x : l.args) a.push_back(eval(x));
		if (lop == "equ" || lop == "set") {
			if (!nargs(a, 1, 1)) return true;
			if (l.has_label) {
				Val v = a[0];
				set_label(l, v, lop == "set");
			}
			int64_t x; Val v = str2int(a[0]);
			if (to_int(v, x)) list(true, x, "", l); else list(false, 0, "", l);
		} else if (lop == "org") {
			if (!nargs(a, 1, 1)) return true;
			int64_t v = geti(a, 0, cur->pc, true);
			if (v > INT32_MAX || v < INT32_MIN) { err(L_range, "ORG"); return true; }
			if (v > 0x100000 || v < -0x100000) unk("far org");
			cur->pc = v; if (v >= 0) cur->put = v;
			set_label(l, Val::I(v), false);
			list(true, v, "", l);
		} else if (lop == "section") {
			if (!nargs(a, 1, 1)) return true;
			if (a[0].t == Val::Undef) return true;
			if (a[0].t != Val::Str) { err(L_syntax, "SECTION argument"); return true; }
			section(a[0].s);
			set_label(l, Val::I(cur->pc), false);
			list(true, cur->pc, "", l);
		} else {
			section(op);
			set_label(l, Val::I(cur->pc), false);
			list(true, cur->pc, "", l);
		}
		return true;
	}
	static int vdg(int c, bool inv) {
		int e = inv ? 0x40 : 0;
		if (c < 0x20) return c ^ e; if (c < 0x40) return (c + 64) ^ e; if (c < 0x60) return c ^ e;
		if (c == 0x60) return 0x20 ^ e; if (c < 0x80) return (c - 96) ^ e;
		return c;
	}
	bool pseudo_data(const Line &l, const string &lop, vector<Val> &a) {
		if (lop == "fcb" || lop == "fcc" || lop == "fcn" || lop == "fcv" || lop == "fci" || lop == "fcs") {
			if (!nargs(a, 1, -1)) return true;
			bool kw = lop == "fcs", tov = lop == "fcv" || lop == "fci", inv = lop == "fci";
			for (auto &v : a) switch (v.t) {
			case Val::Undef: pad(1); break;
			case Val::Empty: e8(0); break;
			case Val::Int: e8(v.i | (kw ? 0x80 : 0)); break;
			case Val::Float: { int64_t x = f2i(v.f); if (x > INT32_MAX || x < INT32_MIN) unk("float"); e8(x | (kw ? 0x80 : 0)); break; }
			case Val::Str: for (size_t i = 0; i < v.s.size(); i++) {
				int c = (unsigned char)v.s[i];
				if (kw && i + 1 == v.s.size()) c |= 0x80;
				if (tov) c = vdg(c, inv);
				e8(c);
				}
				break;
			default: err(L_syntax, "string or integer expected");
			}
			if (lop == "fcn") e8(0);
			return true;
		}
		if (lop == "fdb" || lop == "fqb") {
			if (!nargs(a, 1, -1)) return true;
			for (size_t i = 0; i < a.size(); i++) { int64_t v = geti(a, i, 0, false); if (lop == "fdb") e16(v); else e32(v); }
			return true;
		}
		if (lop == "rzb" || lop == "fzb" || lop == "zmb" || lop == "bsz" || lop == "fill") {
			bool fl = lop == "fill";
			if (!nargs(a, fl ? 2 : 1, 2)) return true;
			int64_t n, v;
			if (fl) { v = geti(a, 0, 0, true); n = geti(a, 1, 0, true); } else { n = geti(a, 0, 0, true); v = geti(a, 1, 0, false); }
			if (n < 0) { err(L_range, "negative count"); return true; }
			if (n > 0x10000) { err(L_range, "count too large"); return true; }
			string b(n, (char)v);
			// one at a time, as errors may be raised by each
			for (int64_t i = 0; i < n; i++) { size_t had = errs.size(); e8(v); if (errs.size() > had + 0 && errs.size() > 2000) unk("error flood"); }
			return true;
		}
		if (lop == "rmb") {
			if (!nargs(a, 1, 1)) return true;
			int64_t n = geti(a, 0, 0, true);
			if (n < 0) { err(L_range, "negative RMB"); return true; }
			if (n > INT32_MAX || n > INT32_MAX - (int64_t)cur->pc) { err(L_range, "RMB"); return true; }
			if (n > 0x20000) unk("big rmb");
			cur->pc += n; cur->put += n;
			if (cur->pc > 0x200000) unk("far");
			return true;
		}
		if (lop == "align") {
			if (!nargs(a, 1, 2)) return true;
			int64_t al = geti(a, 0, 0, true), v = geti(a, 1, 0, false);
			if (al < 1) { err(L_range, "ALIGN"); return true; }
			if (cur->pc < 0) unk("align at negative address");
			int64_t n = (al - (cur->pc % al)) % al;
			if (a.size() < 2) { if (n > INT32_MAX || n > INT32_MAX - (int64_t)cur->pc) { err(L_range, "ALIGN"); return true; } if (n > 0x20000) unk("big align"); cur->pc += n; cur->put += n; }
			else if (n > 0x10000) err(L_range, "ALIGN");
			else for (int64_t i = 0; i < n; i++) e8(v);
			return true;
		}
		if (lop == "includebin") {
			if (!nargs(a, 1, 1)) return true;
			if (a[0].t != Val::Str) { err(L_syntax, "INCLUDEBIN argument"); return true; }
			auto f = fs.names.find(sim::FS::norm(a[0].s));
			if (f == fs.names.end() || f->second->noread) { err(L_fatal, "file not found"); return true; }
			if (f->second->dir) { err(L_fatal, "is a directory"); return true; }
			const string *d = &f->second->data;
			if (seq) { auto q = seq->find(sim::FS::norm(a[0].s)); if (q != seq->end() && !q->second.empty()) d = &q->second[std::min<size_t>(binread[q->first]++, q->second.size() - 1)]; }
			for (char c : *d) e8(c);
			return true;
		}
		return false;
	}

	static int rel16(int64_t i) { return (int)((i + 32768) & 0xffff) - 32768; }
	void warn() { P.warned = true; }
	void instr(const Line &l, const Isa &op, vector<Val> &a) {
		for (auto &v : a) if (v.t == Val::Float) { int at = v.attr; v = Val::I(f2i(v.f)); v.attr = at; }
		int attr0 = l.args.empty() ? -1 : l.args[0].attr;
		bool mem = op.idx >= 0;
		if (op.kind == K_INH) { if (!a.empty()) err(L_syntax, "unexpected argument"); eop(op.imm); return; }
		if ((op.kind == K_IMM8 || op.kind == K_IMM16 || op.kind == K_IMM32) && attr0 == A_imm) {
			if (a.size() != 1) { err(L_syntax, "argument count"); return; }
			eop(op.imm);
			Val v = str2int(a[0]); int64_t x = 0; to_int(v, x);
			if (op.kind == K_IMM8) e8(x); else if (op.kind == K_IMM16) e16(x); else e32(x);
			return;
		}
		if (op.kind == K_IMM8MEM) {
			if (a.size() < 2 || a.size() > 3) { err(L_syntax, "argument count"); return; }
			int imm = a[0].t == Val::Int ? (int)(a[0].i & 0xff) : 0;
			if (a[0].t != Val::Int && a[0].t != Val::Undef) unk("imm8");
			vector<Val> r(a.begin() + 1, a.end());
			address(op, r, imm); return;
		}
		if (mem) { address(op, a, -1); return; }
		switch (op.kind) {
		case K_REL8: case K_REL16: {
			if (a.size() != 1) { err(L_syntax, "argument count"); return; }
			eop(op.imm);
			if (a[0].t != Val::Int) { if (a[0].t != Val::Undef) unk("branch target"); pad(op.kind == K_REL8 ? 1 : 2); return; }
			int r = rel16(a[0].i - (cur->pc + 1));
			bool far = r < -128 || r > 127;
			if (op.kind == K_REL8) { if (far) err(L_range, "branch out of range"); e8(r); }
			else { if (!far && a[0].attr != A_16) warn(); e16(r - 1); }
			return; }
		case K_STKU: case K_STKS: {
			int pb = 0;
			for (auto &v : a) {
				if (v.t != Val::Reg) { if (v.t == Val::Undef || v.t == Val::Empty) unk("stack"); err(L_syntax, "invalid argument"); return; }
				if (v.s == (op.kind == K_STKU ? "u" : "s") || !stack_bit(v.s)) { err(L_syntax, "invalid register"); return; }
				pb |= stack_bit(v.s);
			}
			eop(op.imm); e8(pb); return; }
		case K_PAIR: {
			if (a.size() != 2) { err(L_syntax, "argument count"); return; }
			int nb[2], sz[2];
			for (int i = 0; i < 2; i++) {
				sz[i] = 24;
				if (a[i].t == Val::Int) {
					int v = (int)a[i].i;
					if (v == 0 && o.isa6309) { nb[i] = 12; continue; }
					warn(); if (v < 0 || v > 15) err(L_range, "register number"); nb[i] = v & 15; continue;
				}
				if (a[i].t == Val::Undef) { nb[i] = 0; continue; }
				if (a[i].t != Val::Reg) unk("pair"); nb[i] = tfr_nib(a[i].s); sz[i] = tfr_size(a[i].s); if (nb[i] < 0) unk("pair"); }
			if (!(sz[0] & sz[1])) warn();
			eop(op.imm); e8(nb[0] << 4 | nb[1]); return; }
		case K_TFM: {
			if (a.size() != 2) { err(L_syntax, "argument count"); return; }
			int nb[2];
			for (int i = 0; i < 2; i++) {
				if (a[i].t == Val::Int) { int v = (int)a[i].i; warn(); if (v < 0 || v > 4) err(L_range, "register number"); nb[i] = v & 15; continue; }
				if (a[i].t == Val::Undef) { nb[i] = 0; continue; }
				if (a[i].t != Val::Reg) unk("tfm"); nb[i] = tfr_nib(a[i].s); if (nb[i] < 0 || nb[i] > 4) { err(L_syntax, "invalid register"); return; } }
			int mod;
			if (a[0].attr == A_inc && a[1].attr == A_inc) mod = 0;
			else if (a[0].attr == A_pdec && a[1].attr == A_pdec) mod = 1;
			else if (a[0].attr == A_inc && a[1].attr == A_none) mod = 2;
			else if (a[0].attr == A_none && a[1].attr == A_inc) mod = 3;
			else { err(L_syntax, "TFM mode"); return; }
			eop(op.imm + mod); e8(nb[0] << 4 | nb[1]); return; }
		case K_REGMEM: {
			if (a.size() != 4) { err(L_syntax, "argument count"); return; }
			if (a[0].t != Val::Reg) unk("regmem");
			int pb;
			if (a[0].s == "cc") pb = 0; else if (a[0].s == "a") pb = 0x40; else if (a[0].s == "b") pb = 0x80; else { err(L_syntax, "invalid register"); return; }
			for (int i = 1; i < 3; i++) if (a[i].t == Val::Int) { if (a[i].i < 0 || a[i].i > 7) err(L_range, "bad bit"); else pb |= a[i].i << (i == 1 ? 3 : 0); }
			eop(op.dir); e8(pb);
			if (a[3].t == Val::Int) e8(a[3].i); else pad(1);
			return; }
		}
		err(L_syntax, "invalid addressing mode");
	}
	void address(const Isa &op, vector<Val> &a, int imm) {
		if (a.empty() || a.size() > 2) { err(L_syntax, "argument count"); return; }
		if (a.size() == 2 || a[0].t == Val::Arr) { indexed(op, a, imm); return; }
		Val v = str2int(a[0]);
		if (v.t == Val::Reg || v.t == Val::Empty) unk("odd operand");
		int attr = A_16; int64_t addr = cur->pc & 0xffffffff;
		int64_t x;
		if (to_int(v, x)) { attr = v.attr; addr = x & 0xffff; }
		if (op.dir >= 0 && (attr == A_8 || (attr == A_none && cur->dp == (addr >> 8)))) {
			eop(op.dir); if (imm >= 0) e8(imm); e8(addr); return;
		}
		if (op.ext >= 0 && (attr == A_16 || attr == A_none)) { eop(op.ext); if (imm >= 0) e8(imm); e16(addr); return; }
		indexed(op, a, imm);
	}
	void indexed(const Isa &op, vector<Val> &a0, int imm) {
		vector<Val> a = a0; bool ind = false;
		if (a.size() == 1 && a[0].t == Val::Arr) { ind = true; vector<Val> t = a[0].a; a = t; }
		if (a.empty() || a.size() > 2) { err(L_syntax, "argument count"); return; }
		eop(op.idx);
		if (imm >= 0) e8(imm);
		a[0] = str2int(a[0]);
		if (a.size() == 1) {
			int64_t addr = 0;
			if (a[0].t == Val::Int) addr = a[0].i;
			else if (a[0].t != Val::Undef) { err(L_syntax, "invalid addressing mode"); return; }
			if (a[0].t != Val::Undef && a[0].attr != A_none && a[0].attr != A_16) { err(L_syntax, "invalid addressing mode"); return; }
			if (!ind) warn();
			e8(ind ? 0x9f : 0x8f); e16(addr); return;
		}
		if (a[0].t == Val::Undef || a[1].t == Val::Undef) { pad(1); return; }
		if (a[1].t != Val::Reg) { err(L_syntax, "invalid addressing mode"); return; }
		const string &r = a[1].s; int it = a[1].attr;
		int sel = 0; enum { XYUS, PCR, WREG } ty;
		if (r == "x") ty = XYUS; else if (r == "y") { ty = XYUS; sel = 0x20; } else if (r == "u") { ty = XYUS; sel = 0x40; } else if (r == "s") { ty = XYUS; sel = 0x60; }
		else if (r == "pc" || r == "pcr") ty = PCR; else if (r == "w") ty = WREG; else { err(L_syntax, "invalid addressing mode"); return; }
		bool pcr = r == "pcr";
		const Val &f = a[0];
		bool isint = f.t == Val::Int, isempty = f.t == Val::Empty;
		int64_t n = isint ? f.i : 0;
		int at = f.attr;
		enum { none, zero, o5, o8, o16, reg } ot = none; int pb = -1; bool illegal = false, w63 = false;
		auto allow = [&](int off) { // is this offset type acceptable
			if (at == A_5) return off == o5; if (at == A_8) return off == o8; if (at == A_16) return off == o16;
			if (at != A_none) return false;
			switch (off) {
			case none: return isempty;
			case zero: return isempty || (isint && n == 0);
			case o5: return isempty || (isint && n >= -16 && n <= 15);
			case o8: { if (isempty) return true; if (!isint) return false; int64_t v = pcr ? rel16(n - (cur->pc + 2)) : n; return v >= -128 && v <= 127; }
			case o16: return isint || isempty;
			}
			return false;
		};
		auto regoff = [&]() -> int {
			if (f.t != Val::Reg || at != A_none) return -1;
			if (f.s == "a") return 0x86; if (f.s == "b") return 0x85; if (f.s == "d") return 0x8b;
			if (f.s == "e") return 0x87; if (f.s == "f") return 0x8a; if (f.s == "w") return 0x8e;
			return -1;
		};
		if (ty == XYUS) {
			if (it == A_none) {
				if (allow(zero)) { ot = zero; pb = 0x84; }
				else if (!ind && allow(o5)) { ot = o5; pb = 0; }
				else if (allow(o8)) { ot = o8; pb = 0x88; }
				else if (allow(o16)) { ot = o16; pb = 0x89; }
				else if (regoff() >= 0) { ot = reg; pb = regoff(); }
			} else if (it == A_inc && (allow(none) || allow(zero))) { pb = 0x80; illegal = true; }
			else if (it == A_inc2 && (allow(none) || allow(zero))) pb = 0x81;
			else if (it == A_dec && allow(none)) { pb = 0x82; illegal = true; }
			else if (it == A_dec2 && allow(none)) pb = 0x83;
		} else if (ty == PCR) {
			if (it == A_none) { if (allow(o8)) { ot = o8; pb = 0x8c; } else if (allow(o16)) { ot = o16; pb = 0x8d; } }
		} else {
			w63 = true;
			if (it == A_none) { if (allow(none)) pb = 0x8f; else if (allow(o16)) { ot = o16; pb = 0xaf; } }
			else if (it == A_inc2 && allow(none)) pb = 0xcf;
			else if (it == A_dec2 && allow(none)) pb = 0xef;
		}
		if (pb < 0) { err(L_syntax, "invalid addressing mode"); return; }
		pb |= sel;
		int64_t off = 0;
		// a plain zero counts as no offset
		if (isint && !(at == A_none && n == 0)) { off = n; if (pcr) off -= cur->pc + (ot == o8 ? 2 : ot == o16 ? 3 : 0); }
		if (ot == o5) pb |= off & 0x1f;
		if (ind) { if (illegal) warn(); if (w63) pb++; else pb |= 0x10; }
		e8(pb);
		if (ot == o8) e8(off); else if (ot == o16) e16(off);
	}

	// everything that another pass could see
	uint64_t state() {
		uint64_t h = 77;
		for (auto &s : sects) {
			h = sim::hstr(h, s.first); h = sim::hmix(h, s.second.last_pc); h = sim::hmix(h, s.second.last_put);
			for (auto &m : s.second.locals) for (auto &x : m.second) { h = sim::hmix(h, m.first * 1000003 + x.first); h = hval(h, x.second.v); }
		}
		return h;
	}
	static uint64_t hval(uint64_t h, const Val &v) {
		uint64_t x; memcpy(&x, &v.f, 8);
		h = sim::hmix(h, v.t); h = sim::hmix(h, v.i); h = sim::hmix(h, x); h = sim::hstr(h, v.s);
		for (auto &e : v.a) h = hval(h, e);
		return h;
	}

	void run() {
		for (auto &f : o.files) {
			if (f.empty()) unk("empty name");
			auto it = fs.names.find(sim::FS::norm(f));
			if (it == fs.names.end() || it->second->noread) { errs.push_back({L_fatal, "", 0, "file not found"}); continue; }
			if (it->second->dir) { errs.push_back({L_fatal, f, 0, "directory"}); continue; }
			if (!parsed.count(f)) parse_errors(f);
		}
		if (!errs.empty()) { fail(); P.parse_phase = true; return; }
		{ set<string> seen; for (auto &d : o.defs) { string k = d.substr(0, d.find('=')); if (!seen.insert(k).second) { errs.push_back({L_syntax, "", 0, "redefined"}); fail(); P.parse_phase = true; return; } } }
		uint64_t prev = 0;
		map<string, uint64_t> prevsyms;
		for (pass = 0;; pass++) {
			errs.clear(); inconsistent = false; listing.clear(); P.warned = false;
			for (auto &d : o.defs) {
				size_t e = d.find('='); Val v;
				if (e == string::npos) v = Val::I(1); else { int64_t x; if (!simple_int(d.substr(e + 1), x)) unk("define"); v = Val::I(x); }
				syms[d.substr(0, e)] = {v, pass};
			}
			section("CODE");
			for (auto &f : o.files) {
				const File &fl = file(f);
				vector<const Line *> ls; for (auto &x : fl.lines) ls.push_back(&x);
				prog(ls, f);
			}
			for (auto &s : sects) {
				if (s.second.pass != pass) s.second.spans.clear();
				for (auto &m : s.second.locals) for (auto it = m.second.begin(); it != m.second.end();) { if (it->second.pass != pass) { it = m.second.erase(it); inconsistent = true; } else ++it; }
				s.second.last_pc = s.second.pc; s.second.last_put = s.second.put;
			}
			int top = 0; for (auto &e : errs) top = std::max(top, e.level);
			uint64_t st = state();
			// a name defined for the first time, and not missed by any reference before that, changes nothing already seen
			map<string, uint64_t> now; size_t old = 0;
			bool settled = pass > 0 && st == prev;
			for (auto &e : syms) {
				uint64_t v = now[e.first] = hval(1, e.second.v); auto it = prevsyms.find(e.first);
				if (it != prevsyms.end()) { old++; if (it->second != v) settled = false; }
				else if (top > 0 || (assumed.count(e.first) && !(e.second.v.t == Val::Int && e.second.v.i == 0))) settled = false;
			}
			assumed.clear();
			if (old != prevsyms.size()) settled = false;
			prev = st; prevsyms.swap(now);
			if (top >= L_syntax) { P.passes = pass + 1; fail(); return; }
			if (settled) {
				P.passes = pass + 1;
				if (top > 0) { fail(); return; }
				break;
			}
			if (pass + 1 >= o.max_passes + 6 || pass > 270) { P.passes = pass + 1; P.why = "does not settle"; errs.push_back({L_inconsistent, "", 0, "does not settle"}); fail(); return; }
		}
		finish();
	}
	void fail() { P.st = Pred::FAIL; P.errs = errs; for (auto &e : errs) P.level = std::max(P.level, e.level); if (P.why.empty() && !errs.empty()) for (auto &e : errs) if (e.level == P.level && P.why.empty()) P.why = e.what; }
	void finish() {
		P.st = Pred::OK;
		P.listing = listing; P.exports = exports;
		for (auto &e : macros) P.macros.insert(e.first);
		if (o.has_exec) {
			int64_t v;
			if (simple_int(o.exec, v)) syms[".exec"] = {Val::I(v), pass};
			else {
				auto it = syms.find(o.exec);
				if (it == syms.end()) { errs.push_back({L_fatal, "", 0, "exec undefined"}); fail(); return; }
				else { Val x = str2int(it->second.v); int64_t n; if (!to_int(x, n)) { errs.push_back({L_fatal, "", 0, "exec not integer"}); fail(); return; } syms[".exec"] = {Val::I(n & 0xffff), pass}; }
			}
		}
		auto ex = syms.find(".exec");
		if (ex != syms.end() && ex->second.v.i >= 0) P.exec = ex->second.v.i & 0xffff;
		for (auto &e : syms) P.syms[e.first] = e.second.v;
		if (o.has_out) {
			bool beyond = false;
			for (auto &s : sects) for (auto &sp : s.second.spans) for (size_t i = 0; i < sp.data.size(); i++) {
				int64_t ad = sp.put + i;
				if (ad < 0) unk("negative put");
				if (ad > 0xffff) beyond = true;
				if (!P.mem.emplace((uint32_t)ad, (uint8_t)sp.data[i]).second) P.overlap = true;
			}
			if (P.overlap) ofail(L_data, "overlap");
			if (o.fmt != 'B' && beyond) ofail(L_data, "beyond memory");
			if (!P.mem.empty() && P.mem.rbegin()->first > 0x40000) unk("far");
			if (o.fmt == 'D' && !P.mem.empty() && P.mem.rbegin()->first - P.mem.begin()->first + 1 > 0xffff) ofail(L_data, "too large");
			if (o.fmt == 'C') { // one contiguous run of 65536 bytes
				long run = 0; uint32_t last = 0xfffffff0;
				for (auto &m : P.mem) { run = m.first == last + 1 ? run + 1 : 1; last = m.first; if (run > 0xffff) ofail(L_data, "too large"); }
			}
		} else {
			for (auto &s : sects) for (auto &sp : s.second.spans) for (size_t i = 0; i < sp.data.size(); i++) P.mem[(uint32_t)(sp.put + i)] = sp.data[i];
		}
		if (o.has_exp) for (auto &e : exports) {
			if (macros.count(e)) continue;
			auto it = syms.find(e);
			if (it == syms.end() || it->second.v.t == Val::Undef) { P.errs.clear(); P.st = Pred::FAIL; P.output_phase = false; P.level = L_inconsistent; P.why = "export of undefined " + e; P.errs.push_back({L_inconsistent, "", 0, P.why}); return; }
			else badval(it->second.v);
		}
		if (o.has_sym) for (auto &e : syms) if (e.first[0] != '.') { if (e.second.v.t == Val::Undef) unk("undefined symbol value"); badval(e.second.v); }
	}
	void badval(const Val &v) {
		if (v.t == Val::Float && !std::isfinite(v.f)) ofail(L_syntax, "not finite");
		if (v.t == Val::Empty || v.t == Val::Arr) ofail(L_syntax, "cannot export type");
	}
	void ofail(int lvl, const string &w) {
		P.st = Pred::FAIL; P.output_phase = true; P.level = std::max(P.level, lvl);
		P.errs.push_back({lvl, "", 0, w}); if (P.why.empty()) P.why = w;
	}
};

uint64_t Pred::sighash() const {
	uint64_t h = sim::hmix(st, level);
	h = sim::hmix(h, passes); h = sim::hmix(h, exec);
	for (auto &m : mem) h = sim::hmix(h, m.first << 8 | m.second);
	for (auto &s : syms) h = Asm::hval(sim::hstr(h, s.first), s.second);
	return h;
}

Pred predict(const sim::FS &fs, const vector<string> &argv, const BinSeq *seq) {
	Pred p;
	Opts o = parse_opts(argv);
	if (o.bad) { p.why = "options"; return p; }
	if (o.usage) { p.st = Pred::FAIL; p.parse_phase = true; p.level = L_fatal; p.why = "usage"; p.errs.push_back({L_fatal, "", 0, "usage"}); return p; }
	p.isa6309 = o.isa6309;
	try { Asm a(fs, o, p); a.seq = seq; a.run(); }
	catch (Unknown &u) { p = Pred(); p.why = u.why; }
	return p;
}

// ---- outputs --------------------------------------------------------------

static bool hexbyte(const string &s, size_t i, int &v) {
	if (i + 2 > s.size()) return false;
	auto d = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	int a = d(s[i]), b = d(s[i + 1]);
	if (a < 0 || b < 0) return false;
	v = a << 4 | b; return true;
}
static bool put(Image &im, uint32_t a, int v, uint32_t &last, bool &any, string &why) {
	if (any && a <= last) { why = "data not in address order"; return false; }
	if (a > 0xffff) { why = "address beyond memory"; return false; }
	im.mem[a] = v; last = a; any = true; return true;
}
bool decode(char fmt, const string &d, Image &im, string &why) {
	auto u = [&](size_t i) { return (unsigned char)d[i]; };
	uint32_t last = 0; bool any = false;
	im.raw = d;
	if (fmt == 'B') return true;
	if (fmt == 'D') {
		if (d.size() < 9) { why = "DragonDOS header truncated"; return false; }
		if (u(0) != 0x55 || u(1) != 2 || u(8) != 0xaa) { why = "DragonDOS header"; return false; }
		im.load = u(2) << 8 | u(3); unsigned n = u(4) << 8 | u(5); im.exec = u(6) << 8 | u(7); im.has_exec = true;
		if (d.size() != 9 + n) { why = "DragonDOS length field " + std::to_string(n) + " but " + std::to_string(d.size() - 9) + " bytes follow"; return false; }
		im.raw = d.substr(9);
		return true;
	}
	if (fmt == 'C') {
		size_t i = 0;
		for (;;) {
			if (i + 5 > d.size()) { why = "CoCo segment header truncated"; return false; }
			unsigned n = u(i + 1) << 8 | u(i + 2), a = u(i + 3) << 8 | u(i + 4);
			if (u(i) == 0xff) {
				if (n) { why = "CoCo postamble"; return false; }
				im.exec = a; im.has_exec = true;
				if (i + 5 != d.size()) { why = "data after CoCo postamble"; return false; }
				return true;
			}
			if (u(i) != 0) { why = "CoCo segment type"; return false; }
			if (i + 5 + n > d.size()) { why = "CoCo segment truncated"; return false; }
			for (unsigned k = 0; k < n; k++) if (!put(im, a + k, u(i + 5 + k), last, any, why)) return false;
			i += 5 + n;
		}
	}
	bool done = false;
	if (!d.empty() && d.back() != '\n') { why = "last record not terminated"; return false; }
	for (auto &l : split_lines(d)) {
		if (done) { why = "record after the terminator"; return false; }
		vector<int> b; int v; string raw = l;
		if (fmt == 'S') {
			if (l.size() < 4 || l[0] != 'S') { why = "SREC record: " + l; return false; }
			for (size_t i = 2; i < l.size(); i += 2) { if (!hexbyte(l, i, v)) { why = "SREC digits: " + l; return false; } b.push_back(v); }
			if (b.empty() || (int)b.size() != b[0] + 1 || b.size() < 4) { why = "SREC count: " + l; return false; }
			int s = 0; for (size_t i = 0; i + 1 < b.size(); i++) s += b[i];
			if (((~s) & 0xff) != b.back()) { why = "SREC checksum: " + l; return false; }
			int a = b[1] << 8 | b[2];
			if (l[1] == '1') { for (size_t i = 3; i + 1 < b.size(); i++) if (!put(im, a + i - 3, b[i], last, any, why)) return false; }
			else if (l[1] == '9') { if (b.size() != 4) { why = "S9 length"; return false; } im.exec = a; im.has_exec = true; done = true; }
			else if (l[1] == '0' || l[1] == '5') continue;
			else { why = "SREC type: " + l; return false; }
		} else {
			if (l.size() < 11 || l[0] != ':') { why = "HEX record: " + l; return false; }
			for (size_t i = 1; i < l.size(); i += 2) { if (!hexbyte(l, i, v)) { why = "HEX digits: " + l; return false; } b.push_back(v); }
			if (b.size() < 5 || (int)b.size() != b[0] + 5) { why = "HEX count: " + l; return false; }
			int s = 0; for (int x : b) s += x;
			if (s & 0xff) { why = "HEX checksum: " + l; return false; }
			int a = b[1] << 8 | b[2];
			if (b[3] == 0) { for (size_t i = 4; i + 1 < b.size(); i++) if (!put(im, a + i - 4, b[i], last, any, why)) return false; }
			else if (b[3] == 1) { if (b[0] != 0) { why = "HEX end record length"; return false; } im.exec = a; im.has_exec = true; done = true; }
			else { why = "HEX type: " + l; return false; }
		}
	}
	if (!done) { why = "no terminating record"; return false; }
	return true;
}

static string h4(uint32_t v) { char b[16]; snprintf(b, sizeof b, "$%04X", v); return b; }

bool image_matches(char fmt, const string &d, const Pred &p, string &why) {
	Image im;
	if (!decode(fmt, d, im, why)) return false;
	if (fmt == 'B' || fmt == 'D') {
		string want;
		if (!p.mem.empty()) {
			want.assign(p.mem.rbegin()->first - p.mem.begin()->first + 1, '\0');
			for (auto &m : p.mem) want[m.first - p.mem.begin()->first] = m.second;
		}
		if (im.raw != want) {
			size_t i = 0; while (i < im.raw.size() && i < want.size() && im.raw[i] == want[i]) i++;
			why = "image has " + std::to_string(im.raw.size()) + " bytes, expected " + std::to_string(want.size()) + ", first difference at offset " + std::to_string(i);
			return false;
		}
		if (fmt == 'D') {
			int load = p.mem.empty() ? 0 : p.mem.begin()->first;
			if (im.load != load) { why = "load address " + h4(im.load) + ", expected " + h4(load); return false; }
			int ex = p.exec >= 0 ? p.exec : load;
			if (im.exec != ex) { why = "exec address " + h4(im.exec) + ", expected " + h4(ex); return false; }
		}
		return true;
	}
	if (im.mem != p.mem) {
		for (auto &m : p.mem) { auto it = im.mem.find(m.first); if (it == im.mem.end()) { why = "no byte at " + h4(m.first); return false; } if (it->second != m.second) { why = "byte at " + h4(m.first) + " is " + std::to_string(it->second) + ", expected " + std::to_string(m.second); return false; } }
		for (auto &m : im.mem) if (!p.mem.count(m.first)) { why = "stray byte at " + h4(m.first); return false; }
	}
	int ex = p.exec;
	if (ex < 0) { if (fmt == 'C') ex = p.mem.empty() ? -2 : (int)p.mem.begin()->first; else ex = 0; }
	if (ex != -2 && im.exec != ex) { why = "exec address " + h4(im.exec) + ", expected " + h4(ex); return false; }
	return true;
}

string expand_tabs(const string &s) {
	string o; for (char c : s) { if (c == '\t') do o += ' '; while (o.size() % 8); else o += c; }
	return o;
}
bool listing_matches(const string &d, const Pred &p, string &why) {
	vector<string> got; // keep text as is: split on \n only
	{ size_t i = 0; while (i < d.size()) { size_t j = d.find('\n', i); if (j == string::npos) { why = "last listing line not terminated"; return false; } got.push_back(d.substr(i, j - i)); i = j + 1; } }
	vector<const LLine *> want; size_t spare = 0;
	for (auto &l : p.listing) { want.push_back(&l); spare += l.optional; }
	for (size_t i = 0; i < want.size() && want.size() > got.size() && spare; )
		if (want[i]->optional && !(i < got.size() && got[i].find_first_not_of(' ') == string::npos && !(i + 1 < want.size() && want[i + 1]->text.empty()))) { want.erase(want.begin() + i); spare--; } else i++;
	for (size_t i = want.size(); i-- > 0 && want.size() > got.size();) if (want[i]->optional) want.erase(want.begin() + i);
	if (got.size() != want.size()) { why = "listing has " + std::to_string(got.size()) + " lines, expected " + std::to_string(want.size()); return false; }
	for (size_t i = 0; i < got.size(); i++) {
		const LLine &w = *want[i];
		string text = expand_tabs(w.text);
		auto bad = [&](const char *m) { why = string(m) + " in listing line " + std::to_string(i + 1) + ": '" + got[i].substr(0, 200) + "'"; return false; };
		if (got[i].size() < text.size() || got[i].compare(got[i].size() - text.size(), string::npos, text)) { why = "listing line " + std::to_string(i + 1) + " is '" + got[i].substr(0, 200) + "', expected text '" + text.substr(0, 200) + "'"; return false; }
		string head = got[i].substr(0, got[i].size() - text.size());
		while (!head.empty() && head.back() == ' ') head.pop_back();
		string addr, bytes;
		size_t sp = head.find(' ');
		addr = head.substr(0, sp);
		if (sp != string::npos) { size_t q = head.find_first_not_of(' ', sp); if (q != string::npos) bytes = head.substr(q); }
		string wb; for (unsigned char c : w.bytes) { char t[4]; snprintf(t, 4, "%02X", c); wb += t; }
		if (bytes != wb) return bad("wrong bytes");
		if (!wb.empty()) { char t[8]; snprintf(t, 8, "%04X", w.pc & 0xffff); if (addr != t) return bad("wrong address"); }
		else if (w.has && !addr.empty()) { char t[8]; snprintf(t, 8, "%04X", w.pc & 0xffff); if (addr != t) return bad("wrong address"); }
	}
	return true;
}

bool parse_symfile(const string &text, bool isa6309, map<string, Val> &syms, set<string> &macros, string &why) {
	if (!text.empty() && text.back() != '\n') { why = "last line not terminated"; return false; }
	int inm = 0;
	sim::FS fs; Pred dummy; Opts o;
	for (auto &t : split_lines(text)) {
		Line l;
		try {
			size_t num = 0; while (num < t.size() && isdigit((unsigned char)t[num])) num++;
			string plain; // a name made of digits, as pasting can make, reads back as a local label
			if (num && num < t.size() && t[num] == '\t') plain = t.substr(0, num);
			string tt = plain.empty() ? t : "n" + t;
			Parser p(tt, isa6309); l = p.line();
			if (!plain.empty() && l.label.size() == 1) l.label[0].s = plain;
			string op = l.op.size() == 1 && !l.op[0].interp ? lower(l.op[0].s) : "";
			if (inm) { inm += (op == "macro") - (op == "endm"); continue; }
			if (l.label.size() != 1 || l.label[0].interp) { why = "bad line: " + t; return false; }
			if (op == "macro") { inm = 1; if (!macros.insert(l.label[0].s).second) { why = "macro twice: " + t; return false; } continue; }
			if (op != "equ" || l.args.size() != 1) { why = "bad line: " + t; return false; }
			Asm a(fs, o, dummy);
			Val v = a.eval(l.args[0]);
			if (!syms.emplace(l.label[0].s, v).second) { why = "symbol twice: " + t; return false; }
		} catch (Unknown &u) {
			if (inm) continue; // macro bodies are checked by using them
			why = "cannot be read back (" + u.why + "): " + t; return false;
		}
	}
	if (inm) { why = "macro not ended"; return false; }
	return true;
}
static bool cmp_syms(const map<string, Val> &got, const map<string, Val> &want, string &why) {
	for (auto &e : want) {
		auto it = got.find(e.first);
		if (it == got.end()) { why = "symbol '" + e.first + "' missing"; return false; }
		if (!it->second.same(e.second)) { why = "symbol '" + e.first + "' is " + it->second.show() + ", expected " + e.second.show(); return false; }
	}
	for (auto &e : got) if (!want.count(e.first)) { why = "unexpected symbol '" + e.first + "'"; return false; }
	return true;
}
bool symbols_match(const string &d, const Pred &p, string &why) {
	map<string, Val> got, want; set<string> ms;
	if (!parse_symfile(d, p.isa6309, got, ms, why)) return false;
	if (!ms.empty()) { why = "macro in symbols file"; return false; }
	for (auto &e : p.syms) if (e.first[0] != '.') want[e.first] = e.second;
	got.erase(".exec");
	return cmp_syms(got, want, why);
}
bool exports_match(const string &d, const Pred &p, string &why) {
	map<string, Val> got, want; set<string> ms, wm;
	if (!parse_symfile(d, p.isa6309, got, ms, why)) return false;
	for (auto &e : p.exports) { if (p.macros.count(e)) wm.insert(e); else { auto it = p.syms.find(e); if (it != p.syms.end()) want[e] = it->second; } }
	if (ms != wm) { why = "exported macros differ"; return false; }
	return cmp_syms(got, want, why);
}

} // namespace model
