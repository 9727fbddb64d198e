#include "props.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>

namespace props {
using namespace sim;
using std::string; using std::vector; using std::to_string; using std::set; using std::map;
using gen::Proj; using gen::Feat; using model::Pred;

bool want_trace = false;
static uint64_t g_hash;
static vector<string> g_trace;

static string quote(const string &s, size_t n = 160) {
	string o; for (size_t i = 0; i < s.size() && i < n; i++) { unsigned char c = s[i]; if (c == '\n') o += " | "; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
	if (s.size() > n) o += "...";
	return o;
}

// ---- running --------------------------------------------------------------

struct Outs { string out, list, exps, syms; char fmt; vector<string> all() const { vector<string> v; for (auto s : {&out, &list, &exps, &syms}) if (!s->empty()) v.push_back(*s); return v; } };
static Outs outs_of(const vector<string> &argv) {
	model::Opts o = model::parse_opts(argv);
	return {FS::norm(o.out) == "." ? "" : o.out, o.list, o.exports, o.symbols, o.fmt};
}
static FS mkfs(const Case &c) {
	FS f;
	for (auto &e : c.files) f.put(e.first, e.second);
	auto mk = [&](const string &d) { auto &i = f.names[FS::norm(d)]; if (!i) i = std::make_shared<Inode>(); return i; };
	for (auto &d : c.dirs) { f.names[FS::norm(d)] = std::make_shared<Inode>(); f.names[FS::norm(d)]->dir = true; }
	for (auto &d : c.noread) mk(d)->noread = true;
	for (auto &d : c.nowrite) mk(d)->nowrite = true;
	// earlier outputs may be older or newer than the sources
	for (auto &n : c.nodes) for (auto &o : outs_of(n.argv).all()) { auto it = f.names.find(FS::norm(o)); if (it != f.names.end()) it->second->mtime += (long)(hstr(c.seed, o) % 3 - 1) * 5000; }
	f.capacity = c.capacity;
	return f;
}
World world_of(const Case &c);
static World mk(const Case &c) { return world_of(c); }
World world_of(const Case &c) {
	World w; w.fs = mkfs(c); w.nodes = c.nodes; w.faults = c.faults; w.sched_seed = c.seed; w.interleave = c.interleave;
	return w;
}
static void go(World &w, const char *what = "") {
	w.run();
	g_hash = hmix(g_hash, w.hash);
	if (!want_trace) return;
	char b[400];
	g_trace.push_back(string("== run ") + what);
	for (size_t i = 0; i < w.nodes.size(); i++) { string a; for (auto &x : w.nodes[i].argv) a += x + " "; g_trace.push_back("   process " + to_string(i) + ": " + a); }
	size_t n = 0;
	for (auto &e : w.hist) {
		if (++n > 400) { g_trace.push_back("   ..."); break; }
		snprintf(b, sizeof b, "   %10.3f ms  p%d #%-4ld %-6s %s%s off=%ld n=%ld -> %ld%s", e.time / 1e6, e.node, e.idx, ev_name[(int)e.t], e.path.c_str(), e.wr && e.t != Ev::Std ? " (w)" : "", e.off, e.n, e.r, e.fault ? "  INJECTED FAULT" : "");
		g_trace.push_back(b);
	}
	for (size_t i = 0; i < w.res.size(); i++) g_trace.push_back("   process " + to_string(i) + ": " + w.res[i].brief() + "; stderr: " + quote(w.res[i].err, 400));
}

static bool has_err(const string &err) {
	size_t i = 0;
	while (i < err.size()) {
		size_t j = err.find('\n', i); if (j == string::npos) j = err.size();
		string l = err.substr(i, j - i);
		if (l.compare(0, 7, "error: ") == 0 || l.compare(0, 14, "syntax error: ") == 0 || l == "error:" ) return true;
		i = j + 1;
	}
	return false;
}
static bool err_names(const string &err, const string &name) {
	for (auto &l : model::split_lines(err)) if (l.find("error") != string::npos && l.find(name) != string::npos) return true;
	return false;
}

static string content(const FS &f, const string &p) {
	auto it = f.names.find(FS::norm(p));
	if (it == f.names.end()) return "<absent>";
	if (it->second->dir) return "<directory>";
	return "=" + it->second->data;
}
static bool same_content(const FS &a, const FS &b, const vector<string> &paths, string &which) {
	for (auto &p : paths) if (content(a, p) != content(b, p)) { which = p; return false; }
	return true;
}

#define BAD(c, m) do { v.bad = true; v.cls = (c); v.msg = (m); return; } while (0)

static bool died(Verdict &v, const NodeRes &r, const char *what = "") {
	if (r.killed) return false;
	if (r.sig || r.hang) { v.bad = true; v.cls = r.hang ? "hang" : "signal"; v.msg = string(what) + r.brief(); return true; }
	if (r.done && r.code != 0 && r.code != 1) { v.bad = true; v.cls = "status"; v.msg = string(what) + r.brief(); return true; }
	return false;
}
// exit status against what was printed
static bool inconsistent_status(const NodeRes &r) {
	return (r.code == 0) == (has_err(r.err) || (r.code != 0 && !r.err.empty()));
}
static bool any_struck(const World &w, int node = -1) {
	for (auto &f : w.faults) if (f.fired && (node < 0 || f.node == node)) return true;
	return false;
}
static long first_write_open(const World &w, int node = 0) {
	for (auto &e : w.hist) if (e.node == node && e.t == Ev::Open && e.wr) return e.idx;
	return -1;
}
static bool wrote(const World &w, int node, string &p) {
	for (auto &e : w.hist) if (e.node == node && e.wr && e.t != Ev::Std && e.t != Ev::Close) { p = e.path; return true; }
	return false;
}

// all outputs against a prediction
static bool outputs_match(const FS &fs, const Outs &o, const Pred &p, string &why, bool image = true, bool others = true) {
	if (image && !o.out.empty()) { if (!fs.has(o.out)) { why = "no image file"; return false; } if (!model::image_matches(o.fmt, fs.get(o.out), p, why)) { why = "image: " + why; return false; } }
	if (others) {
		if (!o.list.empty()) { if (!fs.has(o.list)) { why = "no listing file"; return false; } if (!model::listing_matches(fs.get(o.list), p, why)) { why = "listing: " + why; return false; } }
		if (!o.syms.empty()) { if (!fs.has(o.syms)) { why = "no symbols file"; return false; } if (!model::symbols_match(fs.get(o.syms), p, why)) { why = "symbols file: " + why; return false; } }
		if (!o.exps.empty()) { if (!fs.has(o.exps)) { why = "no exports file"; return false; } if (!model::exports_match(fs.get(o.exps), p, why)) { why = "exports file: " + why; return false; } }
	}
	return true;
}

// ---- C01, C02 -------------------------------------------------------------

static void check_output(const Case &c, Verdict &v) {
	bool c1 = c.prop == "C01";
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	Outs o = outs_of(c.nodes[0].argv);
	vector<string> mine; if (c1) { if (!o.out.empty()) mine.push_back(o.out); } else for (auto &s : {o.list, o.exps, o.syms}) if (!s.empty()) mine.push_back(s);
	for (auto &p : mine) {
		bool struck = false, hard = false; string what;
		for (auto &e : w.hist) {
			if (e.path != FS::norm(p) || !e.wr) continue;
			// an open or an interrupted write may be tried again; whether all is there, the content tells
			bool again = e.t == Ev::Open || (e.t == Ev::Write && (e.r == -EINTR || e.r == -EAGAIN));
			if (e.r < 0 && e.t != Ev::Unlink && e.t != Ev::Stat && e.t != Ev::Mkdir) { if (!struck || !again) hard = !again; struck = true; what = ev_name[(int)e.t]; }
			else if (struck && !hard && e.r >= 0 && (e.t == Ev::Open || e.t == Ev::Write)) struck = false;
		}
		if (!struck) continue;
		v.nontrivial = true;
		if (r.code == 0) BAD("write failure not reported", "exit 0 although " + what + " failed on " + p);
		if (!err_names(r.err, p)) BAD("error does not name the file", what + " failed on " + p + " but stderr is: " + quote(r.err));
	}
	if (r.code != 0) return;
	Pred pr = model::predict(before, c.nodes[0].argv);
	if (pr.st == Pred::UNKNOWN) {
		if (c1 && !o.out.empty()) { model::Image im; string why; if (!model::decode(o.fmt, w.fs.get(o.out), im, why)) BAD("malformed image", why); }
		return;
	}
	if (pr.fail()) {
		if (pr.output_phase && c1) BAD("data that cannot be represented", "exit 0 although " + pr.why);
		if (pr.output_phase) BAD("output that cannot be written", "exit 0 although " + pr.why);
		return;
	}
	v.nontrivial = true;
	string why;
	if (!outputs_match(w.fs, o, pr, why, c1, !c1)) BAD(c1 ? "wrong image" : "wrong output", why);
}

// ---- C03 ------------------------------------------------------------------

static void check_input(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	bool struck = false; string what;
	for (size_t i = 0; i < w.hist.size(); i++) {
		auto &e = w.hist[i];
		if (e.wr || (e.t != Ev::Open && e.t != Ev::Read) || e.r >= 0) continue;
		if (e.t == Ev::Read && e.r == -EINTR) { // an interrupted read may be made again
			bool again = false; for (size_t j = i + 1; j < w.hist.size() && w.hist[j].t == Ev::Read && w.hist[j].path == e.path; j++) if (w.hist[j].r >= 0) again = true;
			if (again) continue;
		}
		struck = true; what = string(ev_name[(int)e.t]) + " of " + e.path;
	}
	if (!struck) return;
	v.nontrivial = true;
	if (r.code == 0) BAD("unreadable input assembled", "exit 0 although " + what + " failed");
	if (!has_err(r.err)) BAD("no error printed", what + " failed, exit 1, stderr: " + quote(r.err));
	string p;
	if (wrote(w, 0, p)) BAD("output opened", what + " failed, yet " + p + " was opened for writing");
	if (!same_content(before, w.fs, outs_of(c.nodes[0].argv).all(), p)) BAD("output changed", what + " failed, yet " + p + " changed");
}

// ---- C04 ------------------------------------------------------------------

struct TL { string text; bool open; bool sect; bool isend; };
// lines of a source text with what is known about their structure
static vector<TL> structure(const string &t, bool &hasend, bool *bal = nullptr) {
	vector<TL> v; int d = 0; hasend = false; if (bal) *bal = true;
	for (auto &l : model::split_lines(t)) {
		TL x{l, d > 0, false, false};
		string s = model::lower(l);
		if (!s.empty() && s[0] != ';' && s[0] != '*') {
			size_t q = s.find_first_of(" \t");
			if (q != string::npos && (q = s.find_first_not_of(" \t", q)) != string::npos) {
				string op = s.substr(q, s.find_first_of(" \t;", q) - q);
				static const set<string> se = {"section", "code", "data", "bss", "ram", "auto"};
				if (op == "if" || op == "macro") d++;
				else if (op == "endif" || op == "endm") { d--; x.open = true; if (d < 0 && bal) *bal = false; }
				else if (op == "else" || op == "elsif") x.open = true;
				else if (se.count(op)) x.sect = true;
				else if (op == "end") { x.isend = true; hasend = true; }
			}
		}
		v.push_back(x);
		if (x.isend) hasend = true;
	}
	if (d != 0 && bal) *bal = false;
	return v;
}
static string unlines(const vector<TL> &v, size_t a, size_t b, const char *nl = "\n") { string s; for (size_t i = a; i < b && i < v.size(); i++) s += v[i].text + nl; return s; }

// The same text delivered another way.  False if it does not apply.
static bool deliver(const string &kind, long p1, long p2, Case &c) {
	NodeCfg &n = c.nodes[0];
	model::Opts o = model::parse_opts(n.argv);
	vector<string> srcs;
	for (auto &f : c.files) if (f.first.size() > 2 && f.first.compare(f.first.size() - 2, 2, ".s") == 0) srcs.push_back(f.first);
	if (srcs.empty()) return false;
	if (kind == "reads") { n.read_max = p1; return true; }
	if (kind == "crlf") { for (auto &s : srcs) { string t; for (char ch : c.files[s]) { if (ch == '\n') t += '\r'; t += ch; } c.files[s] = t; } return true; }
	if (kind == "crlfreads") { if (!deliver("crlf", 0, 0, c)) return false; n.read_max = p1; return true; }
	if (kind == "nolf") { bool any = false; for (auto &s : srcs) { string &t = c.files[s]; if (t.size() > 1 && t.back() == '\n' && t[t.size() - 2] != '\n') { t.pop_back(); any = true; } } return any; }
	if (kind == "addlf") { bool any = false; for (auto &s : srcs) { string &t = c.files[s]; if (!t.empty() && t.back() != '\n') { t += '\n'; any = true; } } return any; }
	string f = srcs[(size_t)(p2 & 0xff) % srcs.size()];
	bool hasend, bal; vector<TL> ls = structure(c.files[f], hasend, &bal);
	if (!bal && (kind == "argsplit" || kind == "incsplit")) return false;
	size_t lim = ls.size(); for (size_t i = 0; i < ls.size(); i++) if (ls[i].isend) { lim = i; break; }
	if (kind == "argsplit") {
		if (std::find(o.files.begin(), o.files.end(), f) == o.files.end() || lim == 0) return false;
		size_t k = (size_t)p1 % (lim + 1);
		while (k > 0 && k < ls.size() && ls[k].open) k--;
		string rest = unlines(ls, k, ls.size());
		c.files[f] = unlines(ls, 0, k); c.files["split2.s"] = rest;
		for (size_t i = n.argv.size() - o.files.size(); i < n.argv.size(); i++) if (n.argv[i] == f) n.argv.insert(n.argv.begin() + ++i, "split2.s");
		return true;
	}
	if (kind == "join") { // several files on the command line become one
		if (o.files.size() < 2) return false;
		bool he; for (size_t i = 0; i + 1 < o.files.size(); i++) { // a file that leaves a conditional or a macro open ends there, a joined one goes on
			bool bal; structure(c.files[o.files[i]], he, &bal); if (he || !bal) return false;
		}
		string t; for (auto &x : o.files) { string s = c.files[x]; if (!s.empty() && s.back() != '\n') s += '\n'; t += s; }
		vector<string> a; bool done = false; size_t first = n.argv.size() - o.files.size();
		for (size_t i = 0; i < first; i++) a.push_back(n.argv[i]);
		(void)done; a.push_back("joined.s"); c.files["joined.s"] = t; n.argv = a;
		return true;
	}
	if (kind == "incsplit") {
		if (lim == 0) return false;
		size_t a = (size_t)p1 % lim, b = a + 1 + (size_t)(p2 >> 8) % (lim - a);
		while (a > 0 && ls[a].open) a--;
		while (b < lim && ls[b].open) b++;
		if (a >= b) return false;
		for (size_t i = a; i < b; i++) if (ls[i].sect) return false;
		string name = "piece.s";
		if ((p2 >> 10) % 4 == 0) { // a name differing in case only
			name = f; size_t q = name.find_last_of('/'); q = q == string::npos ? 0 : q + 1;
			for (size_t i = q; i < name.size(); i++) if (isalpha((unsigned char)name[i])) { name[i] ^= 0x20; if ((p2 >> 12) & 1) break; }
		}
		if (c.files.count(name)) name = "piece2.s";
		if (c.files.count(name)) return false;
		c.files[name] = unlines(ls, a, b);
		if (p2 & 0x100) { string &t = c.files[name]; if (t.size() > 1 && t[t.size() - 2] != '\n') t.pop_back(); }
		c.files[f] = unlines(ls, 0, a) + "\tinclude\t\"" + name + "\"\n" + unlines(ls, b, ls.size());
		return true;
	}
	if (kind == "pad") { // move a chosen line onto a buffer boundary
		if (ls.empty()) return false;
		static const long B[] = {4096, 8192, 16384, 32768, 65536, 512, 1024, 2048};
		size_t k = (size_t)p1 % ls.size();
		if (k > 0 && ls[k].open) while (k > 0 && ls[k].open) k--;
		string head = unlines(ls, 0, k), tail = unlines(ls, k, ls.size());
		long target = B[(p2 >> 8) & 7] - (p2 >> 12) % 40; // so many bytes before the boundary
		long need = target - (long)head.size();
		if (need < 2) return false;
		string pad;
		if ((p2 >> 20) & 1) pad = "*" + string(need - 2, '-') + "\n"; // one long line
		else while (need > 0) { long m = std::min<long>(need, 2 + (p1 + need) % 90); if (need - m == 1) m++; if (m == 1) { pad += "\n"; need--; continue; } pad += ";" + string(m - 2, 'c') + "\n"; need -= m; }
		c.files[f] = head + pad + tail;
		return true;
	}
	if (kind == "trail") { // a long comment after a line
		if (ls.empty()) return false;
		size_t k = (size_t)p1 % ls.size();
		static const long N[] = {100, 255, 256, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 40000, 100000};
		TL &l = ls[k];
		if (l.open && model::lower(l.text).find("macro") != string::npos) return false;
		long add = N[(p2 >> 8) % 14];
		if ((p2 >> 22) & 1) { // until the line ends at a buffer boundary, or next to it
			static const long E[] = {8192, 8192, 16384, 4096, 1024, 256};
			add = E[(p2 >> 8) % 6] - 2 + (p2 >> 12) % 5 - (long)l.text.size() - 2;
			if (add < 0) return false;
		}
		if (!l.text.empty() && (l.text[0] == '*' || l.text[0] == ';')) l.text += string(add, 'z') + ((p2 >> 22) & 1 ? "zz" : "");
		else l.text += " ;" + string(add, 'z');
		c.files[f] = unlines(ls, 0, ls.size());
		if ((p2 >> 23) & 1) return deliver("crlf", 0, 0, c);
		return true;
	}
	if (kind == "spread") { // white space after the operation grows
		if (ls.empty()) return false;
		static const long N[] = {50, 250, 1000, 4090, 5000, 8180, 16380, 20000};
		size_t k = (size_t)p1 % ls.size(); string &t = ls[k].text;
		if (t.empty() || (t[0] != ' ' && t[0] != '\t') ) return false;
		size_t q = t.find_first_not_of(" \t"); if (q == string::npos || t[q] == ';' || t[q] == '*') return false;
		t = string(N[(p2 >> 8) % 8], ' ') + t.substr(q);
		c.files[f] = unlines(ls, 0, ls.size());
		return true;
	}
	return false;
}

// sources come through pipes, outputs go into pipes
static void check_pipes(const Case &c, Verdict &v) {
	World w = mk(c); go(w, "as given");
	if (died(v, w.res[0])) return;
	const NodeRes &r = w.res[0];
	Outs o = outs_of(c.nodes[0].argv);
	long how = c.num("p2") % 3 + 1; // 1 sources, 2 outputs, 3 both
	World u = mk(c);
	map<string, InodeP> held; bool any = false;
	if (how & 1) {
		map<string, int> times; set<string> bad;
		for (auto &x : r.opens) if (!x.wr) times[FS::norm(x.path)]++;
		for (auto &x : c.par) if (x.first == "bins") { string s = x.second; size_t i = 0; while (i < s.size()) { size_t j = s.find(' ', i); if (j == string::npos) j = s.size(); bad.insert(FS::norm(s.substr(i, j - i))); i = j + 1; } }
		int k = 0;
		for (auto &t : times) {
			auto it = u.fs.names.find(t.first);
			if (t.second != 1 || bad.count(t.first) || it == u.fs.names.end() || it->second->dir || t.first.find(".bin") != string::npos) continue;
			if ((c.num("p2") >> 4) % 2 && (c.num("p1") >> (k++ % 8)) % 2) continue; // some of them
			it->second->pipe = true; any = true;
		}
	}
	if (how & 2) for (auto &p : o.all()) {
		auto &i = u.fs.names[FS::norm(p)];
		if (i && i->dir) continue;
		i = std::make_shared<Inode>(); i->id = 777000 + held.size(); i->pipe = true; held[p] = i; any = true;
	}
	if (!any) return;
	go(u, how == 1 ? "sources come through pipes" : how == 2 ? "outputs go into pipes" : "sources come through pipes, outputs go into pipes");
	NodeRes &s = u.res[0];
	v.key = u.hash;
	if (died(v, s)) return;
	v.nontrivial = true;
	if (r.code != s.code) BAD("exit status differs", "exit " + to_string(r.code) + " with files, " + to_string(s.code) + " with pipes: " + quote(r.err + s.err));
	if (r.code) return;
	for (auto &p : o.all()) {
		auto it = w.fs.names.find(FS::norm(p)); if (it == w.fs.names.end() || it->second->dir) continue;
		auto h = held.find(p); auto q = u.fs.names.find(FS::norm(p));
		const string *got = h != held.end() ? &h->second->data : q != u.fs.names.end() ? &q->second->data : nullptr;
		if (!got || *got != it->second->data) BAD("outputs differ", p + " differs with pipes: " + to_string(got ? got->size() : 0) + " bytes, with files " + to_string(it->second->data.size()));
	}
}
static void check_delivery(const Case &c, Verdict &v) {
	if (c.kind == "pipe") return check_pipes(c, v);
	Case b = c;
	if (!deliver(c.kind, c.num("p1"), c.num("p2"), b)) return;
	World w = mk(c), w2 = mk(b);
	go(w, "as given"); go(w2, ("delivered differently: " + c.kind).c_str());
	v.key = w2.hash;
	if (died(v, w.res[0]) || died(v, w2.res[0])) return;
	v.nontrivial = true;
	const NodeRes &r = w.res[0], &s = w2.res[0];
	if (r.code != s.code) BAD("exit status differs", "exit " + to_string(r.code) + " as given, " + to_string(s.code) + " delivered as '" + c.kind + "': " + quote(r.err + s.err));
	Outs o = outs_of(c.nodes[0].argv);
	string p;
	if (!same_content(w.fs, w2.fs, vector<string>{o.out, o.exps, o.syms}, p)) BAD("outputs differ", p + " differs when delivered as '" + c.kind + "'");
}

// ---- C05 ------------------------------------------------------------------

static string squeeze(const string &s) { string o; for (char c : s) if (c != ' ' && c != '\t' && c != '\r') o += c; return o; }
static bool maybe_end(string l, bool cr = true) {
	// a carriage return is skipped wherever it is, and separates what it stands between
	if (cr && l.find('\r') != string::npos) {
		string a, b; for (char c : l) { if (c != '\r') a += c; b += c == '\r' ? ' ' : c; }
		return maybe_end(a, false) || maybe_end(b, false);
	}
	if (l.empty() || l[0] == ';' || l[0] == '*') return false;
	size_t q = l.find_first_of(" \t");
	if (q == string::npos) return false;
	q = l.find_first_not_of(" \t", q);
	if (q == string::npos || q + 3 > l.size()) return false;
	if (model::lower(l.substr(q, 3)) != "end") return l.find('\\') != string::npos || l.find('&') != string::npos ? l.find('\\', q) == q || l.find('&', q) == q : false;
	char e = q + 3 < l.size() ? l[q + 3] : 0;
	return !(isalnum((unsigned char)e) || e == '_' || e == '.');
}

static void check_damage(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	v.nontrivial = true;
	if (died(v, r)) return;
	if (r.code != 0) return;
	Outs o = outs_of(c.nodes[0].argv);
	model::Opts mo = model::parse_opts(c.nodes[0].argv);
	Pred pr = model::predict(before, c.nodes[0].argv);
	if (pr.fail()) BAD("damage accepted", "exit 0 although: " + pr.why);
	string why;
	if (pr.ok() && !outputs_match(w.fs, o, pr, why)) BAD("wrong output", why);
	if (o.list.empty()) return;
	vector<string> lst; { string t = w.fs.get(o.list); size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); lst.push_back(squeeze(t.substr(i, j - i))); i = j + 1; } }
	// every delivered line, in order
	for (auto &f : mo.files) {
		if (!before.has(f)) continue;
		size_t at = 0; int n = 0;
		// the lines of all files on the command line follow each other; each file is checked on its own
		for (auto &l : model::split_lines(before.get(f))) {
			n++;
			string q = squeeze(l);
			while (at < lst.size() && !(lst[at].size() >= q.size() && lst[at].compare(lst[at].size() - q.size(), string::npos, q) == 0)) at++;
			if (at == lst.size()) BAD("line lost", "exit 0, but line " + to_string(n) + " of " + f + " is not in the listing in order: '" + quote(l) + "'");
			at++;
			if (maybe_end(l)) break;
		}
	}
}

// ---- C06 ------------------------------------------------------------------

static void check_memory(const Case &c, Verdict &v) {
	Case b = c; b.faults.clear();
	for (auto &f : c.faults) if (f.k != FK::AllocOnce && f.k != FK::AllocForever) b.faults.push_back(f);
	World w = mk(c); go(w, "with failing allocation");
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (!any_struck(w)) return;
	v.nontrivial = true;
	if (died(v, r)) return;
	if (r.code != 0) { if (r.err.empty()) BAD("silent failure", "exit 1 with nothing on stderr"); return; }
	World u = mk(b); go(u, "undisturbed");
	if (u.res[0].code != 0) BAD("failure hidden", "exit 0 with a failing allocation, " + u.res[0].brief() + " without");
	string p;
	if (!same_content(u.fs, w.fs, outs_of(c.nodes[0].argv).all(), p)) BAD("output differs", "exit 0, but " + p + " differs from that of an undisturbed run");
}

// ---- C07 ------------------------------------------------------------------

static void check_untouched(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	long fw = -1, lastread = -1; string p;
	for (auto &e : w.hist) {
		if (e.t == Ev::Std || e.t == Ev::Close || e.t == Ev::Stat) continue;
		if (e.wr) { if (fw < 0) { fw = e.idx; p = e.path; } } else lastread = e.idx;
	}
	if (fw >= 0 && lastread > fw) BAD("output opened early", p + " was opened for writing at operation " + to_string(fw) + ", input was still read at " + to_string(lastread));
	bool before_writes = false; string reason;
	if (r.killed) {
		// killed while still reading input, as far as an undisturbed run tells
		Case b = c; b.faults.clear();
		World u = mk(b); go(u, "undisturbed");
		long lr = -1; for (auto &e : u.hist) if (!e.wr && (e.t == Ev::Open || e.t == Ev::Read)) lr = e.idx;
		long k = -1; for (auto &f : c.faults) if (f.k == FK::Kill || f.k == FK::KillAfter) k = f.at;
		if (k >= 0 && k <= lr) { before_writes = true; reason = "killed at operation " + to_string(k) + ", while input is read up to " + to_string(lr); }
	} else {
		bool readerr = false;
		for (auto &e : w.hist) if (!e.wr && (e.t == Ev::Open || e.t == Ev::Read) && e.r < 0) readerr = true;
		if (readerr && r.code != 0) { before_writes = true; reason = "input could not be read"; }
		else if (!readerr) {
			Pred pr = model::predict(before, c.nodes[0].argv);
			if (pr.fail() && !pr.output_phase) { before_writes = true; reason = pr.why; }
		}
	}
	if (!before_writes) return;
	v.nontrivial = true;
	string q;
	if (!same_content(before, w.fs, outs_of(c.nodes[0].argv).all(), q)) BAD("output changed", q + " changed although the run failed: " + reason);
	if (fw >= 0) BAD("output opened", p + " was opened for writing although the run failed: " + reason);
}

// ---- C08 ------------------------------------------------------------------

static void check_env(const Case &c, Verdict &v) {
	World w = mk(c);
	w.nodes[0].plain_env = true;
	go(w, "plain environment");
	v.key = w.hash;
	v.nontrivial = true;
	Outs o = outs_of(c.nodes[0].argv);
	if (died(v, w.res[0])) return;
	for (int i = 0; i < (int)c.num("envs", 3); i++) {
		World u = mk(c);
		u.nodes[0].plain_env = false; u.nodes[0].env_seed = c.num("env0") + i;
		Rng er(u.nodes[0].env_seed * 31 + 5);
		if (c.num("stale")) for (auto &p : o.all()) if (er.chance(2, 3)) u.fs.put(p, gen::junk(er, er.below(er.chance(1, 2) ? 40 : 9000)));
		u.nodes[0].read_max = c.nodes[0].read_max;
		go(u, ("environment " + to_string(u.nodes[0].env_seed)).c_str());
		v.key = hmix(v.key, u.hash);
		const NodeRes &a = w.res[0], &b = u.res[0];
		if (died(v, b, "in another environment: ")) return;
		if (a.code != b.code) BAD("exit status differs", a.brief() + " and " + b.brief() + " in two environments: " + quote(a.err + b.err));
		if (a.err != b.err) BAD("diagnostics differ", quote(a.err) + " <> " + quote(b.err));
		if (a.out != b.out) BAD("diagnostics differ", quote(a.out) + " <> " + quote(b.out));
		if (a.code == 0) { string p; if (!same_content(w.fs, u.fs, o.all(), p)) BAD("outputs differ", p + " differs between two environments"); }
	}
}

// ---- C09, C10 -------------------------------------------------------------

// opened, to see that it is there, but not read
static bool unread(const OpenRec &o) { return !o.eof && o.data.empty(); }
static model::BinSeq bins_read(const NodeRes &r, const set<string> &bins) {
	model::BinSeq q;
	for (auto &o : r.opens) if (!o.wr && bins.count(o.path) && !unread(o)) q[o.path].push_back(o.data);
	return q;
}
static set<string> bins_of(const Case &c) { set<string> s; string t = c.str("bins"); size_t i = 0; while (i < t.size()) { size_t j = t.find(' ', i); if (j == string::npos) j = t.size(); s.insert(t.substr(i, j - i)); i = j + 1; } return s; }

static void check_settled(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	if (r.code != 0) return;
	model::BinSeq q = bins_read(r, bins_of(c));
	Pred pr = model::predict(before, c.nodes[0].argv, &q);
	Outs o = outs_of(c.nodes[0].argv);
	if (pr.fail() && !pr.output_phase) BAD("not settled", "exit 0 although: " + pr.why);
	string why;
	if (pr.ok()) { v.nontrivial = true; if (!outputs_match(w.fs, o, pr, why)) BAD("not the settled values", why); }
	// more permitted passes change nothing
	if (c.num("more")) {
		World u = mk(c);
		u.nodes[0].argv.insert(u.nodes[0].argv.begin() + 1, {"-P", to_string(c.num("more"))});
		// the program's own -P, if any, comes later: put ours last among the options
		go(u, "more permitted passes");
		if (died(v, u.res[0])) return;
		v.nontrivial = true;
		string p;
		if (u.res[0].code != 0) BAD("larger limit fails", "exit 1 with --max-passes " + to_string(c.num("more")) + ": " + quote(u.res[0].err));
		if (!same_content(w.fs, u.fs, o.all(), p)) BAD("larger limit differs", p + " differs with --max-passes " + to_string(c.num("more")));
	}
}

static void check_mixture(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	if (any_struck(w)) v.nontrivial = true;
	if (r.code != 0) return;
	set<string> bins = bins_of(c);
	model::BinSeq q = bins_read(r, bins);
	FS frozen = before.clone();
	map<string, std::pair<string, bool>> first; // content and whether read to its end
	map<string, string> spelt;
	for (auto &e : r.opens) {
		if (e.wr || bins.count(e.path) || unread(e)) continue;
		// one file given under two names is read for each
		auto o1 = spelt.emplace(e.path, e.raw); if (o1.first->second != e.raw && first[e.path].first != e.data) return;
		auto it = first.find(e.path);
		if (it == first.end()) { first[e.path] = {e.data, e.eof}; frozen.put(e.path, e.data); continue; }
		string &a = it->second.first;
		bool eq = e.eof && it->second.second ? a == e.data : a.compare(0, std::min(a.size(), e.data.size()), e.data, 0, std::min(a.size(), e.data.size())) == 0 && (!e.eof || e.data.size() >= a.size()) && (!it->second.second || a.size() >= e.data.size());
		if (eq && e.data.size() > a.size()) { it->second = {e.data, e.eof}; frozen.put(e.path, e.data); }
		if (!eq) BAD("source read twice", e.path + " was read twice with different content, exit 0");
	}
	for (auto &b : q) frozen.put(b.first, b.second.back());
	Outs o = outs_of(c.nodes[0].argv);
	Pred pr = model::predict(frozen, c.nodes[0].argv, &q);
	string why;
	if (pr.fail() && !pr.output_phase) BAD("mixture", "exit 0, but from the contents read it cannot be assembled: " + pr.why);
	if (pr.ok()) { if (!outputs_match(w.fs, o, pr, why)) BAD("mixture", "outputs do not follow from the contents read: " + why); return; }
	if (pr.st == Pred::UNKNOWN) {
		bool changed = false; for (auto &b : q) for (auto &x : b.second) if (x != b.second.back()) changed = true;
		if (changed) return;
		Case d = c; d.faults.clear();
		World u = mk(d); u.fs = frozen.clone();
		go(u, "contents frozen as read");
		string p;
		if (u.res[0].code != 0) BAD("mixture", "exit 0, but the contents read give " + u.res[0].brief());
		if (!same_content(w.fs, u.fs, o.all(), p)) BAD("mixture", p + " differs from that of the contents read");
	}
}

// ---- C11 ------------------------------------------------------------------

static size_t input_size(const Case &c) { size_t n = 0; for (auto &e : c.files) n += e.second.size(); return n; }

static void check_passes(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	v.nontrivial = true;
	model::Opts o = model::parse_opts(c.nodes[0].argv);
	string probe = c.str("probe");
	long opens = 0;
	if (r.spent || r.alloc_peak > (64l << 20)) BAD("memory without bound", (r.spent ? string("all") : to_string(r.alloc_peak) + " bytes") + " of the memory in use, for " + to_string(input_size(c)) + " bytes of source");
	for (auto &e : r.opens) if (!e.wr && e.path == probe && !unread(e)) opens++;
	if (!o.usage && opens > o.max_passes) BAD("too many passes", to_string(opens) + " passes, " + to_string(o.max_passes) + " permitted");
	string expect = c.str("expect");
	auto failed = [&](const string &why) {
		if (r.code == 0) { v.bad = true; v.cls = "success without settling"; v.msg = "exit 0 although " + why; return false; }
		if (!has_err(r.err)) { v.bad = true; v.cls = "no error"; v.msg = "exit 1 without an error message: " + why; return false; }
		string p;
		if (wrote(w, 0, p)) { v.bad = true; v.cls = "output written"; v.msg = p + " opened for writing although " + why; return false; }
		return true;
	};
	if (expect == "fail") { failed(c.kind); return; }
	set<string> bins = bins_of(c);
	model::BinSeq q = bins_read(r, bins);
	Pred pr = model::predict(before, c.nodes[0].argv, &q);
	if (pr.st == Pred::UNKNOWN) { v.nontrivial = false; return; }
	if (pr.fail()) { if (pr.output_phase) { v.nontrivial = false; return; } if (r.code == 0) BAD("success without settling", "exit 0 although " + pr.why); return; }
	bool should = pr.passes <= o.max_passes;
	if (!should) { failed("values settle in pass " + to_string(pr.passes) + ", " + to_string(o.max_passes) + " permitted"); return; }
	if (r.code != 0) BAD("settled but failed", "exit 1, but values settle in pass " + to_string(pr.passes) + " of " + to_string(o.max_passes) + ": " + quote(r.err));
	if (opens > 0 && pr.passes >= 2 && opens > pr.passes) BAD("needless passes", to_string(opens) + " passes, settled after " + to_string(pr.passes));
	string why;
	if (!outputs_match(w.fs, outs_of(c.nodes[0].argv), pr, why)) BAD("result depends on the limit", why);
}

// ---- C12 ------------------------------------------------------------------

static void check_alone(const Case &c, Verdict &v) {
	World w = mk(c); w.interleave = true;
	go(w, "together");
	v.key = hmix(w.order_hash, w.hash);
	v.nontrivial = w.switches > 1;
	for (size_t i = 0; i < c.nodes.size(); i++) {
		Case s = c;
		s.nodes = {c.nodes[i]}; s.nodes[0].start = 0;
		s.faults.clear();
		for (auto f : c.faults) if (f.node == (int)i) { f.node = 0; s.faults.push_back(f); }
		World u = mk(s); u.interleave = false;
		go(u, ("process " + to_string(i) + " alone").c_str());
		const NodeRes &a = u.res[0], &b = w.res[i];
		if (died(v, b, "together with others: ")) return;
		string who = "process " + to_string(i) + " ";
		if (a.killed != b.killed || a.code != b.code) BAD("exit status differs", who + a.brief() + " alone, " + b.brief() + " among others: " + quote(b.err));
		if (a.err != b.err || a.out != b.out) BAD("diagnostics differ", who + "alone: " + quote(a.err) + " among others: " + quote(b.err));
		string p;
		if (!same_content(u.fs, w.fs, outs_of(c.nodes[i].argv).all(), p)) BAD("outputs differ", who + p + " differs from when it runs alone");
	}
}

// ---- C13 ------------------------------------------------------------------

// definitions in an exports or symbols file; their order means nothing
// a literal handed to a macro may be written with the size or '#' its use gave
// it: that means nothing there, each use states its own
static string plain_call(const string &l) {
	size_t a = l.find('\t'); if (a == string::npos) return l;
	size_t b = l.find('\t', a + 1); if (b == string::npos || l.substr(a, b - a).find("_n") == string::npos) return l;
	string o = l.substr(0, b + 1);
	for (size_t i = b + 1; i < l.size(); i++) { if ((l[i] == '#' || l[i] == '<' || l[i] == '>') && (o.back() == '\t' || o.back() == ',')) continue; o += l[i]; }
	return o;
}
static std::multiset<string> by_name(const string &t) {
	std::multiset<string> s; string m; int d = 0;
	for (auto &l0 : model::split_lines(t)) {
		string l = plain_call(l0);
		string w = model::lower(l); bool start = w.find("\tmacro") != string::npos || w.find(" macro") != string::npos, end = w.find("\tendm") != string::npos;
		if (!m.empty() || (start && l[0] != '\t')) { m += l + "\n"; d += start && l[0] != '\t' ? 1 : end ? -1 : 0; if (d == 0) { s.insert(m); m.clear(); } }
		else s.insert(l);
	}
	if (!m.empty()) s.insert(m);
	return s;
}

// stages: node i includes the exports or symbols file of node i-1.  The
// reference has the definitions of the names used in place of that file.
static void check_chain(const Case &c, Verdict &v) {
	FS fs = mkfs(c);
	uint64_t key = 1;
	bool faulted = false;
	for (size_t i = 0; i < c.nodes.size(); i++) {
		vector<Fault> fl;
		for (auto f : c.faults) if (f.node == (int)i) { f.node = 0; fl.push_back(f); }
		bool done = false;
		// attempts until one exits 0, each attempt meeting the next fault; then an undisturbed one
		for (size_t a = 0; a <= fl.size() && !done; a++) {
			World w; w.fs = fs; w.sched_seed = c.seed + a * 77 + i; w.nodes = {c.nodes[i]};
			if (a < fl.size()) w.faults = {fl[a]};
			if (a < fl.size() && c.num("cap" + to_string(i))) w.fs.capacity = w.fs.used() + c.num("cap" + to_string(i)); else w.fs.capacity = -1;
			go(w, ("stage " + to_string(i) + " attempt " + to_string(a)).c_str());
			fs = w.fs; fs.capacity = -1;
			key = hmix(key, w.hash);
			if (any_struck(w)) faulted = true;
			NodeRes &r = w.res[0];
			if (died(v, r)) return;
			if (!r.killed && r.code == 0) done = true;
		}
		v.key = key;
		// what the same stage gives from the original definitions
		string refmain = c.str("ref" + to_string(i));
		if (c.str("expect" + to_string(i)) == "fail") {
			v.nontrivial = true;
			if (done) BAD("unfaithful export", "stage " + to_string(i) + " exits 0 although it exports something that cannot be written");
			return;
		}
		if (!done) {
			// never succeeds: then neither may the reference
			if (refmain.empty()) return;
			FS rf = fs.clone(); rf.put("ref.s", refmain);
			vector<string> av = c.nodes[i].argv; av.back() = "ref.s";
			Pred pr = model::predict(rf, av);
			if (pr.ok() || pr.st == Pred::UNKNOWN) {
				World u; u.fs = rf; u.nodes = {c.nodes[i]}; u.nodes[0].argv = av; go(u, "reference");
				if (u.res[0].code == 0) BAD("definitions lost", "stage " + to_string(i) + " fails, but succeeds with the original definitions in place of the file");
			}
			return;
		}
		if (refmain.empty()) continue;
		v.nontrivial = true;
		FS rf = fs.clone(); rf.put("ref.s", refmain);
		vector<string> av = c.nodes[i].argv; av.back() = "ref.s";
		World u; u.fs = rf; u.nodes = {c.nodes[i]}; u.nodes[0].argv = av; u.nodes[0].plain_env = true; go(u, ("reference " + to_string(i)).c_str());
		if (u.res[0].code != 0) BAD("definitions lost", "stage " + to_string(i) + " succeeds, but fails with the original definitions: " + quote(u.res[0].err));
		Outs o = outs_of(c.nodes[i].argv);
		string p;
		vector<string> cmp = {o.out};
		if (!same_content(fs, u.fs, cmp, p)) BAD("meaning changed", "stage " + to_string(i) + ": " + p + " differs from that of the original definitions");
		// symbols by value
		map<string, model::Val> s1, s2; set<string> m1, m2; string why;
		for (auto &nm : {o.syms, o.exps}) {
			if (nm.empty()) continue;
			s1.clear(); s2.clear(); m1.clear(); m2.clear();
			if (by_name(fs.get(nm)) == by_name(u.fs.get(nm))) continue;
			BAD("meaning changed", "stage " + to_string(i) + ": " + nm + " differs from that of the original definitions: '" + quote(fs.get(nm), 300) + "' <> '" + quote(u.fs.get(nm), 300) + "'");
		}
		Pred pr = model::predict(rf, av);
		if (pr.ok() && !outputs_match(fs, o, pr, why, true, false)) BAD("meaning changed", "stage " + to_string(i) + ": " + why);
	}
}

// ---- C14 ------------------------------------------------------------------

static void check_crash(const Case &c, Verdict &v) {
	// nodes[0..n-2] are killed or failed runs one after another, nodes[n-1] the final one
	FS fs0 = mkfs(c), fs = fs0.clone();
	set<string> named;
	for (auto &n : c.nodes) for (auto &p : outs_of(n.argv).all()) named.insert(FS::norm(p));
	uint64_t key = 7;
	Rng gr(c.seed * 3 + 1);
	auto effects = [&](const FS &a, const FS &b, const World &w, const string &who) -> bool {
		for (auto &e : a.names) {
			if (named.count(e.first)) continue;
			auto it = b.names.find(e.first);
			if (it == b.names.end()) { v.bad = true; v.cls = "input removed"; v.msg = who + " removed " + e.first; return false; }
			if (it->second->data != e.second->data) { v.bad = true; v.cls = "input modified"; v.msg = who + " modified " + e.first; return false; }
		}
		for (auto &e : b.names) if (!named.count(e.first) && !a.names.count(e.first)) { v.bad = true; v.cls = "stray file"; v.msg = who + " created " + e.first; return false; }
		for (auto &e : w.hist) if (e.wr && e.t != Ev::Std && !named.count(e.path)) { v.bad = true; v.cls = "stray write"; v.msg = who + ": " + ev_name[(int)e.t] + " of " + e.path + ", which is not a named output"; return false; }
		if (!w.res[0].forbidden.empty()) { v.bad = true; v.cls = "stray effect"; v.msg = who + ": " + w.res[0].forbidden[0]; return false; }
		return true;
	};
	for (size_t i = 0; i < c.nodes.size(); i++) {
		World w; w.fs = fs.clone(); w.nodes = {c.nodes[i]}; w.sched_seed = c.seed + i;
		for (auto f : c.faults) if (f.node == (int)i) { f.node = 0; w.faults.push_back(f); }
		if (i + 1 == c.nodes.size() && !w.faults.empty()) return; // not a case: the last run is undisturbed
		string who = "run " + to_string(i);
		go(w, who.c_str());
		key = hmix(key, w.hash);
		if (any_struck(w)) v.nontrivial = true;
		v.key = key;
		if (died(v, w.res[0])) return;
		if (!effects(fs, w.fs, w, who)) return;
		if (i + 1 == c.nodes.size()) {
			World u; u.fs = fs0.clone(); u.nodes = {c.nodes[i]}; u.nodes[0].plain_env = true; go(u, "single undisturbed run");
			if (u.res[0].code != w.res[0].code) BAD("rerun differs", w.res[0].brief() + " after crashes, " + u.res[0].brief() + " without: " + quote(w.res[0].err));
			string p;
			if (u.res[0].code == 0 && !same_content(u.fs, w.fs, outs_of(c.nodes[i].argv).all(), p)) BAD("rerun differs", p + " differs after crashed runs");
			if (u.res[0].err != w.res[0].err) BAD("rerun differs", "diagnostics: " + quote(w.res[0].err) + " <> " + quote(u.res[0].err));
			return;
		}
		fs = w.fs;
		// power loss: what was written since may be lost, cut or garbage
		if (c.num("power") && w.res[0].killed) for (auto &p : named) {
			auto it = fs.names.find(p); if (it == fs.names.end() || it->second->dir) continue;
			switch (gr.below(5)) {
			case 0: fs.names.erase(it); break;
			case 1: it->second->data.resize(gr.below(it->second->data.size() + 1)); break;
			case 2: it->second->data.assign(it->second->data.size(), '\0'); break;
			case 3: it->second->data = gen::junk(gr, gr.below(600)); break;
			}
		}
	}
}

// ---- C15 ------------------------------------------------------------------

static void check_story(const Case &c, Verdict &v) {
	World w = mk(c);
	FS before = w.fs.clone();
	go(w);
	NodeRes &r = w.res[0];
	v.key = w.hash;
	if (died(v, r)) return;
	if (r.killed) return;
	v.nontrivial = true;
	model::Opts mo = model::parse_opts(c.nodes[0].argv);
	bool he = has_err(r.err);
	if (r.code == 0 && he) BAD("error but exit 0", quote(r.err));
	if (r.code == 1 && r.err.empty()) BAD("exit 1 without a message", "nothing on stderr");
	if (r.code == 1 && !he && !mo.bad && !mo.usage) BAD("exit 1 without an error", quote(r.err));
	// form of each line; a name with a line feed in it goes over two
	bool multi = false;
	for (auto &f : c.files) if (f.second.find("\\n") != string::npos) multi = true;
	for (auto &a : c.nodes[0].argv) if (a.find('\n') != string::npos) multi = true;
	for (auto &l : model::split_lines(r.err)) {
		bool ok = l.compare(0, 7, "error: ") == 0 || l.compare(0, 14, "syntax error: ") == 0 || l.compare(0, 9, "warning: ") == 0;
		if (!ok && !multi && !mo.bad && !mo.usage && l != "error: " && l.find("\n") == string::npos) BAD("malformed diagnostic", quote(l));
	}
	Pred pr = model::predict(before, c.nodes[0].argv);
	bool faults = any_struck(w) || c.capacity >= 0;
	for (auto &e : w.hist) if (e.wr && e.r < 0 && e.t != Ev::Std) faults = true;
	if (!faults && pr.st != Pred::UNKNOWN && !c.nodes[0].stderr_broken) {
		if (pr.ok() && pr.passes <= mo.max_passes && r.code != 0) BAD("unexpected failure", "nothing is wrong, but: " + quote(r.err));
		if (pr.fail() && r.code == 0) BAD("error not reported", "exit 0 although: " + pr.why);
		if (pr.fail() && !pr.output_phase && pr.level >= model::L_range && pr.passes <= mo.max_passes && !mo.usage) {
			// the printed sites must be among those at fault, and at least one of them
			set<string> want;
			for (auto &e : pr.errs) if (e.level == pr.level && !e.file.empty()) { want.insert(e.file + ":" + (e.line ? to_string(e.line) + ":" : "")); }
			bool nofile = false; for (auto &e : pr.errs) if (e.level == pr.level && e.file.empty()) nofile = true;
			set<string> wantany; for (auto &e : pr.errs) if (!e.file.empty()) wantany.insert(e.file + ":" + (e.line ? to_string(e.line) + ":" : ""));
			bool hit = false;
			for (auto &l : model::split_lines(r.err)) {
				size_t q = l.compare(0, 7, "error: ") == 0 ? 7 : l.compare(0, 14, "syntax error: ") == 0 ? 14 : 0;
				if (!q) continue;
				size_t sp = l.find(' ', q);
				string tag = sp == string::npos ? l.substr(q) : l.substr(q, sp - q);
				if (want.count(tag)) { hit = true; continue; }
				if (wantany.count(tag)) continue;
				if (tag.size() > 1 && tag.back() == ':' && tag.find(':') != tag.size() - 1 && isdigit((unsigned char)tag[tag.size() - 2])) BAD("wrong place", "error reported at " + tag + " where nothing is wrong: " + quote(l));
			}
			if (!hit && !nofile && !want.empty()) BAD("place not named", "expected an error at " + *want.begin() + " but got: " + quote(r.err));
		}
	}
	// variations that must not matter
	auto same_with = [&](const string &what, const std::function<void(World &)> &chg, bool err_subset) -> bool {
		World u = mk(c); chg(u); go(u, what.c_str());
		NodeRes &s = u.res[0];
		if (died(v, s)) return false;
		if (s.code != r.code) { v.bad = true; v.cls = "exit status depends on " + what; v.msg = r.brief() + " but " + s.brief() + " with " + what + ": " + quote(r.err); return false; }
		string p;
		if (!same_content(w.fs, u.fs, outs_of(c.nodes[0].argv).all(), p)) { v.bad = true; v.cls = "outputs depend on " + what; v.msg = p + " differs with " + what; return false; }
		if (err_subset && has_err(s.err) != has_err(r.err)) { v.bad = true; v.cls = "errors depend on " + what; v.msg = quote(r.err) + " <> " + quote(s.err); return false; }
		return true;
	};
	string var = c.str("vary");
	// stderr operations take part in the event numbering, so only faults that count by path stay put
	if (var == "quiet" && !same_with("-q", [](World &u) { auto &a = u.nodes[0].argv; a.insert(a.begin() + 1, "-q"); }, true)) return;
	if (var == "verbose" && !same_with("-v", [](World &u) { auto &a = u.nodes[0].argv; a.insert(a.begin() + 1, "--verbose"); }, true)) return;
	if (var == "stderr" && !same_with("a broken stderr", [](World &u) { u.nodes[0].stderr_broken = true; }, false)) return;
}

// ---- C21 ------------------------------------------------------------------

static void check_files(const Case &c, Verdict &v) {
	World u = mk(c); go(u, "as many open files as it likes");
	if (died(v, u.res[0])) return;
	World w = mk(c); w.nodes[0].fd_limit = c.num("fds", 8); go(w, "few open files");
	NodeRes &a = u.res[0], &b = w.res[0];
	v.key = w.hash;
	if (died(v, b)) return;
	v.nontrivial = (long)a.opens.size() + 3 > c.num("fds", 8);
	string need = " (" + to_string(a.opens.size()) + " files opened one after the other, " + to_string(a.fd_peak) + " open at once; limit " + c.str("fds") + ")";
	if (a.code != b.code) BAD("needs more open files", a.brief() + " without a limit, " + b.brief() + " with it" + need + ": " + quote(b.err));
	if (a.err != b.err) BAD("needs more open files", "diagnostics " + quote(a.err) + " without a limit, " + quote(b.err) + " with it" + need);
	string p;
	if (!same_content(u.fs, w.fs, outs_of(c.nodes[0].argv).all(), p)) BAD("needs more open files", p + " differs under the limit" + need);
	if (b.emfile) BAD("needs more open files", to_string(b.emfile) + " opens refused" + need);
}

// ---- C22 ------------------------------------------------------------------

static void check_heap(const Case &c, Verdict &v) {
	long peak[3] = {0, 0, 0}; static const int limit[3] = {31, 91, 211};
	for (int i = 0; i < 3; i++) {
		World w = mk(c);
		auto &a = w.nodes[0].argv; a.insert(a.end() - model::parse_opts(a).files.size(), {"-P", to_string(limit[i])}); // the last one counts
		go(w, ("at most " + to_string(limit[i]) + " passes").c_str());
		NodeRes &r = w.res[0];
		v.key = w.hash;
		if (died(v, r)) return;
		if (r.spent) BAD("memory grows with the passes", "all of it used up in " + to_string(limit[i]) + " passes");
		if (r.code != 1 || r.err.find("unstable") == string::npos) return;
		peak[i] = r.alloc_peak;
		v.nontrivial = true;
		// one byte a pass would be too much; a third run tells growth from a one-off
		if (i && peak[i] - peak[i - 1] < limit[i] - limit[i - 1]) return;
	}
	BAD("memory grows with the passes", to_string(peak[0]) + " bytes in use at most during 31 passes, " + to_string(peak[1]) + " during 91, " + to_string(peak[2]) + " during 211");
}

// ---------------------------------------------------------------------------

Verdict check(const Case &c) {
	Verdict v;
	g_hash = 0x1234; g_trace.clear();
	if (c.prop == "C01" || c.prop == "C02") check_output(c, v);
	else if (c.prop == "C03") check_input(c, v);
	else if (c.prop == "C04") check_delivery(c, v);
	else if (c.prop == "C05") check_damage(c, v);
	else if (c.prop == "C06") check_memory(c, v);
	else if (c.prop == "C07") check_untouched(c, v);
	else if (c.prop == "C08") check_env(c, v);
	else if (c.prop == "C09") check_settled(c, v);
	else if (c.prop == "C10") check_mixture(c, v);
	else if (c.prop == "C11") check_passes(c, v);
	else if (c.prop == "C12") check_alone(c, v);
	else if (c.prop == "C13") check_chain(c, v);
	else if (c.prop == "C14") check_crash(c, v);
	else if (c.prop == "C15") check_story(c, v);
	else if (c.prop == "C21") check_files(c, v);
	else if (c.prop == "C22") check_heap(c, v);
	v.hash = g_hash;
	v.trace = g_trace;
	return v;
}

// ---- replay files ---------------------------------------------------------

static string enc(const string &s) {
	string o; char b[4];
	for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%') o += c; else { snprintf(b, 4, "%%%02x", c); o += b; } }
	return o.empty() ? "%" : o;
}
static string dec(const string &s) {
	if (s == "%") return "";
	string o;
	for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
	return o;
}
string save(const Case &c, const Verdict &v) {
	string o = "# " + c.prop + ": " + v.cls + ": " + v.msg + "\n";
	char b[300];
	o += "case " + c.prop + " " + enc(c.kind) + "\n";
	o += "class " + enc(v.cls) + "\n";
	snprintf(b, sizeof b, "hash %016llx\nseed %llu\ncapacity %ld\ninterleave %d\n", (unsigned long long)v.hash, (unsigned long long)c.seed, c.capacity, c.interleave); o += b;
	for (auto &n : c.nodes) {
		snprintf(b, sizeof b, "node %llu %d %d %d %d %d %llu %llu", (unsigned long long)n.env_seed, n.plain_env, n.read_max, n.write_max, n.stderr_broken, n.stdout_broken, (unsigned long long)n.start, (unsigned long long)n.step_limit); o += b;
		for (auto &a : n.argv) o += " " + enc(a);
		o += "\n";
	}
	for (auto &f : c.faults) {
		snprintf(b, sizeof b, "fault %s %d %ld %d %ld %d %d ", fk_name[(int)f.k], f.node, f.at, f.err, f.arg, f.mode, f.wr);
		o += b + enc(f.path) + " " + enc(f.on) + " " + enc(f.data) + "\n";
	}
	for (auto &p : c.par) o += "par " + enc(p.first) + " " + enc(p.second) + "\n";
	for (auto &d : c.dirs) o += "dir " + enc(d) + "\n";
	for (auto &d : c.noread) o += "noread " + enc(d) + "\n";
	for (auto &d : c.nowrite) o += "nowrite " + enc(d) + "\n";
	for (auto &f : c.files) o += "file " + enc(f.first) + " " + enc(f.second) + "\n";
	for (auto &t : v.trace) o += "# " + t + "\n";
	for (auto &f : c.files) { o += "# ---- " + f.first + "\n"; if (f.second.size() < 6000) for (auto &l : model::split_lines(f.second)) o += "#   " + quote(l, 300) + "\n"; }
	return o;
}
bool load(const string &text, Case &c, string &cls, uint64_t &hash) {
	bool got = false;
	for (auto &l : model::split_lines(text)) {
		if (l.empty() || l[0] == '#') continue;
		vector<string> t; { size_t i = 0; while (i < l.size()) { size_t j = l.find(' ', i); if (j == string::npos) j = l.size(); t.push_back(l.substr(i, j - i)); i = j + 1; } }
		auto N = [&](size_t i) { return i < t.size() ? strtoll(t[i].c_str(), nullptr, 10) : 0; };
		auto U = [&](size_t i) { return i < t.size() ? strtoull(t[i].c_str(), nullptr, 10) : 0; };
		auto S = [&](size_t i) { return i < t.size() ? dec(t[i]) : string(); };
		if (t[0] == "case") { c.prop = t[1]; c.kind = S(2); got = true; }
		else if (t[0] == "class") cls = S(1);
		else if (t[0] == "hash") hash = strtoull(t[1].c_str(), nullptr, 16);
		else if (t[0] == "seed") c.seed = U(1);
		else if (t[0] == "capacity") c.capacity = N(1);
		else if (t[0] == "interleave") c.interleave = N(1);
		else if (t[0] == "node") {
			NodeCfg n; n.env_seed = U(1); n.plain_env = N(2); n.read_max = N(3); n.write_max = N(4); n.stderr_broken = N(5); n.stdout_broken = N(6); n.start = U(7); n.step_limit = U(8);
			for (size_t i = 9; i < t.size(); i++) n.argv.push_back(S(i));
			c.nodes.push_back(n);
		} else if (t[0] == "fault") {
			Fault f; f.k = fk_from(t[1]); f.node = N(2); f.at = N(3); f.err = N(4); f.arg = N(5); f.mode = N(6); f.wr = N(7); f.path = S(8); f.on = S(9); f.data = S(10);
			c.faults.push_back(f);
		} else if (t[0] == "par") c.par[S(1)] = S(2);
		else if (t[0] == "dir") c.dirs.insert(S(1));
		else if (t[0] == "noread") c.noread.insert(S(1));
		else if (t[0] == "nowrite") c.nowrite.insert(S(1));
		else if (t[0] == "file") c.files[S(1)] = S(2);
	}
	return got;
}

vector<Case> shrinks(const Case &c) {
	vector<Case> out;
	for (size_t i = 0; i < c.faults.size(); i++) { Case d = c; d.faults.erase(d.faults.begin() + i); out.push_back(d); }
	for (size_t i = 0; i < c.nodes.size() && c.nodes.size() > 1; i++) {
		Case d = c; d.nodes.erase(d.nodes.begin() + i);
		if (c.prop == "C13") continue;
		vector<Fault> fl; for (auto f : d.faults) { if (f.node == (int)i) continue; if (f.node > (int)i) f.node--; fl.push_back(f); }
		d.faults = fl; out.push_back(d);
	}
	for (size_t i = 0; i < c.nodes.size(); i++) {
		const NodeCfg &n = c.nodes[i];
		if (!n.plain_env) { Case d = c; d.nodes[i].plain_env = true; out.push_back(d); }
		if (n.read_max) { Case d = c; d.nodes[i].read_max = 0; out.push_back(d); }
		if (n.write_max) { Case d = c; d.nodes[i].write_max = 0; out.push_back(d); }
		for (size_t k = 1; k < n.argv.size() && c.prop != "C13"; k++) {
			const string &a = n.argv[k];
			if (a.size() >= 2 && a[0] == '-' && a[1] != '-') {
				bool two = a.size() == 2 && strchr("edPolEs", a[1]);
				Case d = c; auto &v = d.nodes[i].argv;
				v.erase(v.begin() + k, v.begin() + std::min(v.size(), k + 1 + two)); out.push_back(d);
			}
		}
	}
	if (c.prop == "C13") return out; // the reference texts go with the files
	for (auto &f : c.files) { Case d = c; d.files.erase(f.first); out.push_back(d); }
	// blocks of lines, large to small
	for (int part = 2; part <= 512; part *= 2) for (auto &f : c.files) {
		vector<string> ls; { size_t i = 0; while (i < f.second.size()) { size_t j = f.second.find('\n', i); j = j == string::npos ? f.second.size() : j + 1; ls.push_back(f.second.substr(i, j - i)); i = j; } }
		if ((int)ls.size() < part / 2 || ls.size() < 1) continue;
		size_t step = std::max<size_t>(1, ls.size() / part);
		if (part > 2 && step == std::max<size_t>(1, ls.size() / (part / 2)) ) continue;
		for (size_t a = 0; a < ls.size(); a += step) {
			string t; for (size_t k = 0; k < ls.size(); k++) if (k < a || k >= a + step) t += ls[k];
			Case d = c; d.files[f.first] = t; out.push_back(d);
		}
	}
	for (size_t i = 0; i < c.faults.size(); i++) {
		if (c.faults[i].at > 0) { Case d = c; d.faults[i].at = 0; out.push_back(d); Case e = c; e.faults[i].at--; out.push_back(e); }
		if (c.faults[i].mode == 1 && c.faults[i].k != FK::Mutate) { Case d = c; d.faults[i].mode = 0; out.push_back(d); }
		if (c.faults[i].data.size() > 1) { Case d = c; d.faults[i].data.resize(d.faults[i].data.size() / 2); out.push_back(d); }
	}
	return out;
}

} // namespace props
