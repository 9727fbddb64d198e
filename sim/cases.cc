// Scenario generation: what is run, in which environment, with which faults.
#include "props.h"
#include <algorithm>
#include <cerrno>

namespace props {
using namespace sim;
using std::string; using std::vector; using std::to_string;
using gen::Proj; using gen::Feat;

namespace {

const int W_ERR[] = {ENOSPC, EIO, EFBIG, EDQUOT, EROFS, EINTR, EAGAIN};
const int R_ERR[] = {EIO, EINTR, EISDIR, EAGAIN, ENOMEM, EBADF};
const int O_ERR[] = {EACCES, ENOENT, EMFILE, ENFILE, EIO, ENOMEM, EISDIR, EINTR};
const int OW_ERR[] = {EACCES, ENOSPC, EROFS, EMFILE, EISDIR, ENOENT, ETXTBSY, EDQUOT};
template <size_t N> int one_of(Rng &r, const int (&a)[N]) { return a[r.below(N)]; }

string join(const vector<string> &v) { string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x; return s; }

Case base(const string &prop, const string &kind, uint64_t seed, const Proj &p) {
	Case c; c.prop = prop; c.kind = kind; c.seed = seed;
	c.files = p.files;
	NodeCfg n; n.argv = p.argv(); c.nodes.push_back(n);
	if (!p.bins.empty()) c.par["bins"] = join(p.bins);
	return c;
}
// a random environment: memory, read and write sizes
void environment(Rng &r, NodeCfg &n) {
	static const int sz[] = {0, 0, 0, -1, -1, 1, 2, 7, 16, 100, 511, 512, 4095, 4096};
	n.env_seed = r.next() >> 1; n.plain_env = r.chance(1, 2);
	n.read_max = sz[r.below(14)]; n.write_max = sz[r.below(14)];
}
void old_outputs(Rng &r, Case &c, const Proj &p, int num = 1, int den = 2) {
	for (auto &o : p.outputs()) if (r.chance(num, den)) c.files[o] = r.chance(1, 3) ? "" : gen::junk(r, r.below(r.chance(1, 3) ? 9000 : 200));
}
Fault at_path(FK k, const EvRec &e, int err, int node = 0) {
	Fault f; f.k = k; f.node = node; f.at = e.nth; f.err = err; f.path = e.path; f.wr = e.wr; return f;
}
Fault at_event(FK k, long at, int node = 0, long arg = 0) { Fault f; f.k = k; f.node = node; f.at = at; f.arg = arg; return f; }
World profile(const Case &c) { World w = world_of(c); w.faults.clear(); w.run(); return w; }

void set_fmt(Proj &p, uint64_t seed) { p.fmt = "BDCSH"[seed % 5]; }

// operands of every type: macros and definitions they need, the definitions, the statements
void zoo(Rng &r, Proj &p, string &t, string &d, string &m) {
	static const char *z[] = {
		"\tif Zs==Zt\n\tfcb 1\n\tendif\n", "\tif Zs<Zt\n\tfcb 1\n\tendif\n", "\tif Zs!=\"abc\"\n\tnop\n\tendif\n", "\tif \"abc\">=Zt\n\tnop\n\tendif\n", "\tfcc\tZs,Zt,Zn&7\n", "\tfcn\tZs\n", "\tfcv\tZt\n",
		"\tfdb\tZf*2,Zn+Zf,-Zf\n", "\tfcb\tZn/Zf\n", "\tif Zf>Zn\n\tfcb 2\n\telsif Zn>Zf\n\tfcb 3\n\tendif\n", "\tfdb\tZn%7,Zn&3,Zn|64,Zn^5,~Zn,!Zn,-Zn,Zn<<2,Zn>>1\n", "\tfdb\tZn&&Zf,Zn||Zf\n", "\tfdb\tZn&&1,Zn||0\n",
		"\tzm\tZn,\"q\",Zs\n", "\tzm\tx,1+Zn,\"w\"\n", "\tzn\tb\n\tzn\t7\n", "\tzk\tZn\n", "\tlda\tZn,x\n\tldb\t<Zn,y\n\tldx\t[Zn,u]\n", "\tpshs\ta,b,x\n\ttfr\ta,b\n", "\trmb\tZn%5\n", "\talign\tZn%5+2\n", "\tfill\tZn,2\n", "\tsetdp\tZn>>8\n",
		"1\tbne\t1b\n\tbeq\t1f\n1\tnop\n", "Zq\tset\tZn+1\n\tfcb\tZq\nZq\tset\tZq+1\n\tfcb\tZq\n", "\tput\t*\n", "\tfqb\tZn*65537\n", "\texport\tZn\n", "\texport\tzm\n", "\tttl\tZs\n", "\tlbra\tZl\n", "\tleax\tZl,pcr\n", "\tsection\tZs\n\tfcb\t1\n\tcode\n", "\tif Znever\n\tnop\n\tendif\n", "\tif Znever+Zn>2\n\tnop\n\tendif\n", "\tif Zf+Znever>2\n\tnop\n\tendif\n", "\tinclude\tZi\n", "\tincludebin\tZi\n" };
	t = "zm\tmacro\n\tfcc\t\"\\3\\2\"\n\tif\t\"\\1\"==\"x\"\n\tldx\t#1\n\tendif\n\tif\t\"\\2\">\"\\3\"\n\tnop\n\tendif\n\tendm\nzn\tmacro\n\tlda\t\\1\n\tendm\nzk\tmacro\n1\tfcb\t\\1,&{1}\n\tbra\t1b\n\tendm\n";
	d = "Zs\tequ\t\"abc\"\nZt\tequ\t\"abd\"\nZf\tequ\t2.5\nZn\tequ\t1034\nZi\tequ\t\"zi.s\"\n"; p.files["zi.s"] = "\tnop\n";
	for (int n = 1 + r.below(8); n > 0; n--) m += z[r.below(sizeof z / sizeof *z)];
	m += "Zl\tnop\n";
}
// ---- programs about layout ------------------------------------------------

const int edge[] = {1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 1023, 1024, 1025,
	4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 32767, 32768, 32769};
string chunk(Rng &r, Proj &p, int n, int &no) {
	string s;
	while (n > 0) {
		int k = r.below(5), m;
		if (k == 0 && n <= 20000) { m = n; string b = "lay" + to_string(no++) + ".bin"; p.files[b] = gen::junk(r, m); p.bins.push_back(b); s += "\tincludebin\t\"" + b + "\"\n"; }
		else if (k == 1) { m = std::min<int>(n, 1 + r.below(20)); s += "\tfcb\t"; for (int i = 0; i < m; i++) s += (i ? "," : "") + to_string(r.below(256)); s += "\n"; }
		else if (k == 2) { m = std::min<int>(n, 1 + r.below(200)); s += "\tfcc\t\"" + string(m, "abcxyz019"[r.below(9)]) + "\"\n"; }
		else { m = r.chance(1, 2) ? n : std::min<int>(n, 1 + r.below(n)); s += r.chance(1, 2) ? "\trzb\t" + to_string(m) + "," + to_string(r.below(256)) + "\n" : "\tfill\t" + to_string(r.below(256)) + "," + to_string(m) + "\n"; }
		n -= m;
	}
	return s;
}
Proj layout(Rng &r) {
	Proj p; p.fmt = "BDCSH"[r.below(5)]; p.mains = {"main.s"}; p.out = "out.img";
	int no = 0; string s;
	int kind = r.below(9);
	if (kind == 8) { // around the end of memory, also beyond it with RMB, PUT and ALIGN
		int a = 65536 - 1 - (int)r.below(r.chance(1, 2) ? 40 : 700);
		s += "\torg\t" + to_string(a) + "\n";
		int n = 1 + r.below(5), at = a;
		for (int i = 0; i < n; i++) switch (r.below(6)) {
			case 0: { int z = 1 + r.below(r.chance(1, 2) ? 8 : 600); s += "\trmb\t" + to_string(z) + "\n"; at += z; break; }
			case 1: { int z = r.chance(1, 4) ? (int)r.below(700) : (int)r.below(std::max(1, 65536 - at)) + 1; if (z) s += chunk(r, p, z, no); at += z; break; }
			case 2: { int q = r.chance(1, 2) ? 65536 - (int)r.below(20) : 65530 + (int)r.below(300); s += "\tput\t" + to_string(q) + "\n"; break; }
			case 3: { static const int q[] = {1, 2, 16, 256, 4096}; s += "\talign\t" + to_string(q[r.below(5)]) + (r.chance(1, 3) ? ",7" : "") + "\n"; break; }
			case 4: { int b = r.below(60000); s += "\torg\t" + to_string(b) + "\n"; at = b; break; }
			case 5: s += string("\tput\t") + (r.chance(1, 2) ? "65536" : "131000") + "\n"; break;
		}
		if (r.chance(1, 2)) s += "\torg\t" + to_string(100 + r.below(100)) + "\n";
		s += "\tfcb\t1,2,3\n";
	} else if (kind == 0) { // the whole of memory, or nearly
		static const int o[] = {0, 0, 0, 1, 2, 256, 4096, 32768};
		int a = o[r.below(8)], n = 65536 - a - (r.chance(1, 2) ? 0 : (int)r.below(3));
		if (a || r.chance(1, 2)) s += "\torg\t" + to_string(a) + "\n";
		if (r.chance(1, 2)) { int k = 1 + r.below(n - 1); s += chunk(r, p, k, no); if (r.chance(1, 2)) s += "\torg\t" + to_string(a + k) + "\n"; s += chunk(r, p, n - k, no); }
		else s += chunk(r, p, n, no);
	} else if (kind == 1) { // nothing at all
		static const char *t[] = {"", "\n", "; nothing\n", "\torg 100\n", "\trmb 20\n", "\tend\n", "\tend 1234\n", "x equ 5\n", "\tcode\n\tdata\n", "\tfill 1,0\n", "\tif 0\n\tnop\n\tendif\n", "\torg $8000\n\trmb 1\n\tend $8000\n"};
		s = t[r.below(12)];
	} else {
		int n = 1 + r.below(kind == 2 ? 20 : 6);
		vector<std::pair<int, int>> cs; int at = r.chance(1, 3) ? 0 : r.below(3000);
		for (int i = 0; i < n; i++) {
			int z = r.chance(2, 3) ? edge[r.below(kind == 3 ? 42 : 30)] : 1 + r.below(700);
			if (at + z > 65536) break;
			cs.push_back({at, z}); at += z;
			static const int gap[] = {0, 0, 0, 1, 2, 3, 15, 16, 255, 256, 1000};
			at += gap[r.below(11)];
			if (r.chance(1, 5)) { int b[] = {32, 256, 4096}; int q = b[r.below(3)]; at = (at + q - 1) / q * q; }
		}
		if (!cs.empty() && r.chance(1, 8)) { int z = cs.back().second; cs.push_back({65536 - z, z}); if (cs[cs.size() - 2].first + z > 65536 - z) cs.pop_back(); }
		if (r.chance(1, 3)) std::reverse(cs.begin(), cs.end());
		else if (r.chance(1, 3)) for (size_t i = cs.size(); i > 1; i--) std::swap(cs[i - 1], cs[r.below(i)]);
		if (r.chance(1, 14) && !cs.empty()) { auto x = cs[r.below(cs.size())]; x.first += r.below(x.second); x.second = 1; cs.push_back(x); } // overlap
		bool sects = r.chance(1, 3); static const char *sn[] = {"code", "data", "bss", "ram", "auto", "section \"other\"", "section \"a.b\""};
		bool disp = r.chance(1, 6); int oend = 0;
		for (size_t i = 0; i < cs.size(); i++) {
			if (sects) s += string("\t") + sn[r.below(7)] + "\n";
			if (disp && r.chance(2, 3)) { // assembled as if elsewhere: after the bytes before, or up to the end of memory, or a little more
				int z = cs[i].second, o = r.chance(1, 3) ? oend : r.chance(1, 2) ? 65536 - z + (r.chance(1, 10) ? 1 + (int)r.below(3) : 0) : (int)r.below(65536 - z + 1);
				if (o + z > 65536 + 3) o = 0;
				s += "\torg\t" + to_string(o) + "\n\tput\t" + to_string(cs[i].first) + "\n" + chunk(r, p, z, no); oend = o + z; continue;
			}
			oend = cs[i].first + cs[i].second;
			s += "\torg\t" + to_string(cs[i].first) + "\n";
			if (r.chance(1, 6)) s += "\tput\t" + to_string(cs[i].first) + "\n";
			if (r.chance(1, 5) && cs[i].second > 3) { int k = 1 + r.below(cs[i].second - 2); s += chunk(r, p, k, no) + "\trmb\t1\n" + chunk(r, p, cs[i].second - k - 1, no); }
			else s += chunk(r, p, cs[i].second, no);
		}
	}
	static const char *ex[] = {"0", "1", "255", "256", "$1234", "$8000", "$ffff", "65535", "here"};
	if (r.chance(1, 3)) { p.opts.push_back("-e"); p.opts.push_back(ex[r.below(8)]); }
	if (r.chance(1, 4) && s.find("end") == string::npos) { s = "here equ $" + string(1, "123456789abcdef"[r.below(15)]) + "00\n" + s; s += string("\tend\t") + ex[r.below(9)] + "\n"; }
	p.files["main.s"] = s;
	return p;
}

// ---- faults on outputs ----------------------------------------------------

void output_faults(Rng &r, vector<Case> &out, const Case &c, const vector<string> &mine, int n) {
	World w = profile(c);
	if (!w.res[0].ok()) return;
	vector<const EvRec *> ev;
	for (auto &e : w.hist) if (e.wr && e.t != Ev::Std) for (auto &m : mine) if (e.path == FS::norm(m)) ev.push_back(&e);
	if (ev.empty()) return;
	long total = w.fs.used(), before = world_of(c).fs.used();
	for (int i = 0; i < n; i++) {
		Case d = c; d.kind = "write failure";
		const EvRec &e = *ev[r.chance(1, 4) ? ev.size() - 1 - r.below(std::min<size_t>(3, ev.size())) : r.below(ev.size())];
		Fault f;
		switch (e.t) {
		case Ev::Open: f = at_path(FK::OpenErr, e, one_of(r, OW_ERR)); break;
		case Ev::Write: f = at_path(r.chance(1, 2) ? FK::WriteErr : FK::WriteShortErr, e, one_of(r, W_ERR)); f.arg = r.chance(1, 3) ? -(1 + (long)r.below(4)) : (long)r.below(e.n + 1); break;
		case Ev::Close: f = at_path(FK::CloseErr, e, one_of(r, W_ERR)); break;
		default: continue;
		}
		if (r.chance(1, 2)) f.mode = 1;
		if (r.chance(1, 4)) { // a full disk instead
			long need = total - before;
			if (need <= 0) continue;
			d.kind = "full disk"; d.capacity = before + (r.chance(1, 2) ? need - 1 - (long)r.below(std::min<long>(need, 12)) : (long)r.below(need));
		} else d.faults.push_back(f);
		if (r.chance(1, 12)) { d.kind = "output is a directory"; d.faults.clear(); d.capacity = -1; d.files.erase(e.path); d.dirs.insert(e.path); }
		out.push_back(d);
	}
}

void gen_output(Rng &r, const string &prop, uint64_t seed, vector<Case> &out) {
	bool c1 = prop == "C01";
	Proj p;
	if (c1 ? seed % 2 : seed % 4 == 3) p = layout(r);
	else {
		Feat f = gen::swarm(r);
		if (!c1) { f.exps = true; if (r.chance(1, 2)) f.strs = true, f.macros = true; f.floats = r.chance(1, 2); }
		p = gen::program(r, f);
		set_fmt(p, seed / 2);
	}
	if (c1) { if (r.chance(1, 4)) gen::all_outputs(r, p); p.out = "out.img"; }
	else { gen::all_outputs(r, p, r.chance(1, 2) ? 4 : 3); if (p.list.empty() && p.syms.empty() && p.exps.empty()) p.list = "out.lst"; }
	if (r.chance(1, 30)) p.opts.push_back("-v");
	Case c = base(prop, p.files.count("main.s") && p.mains[0] == "main.s" ? "complete" : "complete", r.next() >> 1, p);
	environment(r, c.nodes[0]);
	if (r.chance(1, 3)) old_outputs(r, c, p, 2, 3);
	out.push_back(c);
	vector<string> mine; if (c1) mine = {p.out}; else for (auto &s : {p.list, p.exps, p.syms}) if (!s.empty()) mine.push_back(s);
	output_faults(r, out, c, mine, r.chance(1, 2) ? 3 : 7);
	if (c1 && r.chance(1, 3)) { // the other formats of the same program
		for (char f : {'B', 'D', 'C', 'S', 'H'}) if (f != p.fmt) { Proj q = p; q.fmt = f; Case d = base(prop, "complete", c.seed, q); d.nodes[0].env_seed = c.nodes[0].env_seed; out.push_back(d); }
	}
}

// ---- C03 ------------------------------------------------------------------

Feat rich_inputs(Rng &r) { Feat f = gen::swarm(r); if (r.chance(2, 3)) f.incl = true; if (r.chance(1, 2)) f.bins = true; if (r.chance(1, 3)) f.multi = true; return f; }

void input_faults(Rng &r, vector<Case> &out, const Case &c, const Proj &p, int n) {
	World w = profile(c);
	if (w.res[0].code != 0) return;
	vector<const EvRec *> ev; for (auto &e : w.hist) if (!e.wr && (e.t == Ev::Open || e.t == Ev::Read)) ev.push_back(&e);
	if (ev.empty()) return;
	// later passes read only the binary files: give those their share
	vector<const EvRec *> late; for (auto *e : ev) if (std::find(p.bins.begin(), p.bins.end(), e->path) != p.bins.end()) late.push_back(e);
	for (int i = 0; i < n; i++) {
		Case d = c;
		const EvRec &e = *(late.size() && r.chance(1, 3) ? late[r.below(late.size())] : ev[r.below(ev.size())]);
		Fault f = e.t == Ev::Open ? at_path(FK::OpenErr, e, one_of(r, O_ERR)) : at_path(FK::ReadErr, e, one_of(r, R_ERR));
		f.mode = r.chance(1, 2);
		d.kind = e.t == Ev::Open ? "open failure" : e.r == 0 ? "read failure at the end" : "read failure";
		d.faults.push_back(f);
		out.push_back(d);
	}
	vector<string> in; for (auto *v : {&p.mains, &p.incs, &p.bins}) for (auto &x : *v) in.push_back(x);
	if (r.chance(1, 2)) { Case d = c; const string &x = r.pick(in); d.kind = "missing file"; d.files.erase(x); out.push_back(d); }
	if (r.chance(1, 2)) { Case d = c; const string &x = r.pick(in); d.kind = "directory"; d.files.erase(x); d.dirs.insert(x); out.push_back(d); }
	if (r.chance(1, 2)) { Case d = c; const string &x = r.pick(in); d.kind = "no permission"; d.noread.insert(x); out.push_back(d); }
}
void gen_input(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = rich_inputs(r);
	Proj p = gen::program(r, f);
	gen::all_outputs(r, p, 3);
	if (seed % 5 == 0) { // big files: many reads
		string n = "huge.bin"; p.files[n] = gen::junk(r, 5000 + r.below(30000)); p.bins.push_back(n);
		string &t = p.files[p.mains[0]]; t = "\torg 0\n\tincludebin \"huge.bin\"\n" + string("*") + string(3000 + r.below(60000), '-') + "\n" + t;
	}
	if (r.chance(1, 8)) { // a carriage return that what follows was not read after
		vector<string> cand = p.mains; cand.insert(cand.end(), p.incs.begin(), p.incs.end());
		string &t = p.files[r.pick(cand)]; if (t.size() && t.back() == '\n') t.pop_back(); t += '\r';
	}
	Case c = base("C03", "read failure", r.next() >> 1, p);
	environment(r, c.nodes[0]);
	old_outputs(r, c, p);
	input_faults(r, out, c, p, 6);
}

// ---- C04 ------------------------------------------------------------------

const char *deliveries[] = {"reads", "crlf", "crlfreads", "nolf", "addlf", "argsplit", "join", "incsplit", "pad", "trail", "spread", "pipe"};
void gen_delivery(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r);
	if (seed % 3 == 0) f.multi = true;
	Proj p = gen::program(r, f);
	gen::all_outputs(r, p, 4);
	if (seed % 7 == 0) gen::inject_error(r, p);
	if (r.chance(1, 4)) { // something depends on the very last line
		string &t = p.files[p.mains.back()]; if (!t.empty() && t.back() != '\n') t += '\n'; static const char *l[] = {"\tfcb\t$12", "last equ 5", "\tnop", "lastlabel", "\tfcc\t\"end\"", "\tfdb\tlastl\nlastl\tnop", "9\tnop", "\texport\tlastx\nlastx"};
		t += l[r.below(8)]; if (r.chance(1, 2)) t += "\n"; }
	Case c = base("C04", "", r.next() >> 1, p);
	c.nodes[0].env_seed = r.next() >> 1;
	for (int i = 0; i < 6; i++) {
		Case d = c; int k = (seed + i * 2) % 12; if (seed / 12 % 2 && k >= 0 && i % 2) k = (k + 1) % 12; d.kind = deliveries[k];
		static const long rs[] = {1, 1, 2, 3, 5, 7, 16, 17, 100, 4095, 4096, 4097, -1, -1};
		long p1 = k == 0 || k == 2 ? rs[r.below(14)] : (long)r.below(1000);
		d.par["p1"] = to_string(p1); d.par["p2"] = to_string(r.below(1 << 24));
		out.push_back(d);
	}
}

// ---- C05 ------------------------------------------------------------------

void damage(Rng &r, string &t) {
	size_t n = t.size(); size_t at = r.below(n + 1), len = std::min<size_t>(n - at, 1 + r.below(r.chance(1, 3) ? 600 : 8));
	switch (r.below(16)) {
	case 0: t.resize(at); break;
	case 1: for (int i = 1 + r.below(8); i--;) if (n) t[r.below(n)] ^= 1 << r.below(8); break;
	case 2: if (n) t[r.below(n)] ^= 1 << r.below(7); break;
	case 3: t.replace(at, len, string(len, '\0')); break;
	case 4: t.replace(at, len, gen::junk(r, len)); break;
	case 5: t.insert(at, 1, (char)(r.chance(1, 2) ? 0 : 128 + r.below(128))); break;
	case 6: t.insert(at, gen::junk(r, 1 + r.below(40))); break;
	case 7: t.erase(at, len); break;
	case 8: t.insert(at, t.substr(at, len)); break;
	case 9: if (at < n) t[at] = '\r'; break;
	case 10: if (r.chance(1, 20)) { t.insert(at, string((r.chance(1, 2) ? 65400 : 130900) + r.below(300), "x ;*"[r.below(4)])); break; } t.insert(at, string(1 + r.below(20000), "x 9(\"\\"[r.below(6)])); break;
	case 11: { static const char *w[] = {"\"", "'", "/", "\\", "&", "\\1", "&{", "\\{", "(", "[", "]", ")", "#", "<", ">", "<<", ">>", "!", "~", ",", ",,", "-", "%", "$", "@", "0x", "*", "\\x", "&9", "|", "\x7f", "\x1a", "\f", "\v"}; t.insert(at, w[r.below(34)]); break; }
	case 12: { static const char *w[] = {"\n", "\n\n", "\r\n", "\r", "\n\r", "\n ", "\t\n", ";", "\n*", " "}; t.insert(at, w[r.below(10)]); break; }
	case 13: { static const char *w[] = {"\tmacro\n", "\tendm\n", "\tif 1\n", "\tif\n", "\tendif\n", "\telse\n", "\telsif 1\n", "\tend\n", "\tinclude \"main.s\"\n", "\torg *\n", "x macro\n", "1\n", " equ 5\n", "\texport\n", "\tsection\n", "\tput\n", "\tinclude\n", "\tincludebin\n", "\tset 1\n"};
		size_t q = t.find('\n', at); t.insert(q == string::npos ? n : q + 1, w[r.below(19)]); break; }
	case 14: { size_t q = t.find('\n', at); if (q != string::npos) t.erase(q, 1); break; }
	case 15: { int k = 1 + r.below(60); string s; for (int i = 0; i < k; i++) s += r.chance(1, 2) ? "(" : "-"; t.insert(at, s); break; }
	}
}
void gen_damage(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r);
	Proj p = gen::program(r, f);
	gen::all_outputs(r, p, 4);
	for (int i = 0; i < 8; i++) {
		Proj q = p;
		vector<string> in = q.mains; in.insert(in.end(), q.incs.begin(), q.incs.end());
		int n = r.chance(1, 2) ? 1 : 1 + r.below(5);
		const string &x = r.pick(in);
		if (i % 4 == 3) { gen::inject_error(r, q, (int)(seed * 2 + i / 4) % gen::error_kinds); n = r.chance(1, 4); }
		for (int k = 0; k < n; k++) damage(r, q.files[x]);
		if (r.chance(1, 40)) q.files[x] = gen::junk(r, r.below(5000));
		Case c = base("C05", "damaged", r.next() >> 1, q);
		if (r.chance(1, 2)) environment(r, c.nodes[0]);
		out.push_back(c);
	}
}

// ---- C06 ------------------------------------------------------------------

void gen_memory(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r);
	Proj p = seed % 9 == 8 ? layout(r) : gen::program(r, f);
	if (seed % 5 == 3 && p.files.count("main.s")) { string t, d, m; zoo(r, p, t, d, m); string &f0 = p.files["main.s"]; f0 = t + (r.chance(1, 2) ? d + m : m + d) + f0; }
	gen::all_outputs(r, p, 3);
	string kind = "allocation fails";
	if (seed % 6 == 5) { gen::inject_error(r, p); kind = "allocation fails in a failing run"; }
	if (seed % 13 == 12) for (auto &m : p.mains) damage(r, p.files[m]);
	Case c = base("C06", kind, r.next() >> 1, p);
	if (r.chance(1, 3)) environment(r, c.nodes[0]);
	World w = profile(c);
	long n = w.res[0].allocs;
	if (n <= 0) return;
	for (int i = 0; i < 12; i++) {
		Case d = c;
		long at = r.chance(1, 4) ? n - 1 - (long)r.below(std::min<long>(n, 200)) : (long)r.below(n);
		d.faults.push_back(at_event(r.chance(1, 3) ? FK::AllocForever : FK::AllocOnce, at));
		if (r.chance(1, 10)) d.faults.push_back(at_event(FK::AllocOnce, at + 1 + r.below(5)));
		out.push_back(d);
	}
}

// ---- C07 ------------------------------------------------------------------

void gen_untouched(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = rich_inputs(r);
	Proj p = gen::program(r, f);
	gen::all_outputs(r, p, r.chance(1, 2) ? 4 : 3);
	{
		Case c = base("C07", "input", r.next() >> 1, p);
		environment(r, c.nodes[0]); old_outputs(r, c, p, 3, 4);
		if (r.chance(1, 5)) c.nodes[0].argv.insert(c.nodes[0].argv.begin() + 1, r.chance(2, 3) ? "-v" : "-q");
		vector<Case> t; input_faults(r, t, c, p, 3); for (auto &x : t) out.push_back(x);
		out.push_back(c);
		World w = profile(c);
		long lr = -1; for (auto &e : w.hist) if (!e.wr && (e.t == Ev::Open || e.t == Ev::Read)) lr = e.idx;
		for (int i = 0; i < 3 && lr >= 0; i++) { Case d = c; d.kind = "killed"; d.faults = {at_event(r.chance(1, 2) ? FK::Kill : FK::KillAfter, r.chance(1, 3) ? lr : (long)r.below(lr + 1))}; out.push_back(d); }
	}
	for (int i = 0; i < 4; i++) {
		Proj q = p;
		int kind = (seed * 4 + i) % gen::error_kinds;
		gen::inject_error(r, q, kind);
		if (r.chance(1, 5)) gen::inject_error(r, q);
		if (r.chance(1, 3)) {
			static const char *x[] = {"NoSuchSymbol", "Ex.str", "Ex.reg", "16384", "$1000", "Ex.flt", "Ex.ok"}; int k = r.below(7);
			q.opts.push_back("-e"); q.opts.push_back(x[k]);
			if (k) q.files[q.mains[0]] = "Ex.str equ \"abcdefghijkl\"\nEx.reg equ x\nEx.flt equ 2.5\nEx.ok equ 4000\n" + q.files[q.mains[0]];
		}
		if (r.chance(1, 4)) { static const char *w[] = {"-v", "-q", "--verbose", "--quiet"}; q.opts.push_back(w[r.below(4)]); }
		Case c = base("C07", "error in the source", r.next() >> 1, q);
		environment(r, c.nodes[0]); old_outputs(r, c, q, 3, 4);
		out.push_back(c);
	}
	{ // an error only the last passes can see
		Proj q = p; static const char *late[] = {"\tldx #Late.a\nLate.a equ Late.b\nLate.b equ Late.c\nLate.c equ Late.d\n", "\tif Late.z\n\tfrob\n\tendif\nLate.z equ 1\n", "\tbra Late.f\n\trzb Late.n,0\nLate.f nop\nLate.n equ 500\n", "\trzb Late.n,0\nLate.n equ Late.m\nLate.m equ 66000\n", "\tfcb 1/Late.n\nLate.n equ Late.m\nLate.m equ 1\n\tfcb 5 % (Late.m-1)\n", "Late.x equ *\n\trmb 4-Late.y\nLate.y equ Late.z/2\nLate.z equ Late.x-Late.y\n\texport Late.q\n"};
		static const char *never[] = {"Nv equ 1-Nv\n\tfdb Nv\n", "Nv equ Nv+1\n", "Na equ Nb+1\nNb equ Na+1\n\tfcb Na\n", "Nx equ Ny-Nx\nNy equ 7\n\tfdb Nx\n", "\tfdb Nn\n", "\tlbra 77f\n", "\tif No\nNo equ 0\n\telse\nNo equ 1\n\tendif\n", "\tlda 88b\n"};
		if (r.chance(1, 6)) { static const char *x[] = {"Ex.str", "Ex.reg", "NoSuch", "Ex.und"}; q.opts.push_back("-e"); q.opts.push_back(x[r.below(4)]); q.files[q.mains[0]] = "Ex.str equ \"abcdefghijkl\"\nEx.reg equ x\n" + q.files[q.mains[0]]; }
		else
		q.files[q.mains[0]] = (r.chance(1, 2) ? late[r.below(6)] : never[r.below(8)]) + q.files[q.mains[0]];
		if (r.chance(1, 4)) { static const char *w[] = {"-v", "-q", "--verbose", "--quiet"}; q.opts.push_back(w[r.below(4)]); }
		if (r.chance(1, 3)) { q.opts.push_back("-P"); q.opts.push_back(to_string(2 + r.below(8))); }
		Case c = base("C07", "late error", r.next() >> 1, q);
		environment(r, c.nodes[0]); old_outputs(r, c, q, 3, 4);
		out.push_back(c);
	}
}

// ---- C08 ------------------------------------------------------------------

void gen_env(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r);
	Proj p = seed % 10 == 9 ? layout(r) : gen::program(r, f);
	if (seed % 5 == 3 && p.files.count("main.s")) { string t, d, m; zoo(r, p, t, d, m); string &f0 = p.files["main.s"]; f0 = t + (r.chance(1, 2) ? d + m : m + d) + f0; }
	gen::all_outputs(r, p, r.chance(1, 2) ? 4 : 2);
	string kind = "valid program";
	if (seed % 4 == 1) { gen::inject_error(r, p); kind = "program with an error"; }
	if (seed % 4 == 3) { kind = "damaged program"; vector<string> in = p.mains; in.insert(in.end(), p.incs.begin(), p.incs.end()); int n = 1 + r.below(3); while (n--) damage(r, p.files[r.pick(in)]); }
	if (r.chance(1, 8)) p.opts.push_back(r.chance(1, 2) ? "-v" : "-q");
	if (r.chance(1, 6)) { p.opts.push_back("-P"); p.opts.push_back(to_string(2 + r.below(20))); }
	Case c = base("C08", kind, r.next() >> 1, p);
	c.par["envs"] = "3"; c.par["env0"] = to_string(r.below(1000000000)); c.par["stale"] = to_string(r.below(2));
	if (r.chance(1, 4)) c.nodes[0].read_max = -1;
	out.push_back(c);
}

// ---- C09 ------------------------------------------------------------------

void wobble(Rng &r, Case &c, const Proj &p, int upto) {
	for (auto &b : p.bins) {
		if (r.chance(1, 4)) continue;
		size_t n = c.files[b].size();
		int k = 1 + r.below(upto);
		for (int i = 0; i < k; i++) {
			Fault f; f.k = FK::Mutate; f.path = b; f.on = b; f.at = r.below(upto + 1);
			static const int d[] = {0, 0, 1, -1, 2, 7, 100, 127, 128, -128};
			long m = (long)n + d[r.below(10)]; if (m < 0) m = 0;
			f.data = gen::junk(r, m); f.mode = r.below(2);
			c.faults.push_back(f);
		}
	}
}
void gen_settled(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r);
	f.fwd = r.chance(9, 10); if (r.chance(1, 2)) f.late = true; if (r.chance(1, 2)) f.sects = true; if (r.chance(1, 2)) f.pcr = true;
	int k = seed % 4;
	if (k == 1 || k == 3) f.bins = true;
	Proj p = seed % 20 == 16 ? layout(r) : gen::program(r, f);
	gen::all_outputs(r, p, 4);
	Case c = base("C09", "settled", r.next() >> 1, p);
	if (r.chance(1, 4)) environment(r, c.nodes[0]);
	if (k == 0 || k == 1) { c.kind = "more passes"; c.par["more"] = to_string(r.chance(1, 2) ? 255 : 13 + r.below(200)); }
	if (k == 3 && !p.bins.empty()) { c.kind = "sizes change between passes"; if (r.chance(1, 2)) { c.nodes[0].argv.insert(c.nodes[0].argv.begin() + 1, {"-P", to_string(8 + r.below(30))}); } wobble(r, c, p, 6); }
	out.push_back(c);
	// the same with forced extra passes by something unrelated
	if (k == 2) {
		Proj q = p; int n = 1 + r.below(7); string t;
		for (int i = 0; i < n; i++) t += "Zchain" + to_string(i) + "\tequ\tZchain" + to_string(i + 1) + "\n";
		t += "Zchain" + to_string(n) + "\tequ\t5\n";
		q.files[q.mains[0]] = t + q.files[q.mains[0]];
		q.opts.push_back("-P"); q.opts.push_back("40");
		Case d = base("C09", "passes forced by something unrelated", r.next() >> 1, q);
		out.push_back(d);
	}
}

// ---- C10 ------------------------------------------------------------------

void gen_mixture(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = rich_inputs(r);
	if (seed % 2) f.bins = true;
	Proj p = gen::program(r, f);
	if (!p.bins.empty() && r.chance(1, 4)) { static const int z[] = {4095, 4096, 4097, 8192, 12288, 16384, 16385, 20000}; p.files[r.pick(p.bins)] = gen::junk(r, z[r.below(8)]); }
	gen::all_outputs(r, p, 4);
	Case c = base("C10", "", r.next() >> 1, p);
	environment(r, c.nodes[0]);
	if (r.chance(1, 3)) c.nodes[0].read_max = 1 + r.below(60);
	World w = profile(c);
	long lr = 0; for (auto &e : w.hist) if (!e.wr && (e.t == Ev::Open || e.t == Ev::Read)) lr = e.idx;
	vector<string> src = p.mains; src.insert(src.end(), p.incs.begin(), p.incs.end());
	for (int i = 0; i < 4; i++) {
		Case d = c; bool bins = !p.bins.empty() && (i % 2);
		d.kind = bins ? "binary changes" : "source changes";
		if (bins && r.chance(1, 2)) wobble(r, d, p, 5);
		else {
			int n = 1 + r.below(4);
			for (int k = 0; k < n; k++) {
				Fault m; m.k = FK::Mutate; const string &x = bins ? r.pick(p.bins) : r.pick(src); m.path = x;
				m.at = r.below(lr + 2); m.mode = r.chance(1, 3) ? 1 : r.chance(1, 3) ? (int)r.below(5) : 0;
				string t = c.files[x];
				if (bins) t = gen::junk(r, r.chance(1, 3) ? t.size() : t.size() + r.below(20));
				else switch (r.below(6)) {
					case 0: t += "\tfcb\t1,2,3\n"; break;
					case 1: t = "\tnop\n" + t; break;
					case 2: { vector<string> ls = model::split_lines(t); if (!ls.empty()) ls.erase(ls.begin() + r.below(ls.size())); t.clear(); for (auto &l : ls) t += l + "\n"; break; }
					case 3: { vector<string> ls = model::split_lines(t); ls.insert(ls.begin() + r.below(ls.size() + 1), "\trzb\t" + to_string(1 + r.below(200)) + ",7"); t.clear(); for (auto &l : ls) t += l + "\n"; break; }
					case 4: t = "\tfcc\t\"other\"\n"; break;
					case 5: for (auto &ch : t) if (isdigit((unsigned char)ch) && r.chance(1, 10)) ch = '1' + r.below(9); break;
				}
				m.data = m.mode == 3 ? "" : m.mode == 4 ? t.substr(t.size() / 2) : t;
				if (m.mode == 3) m.data = string(r.below(c.files[x].size() + 1), 'x');
				d.faults.push_back(m);
			}
		}
		if (!bins && !p.incs.empty() && r.chance(1, 3)) { // an include used twice, changing between the two
			const string &x = r.pick(p.incs); Fault m; m.k = FK::Mutate; m.path = x; m.on = x; m.at = 1; m.data = "\tfcb\t9,9\n" + c.files[x]; d.faults.push_back(m);
			d.files[p.mains.back()] = "\tinclude\t\"twice.s\"\n\tinclude\t\"twice.s\"\n" + d.files[p.mains.back()];
			d.files["twice.s"] = "\tfcb\t1,2\n\tlda\t#5\n"; Fault t = m; t.path = t.on = "twice.s"; t.at = r.below(3); t.data = "\tfcb\t3\n"; d.faults.push_back(t);
		}
		out.push_back(d);
	}
}

// ---- C11 ------------------------------------------------------------------

void gen_passes(Rng &r, uint64_t seed, vector<Case> &out) {
	int k = seed % 8;
	auto opt = [](Case &c, long P) { c.nodes[0].argv.insert(c.nodes[0].argv.begin() + 1, {"-P", to_string(P)}); };
	auto finish = [&](Case &c) { if (r.chance(1, 3)) environment(r, c.nodes[0]); };
	if (k < 3) {
		Feat f = gen::swarm(r); f.fwd = true;
		Proj p = gen::program(r, f);
		gen::all_outputs(r, p, 4);
		string &t = p.files[p.mains[0]];
		if (r.chance(2, 3)) {
			int n = r.chance(1, 10) ? 15 + r.below(235) : 1 + r.below(14); string s; vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
			if (r.chance(1, 3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
			for (int i : ord) s += "Pch" + to_string(i) + " equ Pch" + to_string(i + 1) + (r.chance(1, 3) ? "+1" : "") + "\n";
			s += "Pch" + to_string(n) + " equ " + to_string(r.below(100)) + "\n";
			t = s + t;
		}
		p.files["probe.bin"] = r.chance(1, 2) ? "" : "p"; p.bins.push_back("probe.bin");
		t = "\tincludebin \"probe.bin\"\n" + t;
		Case c = base("C11", "limit", r.next() >> 1, p);
		c.par["probe"] = "probe.bin";
		vector<string> far = c.nodes[0].argv; far.insert(far.begin() + 1, {"-P", "255"});
		model::Pred pr = model::predict(world_of(c).fs, far);
		long K = pr.passes > 0 ? pr.passes : 3;
		for (int i = 0; i < 3; i++) { Case d = c; finish(d); opt(d, r.chance(1, 2) ? std::max<long>(1, K - 1 + (long)r.below(3)) : 1 + r.below(K + 4)); out.push_back(d); }
		if (r.chance(1, 2)) out.push_back(c);
		if (r.chance(1, 6)) { Case d = c; opt(d, r.chance(1, 2) ? 1000000 : 100); d.kind = "large limit"; out.push_back(d); }
		return;
	}
	Proj p; p.mains = {"main.s"}; p.fmt = "BDCSH"[r.below(5)]; p.out = "out.img"; p.list = "out.lst"; p.syms = "out.sym";
	string &s = p.files["main.s"];
	p.files["probe.bin"] = "p"; p.bins = {"probe.bin"};
	s = "\tincludebin \"probe.bin\"\n";
	string kind, expect; bool bins = true;
	long P = r.chance(1, 2) ? 12 : 2 + r.below(30);
	vector<Fault> fl;
	if (k == 3) { // something that never settles
		kind = "values never settle"; expect = "fail";
		switch (r.below(7)) {
		case 0: s += "x equ 1-x\n\tfdb x\n"; break;
		case 1: s += "x equ x+1\n\tfdb x\n"; break;
		case 2: s += "\trmb 10-x\nx equ *\n\trmb x/3\n"; expect = ""; break;
		case 3: s += "a equ b+1\nb equ a+1\n\tfcb a\n"; break;
		case 4: s += "\tif e>2\n\tnop\n\telse\n\trzb 5,0\n\tendif\ne equ *-1\n"; expect = ""; break;
		case 5: s += "\tsection \"A\"\n\trmb q\n\tsection \"B\"\n\torg 1000-q\nq equ *\n"; expect = ""; break;
		case 6: s += "x equ y-x\ny equ 7\n\tfdb x\n"; break;
		}
	} else if (k == 4) { // binary input that changes in every pass
		kind = "input changes in every pass"; P = 2 + r.below(20);
		s += "l1\tldx #l2\n\tincludebin \"w.bin\"\nl2\tfdb l2-l1\n"; p.files["w.bin"] = "abc"; p.bins.push_back("w.bin");
		int n = r.chance(1, 2) ? P + 2 : 1 + r.below(P + 1);
		for (int i = 1; i <= n; i++) { Fault f; f.k = FK::Mutate; f.path = f.on = "w.bin"; f.at = i; f.mode = r.below(2); f.data = r.chance(1, 4) ? gen::junk(r, 3) : string(3 + (i % 5), 'x'); fl.push_back(f); }
		bins = true;
	} else if (k == 5) { // inclusion
		kind = "inclusion without end"; expect = "fail";
		string body = r.chance(1, 2) ? "\tnop\n" : "";
		switch (r.below(4)) {
		case 0: s += body + "\tinclude \"main.s\"\n"; break;
		case 1: s += "\tinclude \"a.s\"\n"; p.files["a.s"] = body + "\tinclude \"b.s\"\n"; p.files["b.s"] = "\tinclude \"a.s\"\n" + body; break;
		case 2: s += "\tinclude \"a.s\"\n"; p.files["a.s"] = body + "\tinclude \"a.s\"\n\tinclude \"a.s\"\n"; break;
		case 3: { int n = 3 + r.below(20); kind = "deep inclusion"; expect = ""; s += "\tinclude \"i0.s\"\n"; for (int i = 0; i < n; i++) p.files["i" + to_string(i) + ".s"] = body + (i + 1 < n ? "\tinclude \"i" + to_string(i + 1) + ".s\"\n" : "\tfcb 1\n"); break; }
		}
	} else if (k == 6) { // macros
		kind = "macro without end"; expect = "fail";
		switch (r.below(5)) {
		case 0: s += "m macro\n\tm\n\tendm\n\tm\n"; break;
		case 1: s += "m macro\n\tm\n\tm\n\tm\n\tendm\n\tm\n"; break;
		case 2: s += "m macro\n\tn \\1+1\n\tendm\nn macro\n\tm \\1+1\n\tm 2\n\tendm\n\tm 1\n"; break;
		case 3: s += "m macro\n\tm \\1\\1\n\tendm\n\tm 1\n"; break;
		case 4: { int n = 2 + r.below(14); kind = "deep macros"; expect = ""; for (int i = 0; i < n; i++) s += "d" + to_string(i) + " macro\n" + (i ? "\td" + to_string(i - 1) + "\n" : "\tnop\n") + "\tendm\n"; s += "\td" + to_string(n - 1) + "\n"; break; }
		}
	} else { // sizes
		kind = "sizes without bound";
		static const char *sz[] = {"65536", "65535", "70000", "1000000", "2147483647", "4294967295", "4294967296", "$7fffffffffffffff", "$ffffffffffffffff", "-1", "(-1)", "-65536", "1<<40", "late", "late*late", "4294967290", "4294967280", "4294967296-8", "65530", "$ffff0000"};
		static const char *op[] = {"rzb #,1", "fill 1,#", "zmb #", "align #", "rmb #", "align #,5", "org #", "rzb #", "bsz #,2", "put #", "put #\n\tfqb 1,2,3"};
		int n = 1 + r.below(3);
		if (r.chance(1, 4)) { // data around the end of the range of addresses
			long top = r.chance(1, 3) ? 65536 : r.chance(1, 4) ? 2147483648 : 4294967296;
			if (r.chance(1, 2)) s.clear();
			for (int i = 0; i <= n; i++) {
				if (r.chance(1, 4)) s += "\torg " + to_string(r.below(60000)) + "\n";
				s += "\tput " + to_string(std::min(4294967295l, top - 30 + (long)r.below(34))) + "\n";
				if (r.chance(1, 6)) s += "\trmb " + to_string(r.below(20)) + "\n";
				s += "\tfcb 1"; for (int m = r.below(16); m > 0; m--) s += "," + to_string(m);
				s += "\n";
			}
			n = 0;
		}
		for (int i = 0; i < n; i++) { string o = op[r.below(11)]; size_t q = o.find('#'); o.replace(q, 1, sz[r.below(20)]); s += "\t" + o + "\n\tnop\n"; }
		s += "late equ later\nlater equ 100000\n";
		if (r.chance(1, 3)) s += "\tfcb l1-l0\nl0 rzb 60000,1\nl1 rmb 5\n";
	}
	Case c = base("C11", kind, r.next() >> 1, p);
	// tens of thousands of errors, which a plain list may take quadratic time to collect
	if (kind == "sizes without bound") for (auto &n : c.nodes) n.step_limit *= 6;
	if (!bins) c.par.erase("bins");
	if (k != 5) c.par["probe"] = "probe.bin";
	if (!expect.empty()) c.par["expect"] = expect;
	c.faults = fl;
	finish(c); opt(c, P);
	out.push_back(c);
}

// ---- C12 ------------------------------------------------------------------

void gen_alone(Rng &r, uint64_t seed, vector<Case> &out) {
	int n = 2 + r.below(4);
	Case c; c.prop = "C12"; c.kind = "together"; c.seed = r.next() >> 1; c.interleave = true;
	vector<Proj> ps; int style = r.below(12);
	for (int i = 0; i < n; i++) {
		Proj p; string pre = "n" + to_string(i) + "_";
		if (!ps.empty() && r.chance(1, 2)) { // the same sources, other outputs
			p = r.pick(ps);
			gen::all_outputs(r, p, 3);
			for (auto *o : {&p.out, &p.list, &p.exps, &p.syms}) if (!o->empty()) *o = pre + o->substr(o->rfind('/') == string::npos ? 0 : o->rfind('/') + 1);
			p.fmt = "BDCSH"[r.below(5)];
		} else {
			Feat f = gen::swarm(r); f.lines = std::min(f.lines, 40); f.prefix = r.chance(2, 3) ? "n" + to_string(i) : "n" + to_string(i) + "_";
			if (r.chance(1, 2)) f.incl = true;
			p = gen::program(r, f);
			gen::all_outputs(r, p, 3);
			if (r.chance(1, 5)) gen::inject_error(r, p);
			ps.push_back(p);
		}
		for (auto *o : {&p.out, &p.list, &p.exps, &p.syms}) if (!o->empty()) {
			string t = o == &p.out ? "img" : o == &p.list ? "lst" : o == &p.exps ? "exp" : "sym", I = to_string(i);
			switch (style) {
			case 1: *o = string(1, 'a' + i) + "out." + t; break;
			case 2: *o = "out." + t + I; break;
			case 3: *o = "out" + I + "." + t; break;
			case 4: *o = "d" + I + "/out." + t; p.files["d" + I + "/.keep"] = ""; break;
			case 5: *o = "out." + I + "." + t; break;
			case 6: { string q = "out." + t; if (i < 3) q[i] = toupper(q[i]); else q += string(1, '~'), q[0] = i == 3 ? 'o' : 'O'; *o = q; break; }
			case 7: *o = "out." + string(i + 1, t[0]) + t; break;
			case 8: *o = string(90, 'n') + I + "." + t; break;
			}
		}
		for (auto &e : p.files) c.files[e.first] = e.second;
		for (auto &o : p.outputs()) if (r.chance(1, 3)) c.files[o] = "old " + o;
		NodeCfg k; k.argv = p.argv(); environment(r, k);
		static const uint64_t st[] = {0, 0, 1000, 100000, 1000000, 20000000};
		k.start = st[r.below(6)];
		c.nodes.push_back(k);
		if (seed % 2 && r.chance(1, 2)) {
			c.kind = "together, with faults";
			Case s = c; s.nodes = {k}; s.faults.clear(); s.interleave = false; World w = profile(s);
			if (w.hist.empty()) continue;
			const EvRec &e = w.hist[r.below(w.hist.size())];
			Fault f;
			switch (r.below(5)) {
			case 0: f = at_event(FK::Kill, e.idx, i); break;
			case 1: f = at_event(FK::AllocOnce, r.below(std::max<long>(1, w.res[0].allocs)), i); break;
			case 2: f = at_event(FK::AllocForever, r.below(std::max<long>(1, w.res[0].allocs)), i); break;
			default:
				if (e.t == Ev::Open) f = at_path(FK::OpenErr, e, EACCES, i); else if (e.t == Ev::Read) f = at_path(FK::ReadErr, e, EIO, i);
				else if (e.t == Ev::Write && e.wr) { f = at_path(FK::WriteErr, e, ENOSPC, i); f.mode = 1; } else if (e.t == Ev::Close && e.wr) f = at_path(FK::CloseErr, e, EIO, i);
				else continue;
			}
			c.faults.push_back(f);
		}
	}
	out.push_back(c);
	Case d = c; d.seed = r.next() >> 1; out.push_back(d); // another interleaving
}

// ---- C13 ------------------------------------------------------------------

// Operands of every shape, for macro bodies: printed back when exported
struct Operands {
	Rng &r; int na;
	string num() {
		static const char *n[] = {"0", "1", "2", "10", "11", "100", "101", "255", "7", "$1f", "$10", "%1011", "@17", "'a", "'+", "9", "65535", "1000000", "0x7f", "0b11", "2147483648"};
		return n[r.below(21)];
	}
	string atom() { if (na && r.chance(1, 4)) return r.chance(1, 2) ? "\\1" : "\\{1}"; if (r.chance(1, 12)) return "*"; return num(); }
	string expr(int d) {
		if (d <= 0 || r.chance(1, 5)) return atom();
		auto p = [&](const string &e) { return "(" + e + ")"; };
		auto side = [&] { string e = expr(d - 1); return r.chance(2, 3) ? p(e) : e; };
		string sp = r.chance(1, 3) ? " " : "";
		switch (r.below(9)) {
		case 0: { static const char *u[] = {"-", "~", "!", "+"}; return u[r.below(4)] + p(expr(d - 1)); }
		case 1: { static const char *k[] = {"1", "7", "10", "11", "101", "3", "$10", "0x1"}; return side() + " % " + k[r.below(8)]; }
		case 2: { static const char *o[] = {"<<", ">>"}; return side() + sp + o[r.below(2)] + sp + to_string(r.below(9)); }
		case 3: return side() + "?" + side() + ":" + side();
		case 4: { static const char *u[] = {"-", "~", "!"}; return u[r.below(3)] + atom(); }
		default: { static const char *o[] = {"+", "-", "*", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "-", "+", "*"}; string op = o[r.below(17)]; if (op == "&" || op == "&&" || op == "*") sp = " "; return side() + sp + op + sp + side(); }
		}
	}
	string str() {
		string q = r.chance(3, 4) ? "\"" : "/", s = q;
		for (int n = 1 + r.below(8); n; n--) {
			char c = 32 + r.below(95);
			if (c == q[0] || c == '\\' || c == '&') { s += '\\'; s += c; }
			else s += c;
		}
		return s + q;
	}
	string reg() { static const char *g[] = {"x", "y", "u", "s"}; return g[r.below(4)]; }
	string indexed() {
		string i;
		static const char *sz[] = {"", "", "<", ">", "<<"};
		switch (r.below(9)) {
		case 0: i = "," + reg() + "++"; break;
		case 1: i = ",--" + reg(); break;
		case 2: return "," + reg() + "+";
		case 3: return ",-" + reg();
		case 4: i = "," + reg(); break;
		case 5: { static const char *a[] = {"a", "b", "d"}; i = string(a[r.below(3)]) + "," + reg(); break; }
		case 6: i = string(sz[r.below(4)]) + "*+" + to_string(r.below(100)) + ",pcr"; break;
		default: { int n = r.below(r.chance(1, 2) ? 16 : 120); bool neg = r.chance(1, 3); int z = r.below(5); if (z == 4 && n > 15) z = 2; i = string(sz[z]) + (neg ? z == 4 ? "(-" + to_string(n) + ")" : "-" + to_string(n) : to_string(n)) + "," + reg(); if (z == 4) return i; }
		}
		return r.chance(1, 4) ? "[" + i + "]" : i;
	}
	string line() {
		static const char *ld[] = {"lda", "stb", "ldx", "leax", "leas", "jmp", "cmpy", "sty", "tst", "addd"};
		switch (r.below(6)) {
		case 0: return string("\t") + ld[r.below(10)] + "\t" + indexed();
		case 1: return "\tfcc\t" + str();
		case 2: return "\tfcb\t(" + expr(3) + ")&255," + str();
		default: return "\tfqb\t" + expr(1 + r.below(4)) + (r.chance(1, 3) ? "," + expr(2) : "");
		}
	}
};
struct Def { string name, text; int kind; bool dep = false; }; // 0 int, 1 float, 2 string, 3 macro (nargs in text's use), 4 label
void gen_chain(Rng &r, uint64_t seed, vector<Case> &out) {
	Case c; c.prop = "C13"; c.kind = "chain"; c.seed = r.next() >> 1;
	int stages = 2 + (r.chance(1, 2) ? 0 : 1 + r.below(2));
	vector<Def> known;             // visible to the next stage, with definitions that stand for them
	std::map<string, int> nargs; std::set<std::pair<string, string>> calls;
	bool viasyms = false; string prev;
	const bool h6309 = r.chance(1, 3);
	static const char *fl[] = {"1.5", "7/3", "0.1", "100/8", "22/7*2", "3.25", "1/1024", "123456.789", "-(2.75)", "1/3*1000000000", "0.5", "2.0", "10/4", "1/7", "4/2", "1000000*1000000*0.5", "0.001", "1/3/1000000", "65535.99999", "3/2*3/2*3/2*3/2", "1/3/1000000000000000000*0.000000001", "0.00000000000000000000000000000000000001/7", "1/7/1000000000000000000/1000000000000000000/1000000000000000000"};
	static const char *in[] = {"0", "1", "-1", "255", "256", "65535", "-32768", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "$123456789ab", "9223372036854775807", "-9223372036854775807-1", "$7fffffffffffffff", "-5", "'A", "%1011", "@777"};
	static const char *st[] = {"\"plain\"", "\"with space\"", "\"say \\\"hi\\\"\"", "/slash \"quoted\"/", "\"back\\\\slash\"", "\"semi;colon\"", "\"tab\\tx\"", "\"nl\\nx\"", "\"it's\"", "\"a,b\"", "\"100%\"", "\"x /y/ z\"", "\"*star\"", "\"#$@\"", "\"\\\\\"", "\"e\\x41f\"", "\"&& \"", "\"tr \"", "\" \"", "\"\\r\"", "\"[0]\"", "\"''\"", "\"\\\"\"", "\"/abs/path\"", "\"/\"", "\"//\"", "/\"q\"/", "/\"/", "/x\"/", "\"a/\"", "\"'\"", "\"$12\"", "\"1\"", "\"0\"", "\"R\\&D\"", "\"\\&1x\"", "\"\\&{1}\""};
	for (int sgi = 0; sgi < stages; sgi++) {
		string pre = "s" + to_string(sgi), mainf = pre + "main.s";
		string body; vector<Def> own; int nd = r.chance(1, 15) ? 20 + r.below(120) : 1 + r.below(6);
		string U = string(1, "pqrt"[sgi]);
		for (int i = 0; i < nd; i++) {
			Def d; d.name = U + "_n" + to_string(i) + (r.chance(1, 3) ? ".v" : ""); if (r.chance(1, 12)) { static const char *tail[] = {"_X", "_x", ".", "..", "__", "_9"}; d.name += r.chance(1, 3) ? string(r.below(300), 'Y') : tail[r.below(6)]; } if (r.chance(1, 20)) d.name[0] = toupper(d.name[0]); d.kind = r.below(r.chance(1, 4) ? 6 : 5);
			switch (d.kind) {
			case 0: d.text = d.name + " equ " + ((d.dep = r.chance(1, 6) && !known.empty() && known[0].kind == 0) ? known[0].name + "+1" : in[r.below(20)]) + "\n"; break;
			case 1: d.text = d.name + " equ " + fl[r.below(sizeof fl / sizeof *fl)] + "\n"; break;
			case 2: d.text = d.name + " equ " + (r.chance(1, 4) ? Operands{r, 0}.str() : st[r.below(sizeof st / sizeof *st)]) + "\n"; break;
			case 3: {
				int na = r.below(3); nargs[d.name] = na; string m = d.name + " macro\n"; int k = 1 + r.below(5);
				for (int j = 0; j < k; j++) if (r.chance(1, 3)) m += Operands{r, na}.line() + "\n"; else switch (na ? r.below(23) : r.below(14) < 11 ? r.below(11) : 18 + r.below(3)) {
					case 0: m += "\tnop\n"; break;
					case 1: m += string("\tfcc ") + st[r.below(sizeof st / sizeof *st)] + "\n"; break;
					case 2: m += "\tldx #" + to_string(r.below(70000)) + "\n"; break;
					case 3: m += "\tlda [,x++]\n"; break;
					case 4: m += "1\tdeca\n\tbne 1b\n"; break;
					case 5: m += string("\tfdb ") + (r.chance(1, 2) ? "*+2" : "(5+3)*2-$10") + ",%101,@17,'a\n"; break;
					case 6: { string q; for (auto &x : known) if (x.kind == 0 || x.kind == 4) q = x.name; m += q.empty() ? "\tldb #<5\n" : "\tfdb " + q + "\n"; break; }
					case 7: m += "; comment only\n\tleax -5,y\n"; break;
					case 8: case 9: { static const char *rich[] = {"\tlda\t,--x", "\tldd\t,-y", "\tstx\t,u++", "\tlda\t,s+", "\tldb\t<<5,x", "\tldb\t<5,x", "\tldb\t>5,y", "\tldx\t[,--u]", "\tldx\t[>5,s]", "\tldx\t[<5,s]", "\tfcb\t-5,-(3+2),~(1+2)*3,!0", "\tldx\t#-5", "\tleay\t-5,y", "\tfcb\t1-(-5),(2-3)-4,2-(3-4)", "\tfcb\t(1<2)&(3>=2),1<<3|1,7^2", "\tfcb\t12/4*3,12/(4*3),7 % 4", "\tfcc\t/q/,\"it's\"", "\tpshs\ta,b,x", "\texg\tx,d", "\tlda\t<$20", "\tlda\t>$0020", "\tlbra\t1f\n1\tnop", "\tldd\t#1.5*4", "\tfdb\t*,*+2", "\tlda\tb,x", "\tjmp\t[$1234]", "1\tdecb\n\tbne\t1b", "\tfqb\t1.0000001*10000000,0.123456789012*1000000", "\tfqb\t123456.7890625*128", "\tfcb\t1>2?3:4,1<2?3:4", "\tfcb\t5-3-1,5-(3-1),8/4/2*8,-(-3)", "\tldx\t#$ffff", "\tfcb\t(1||0)&&!1", "\tlda\t>-5,x", "\tfcb\t\"a\",'b,'c'", "\tfqb\t-2147483648,-1,0-$7fffffff", "\tleax\t*+5,pcr", "\tldd\t<<(-5),x"};
						m += rich[r.below(38)]; m += "\n"; break; }
					case 10: { static const char *rich3[] = {"\ttfm\tx-,u-", "\ttfm\tx+,y+", "\ttfm\ts,x+", "\ttfm\ty+,d", "\tldq\t#$12345678", "\tlda\te,x", "\tldd\t,w++", "\tldd\t,--w", "\tband\ta,1,3,<$20", "\toim\t#5,<$20", "\taim\t#$f0,5,x"}; m += string(h6309 ? rich3[r.below(11)] : "\tsync") + "\n"; break; }
					case 18: m += r.chance(1, 2) ? "2\n\tbra 2b\n" : "\tbra 3f\n\tnop\n3 \n\tclra\n"; break;
					case 19: { string q; for (auto &x : known) if (x.kind == 3) q = x.name; for (auto &x : own) if (x.kind == 3 && r.chance(1, 2)) q = x.name; m += q.empty() ? "\tclrb\n" : "\t" + q + (nargs[q] == 0 ? "" : nargs[q] == 1 ? r.chance(1, 2) ? " 3" : " 1+2" : r.chance(1, 2) ? " 2,1" : " 2*1,1+1") + "\n"; calls.insert({d.name, q}); break; }
					case 20: { static const char *ps[] = {"\trmb 3", "\tfill 7,3", "\talign 2", "\tfcn /x/", "\tfcs \"ab\"", "\tzmb 2", "\trzb 2,9", "\tfdb 1,2,3", "\tfcb 1,,2", "; only a remark", "", "* remark too", "\tsetdp 0", "\tif 1", "\tfcc \"a\",13,\"b\"", "\tlda #'a' trailing words"}; string q = ps[r.below(16)]; if (q == "\tif 1") q += "\n\tcoma\n\tendif"; m += q + "\n"; break; }
					case 21: { string q; for (auto &x : known) if (x.kind == 3 && nargs[x.name]) q = x.name; m += q.empty() ? "\tadda #\\1\n" : "\t" + q + " \\1" + (nargs[q] > 1 ? ",\\1+1" : "") + "\n"; calls.insert({d.name, q}); break; }
					case 22: m += "\tfcc /a&{1}b/,\"\\1\"\n"; break;
					case 11: m += "\tlda #\\1\n"; break;
					case 12: m += "\tfcc \"a&1b\"\n"; break;
					case 13: m += "\tfdb \\1+1,\\{1}*2\n"; break;
					case 14: m += "\tif \\1>3\n\tnop\n\telse\n\tinca\n\tendif\n"; break;
					case 15: m += "\tfcb \\1 ; trailing\n"; break;
					case 16: m += "\tfcc \"<&{1}>\",\\{1}\n"; break;
					case 17: m += string("\tfcb ") + (na > 1 ? "\\2" : "\\1") + ">>1,-\\1,~\\1\n"; break;
				}
				d.text = m + "\tendm\n"; break; }
			case 4: d.text = ""; break;
			case 5: { static const char *rg[] = {"x", "y", "u", "s", "X", "y"}; d.text = d.name + " equ " + rg[r.below(6)] + "\n"; break; }
			}
			own.push_back(d);
		}
		string defs, labels; for (auto &d : own) if (d.kind != 4) defs += d.text; else labels += d.name + "\tfcb " + to_string(r.below(256)) + "\n";
		string use;
		auto uses = [&](const Def &d) {
			switch (d.kind) {
			case 0: case 4: switch (r.below(3)) { case 0: use += "\tfqb " + d.name + "\n"; break; case 1: use += "\tfdb " + d.name + ">>16," + d.name + "/3," + d.name + "==0\n"; break; default: use += "\tldx #" + d.name + "&$ffff\n"; } break;
			case 1: use += "\tfqb " + d.name + "*1000000," + d.name + "*$10000," + d.name + "/7*1000\n"; if (r.chance(1, 3)) use += "\tfcb " + d.name + "/1\n"; if (r.chance(1, 2)) { string ex = d.text.substr(d.text.find(" equ ") + 5); ex.pop_back(); use += "\tfcb (" + d.name + "==(" + ex + "))\n"; } break;
			case 2: use += string("\t") + (r.chance(1, 2) ? "fcc" : "fcn") + " " + d.name + "\n"; break;
			case 5: switch (r.below(3)) { case 0: use += "\tlda ," + d.name + "\n"; break; case 1: use += "\tleax 5," + d.name + "\n"; break; default: use += "\ttfr d," + d.name + "\n"; } break;
			case 3: use += "\t" + d.name + (nargs[d.name] == 0 ? "" : nargs[d.name] == 1 ? string(" ") + (r.chance(1, 2) ? "5" : "2") : string(" ") + (r.chance(1, 2) ? "9,4" : "1,8")) + "\n"; break;
			}
		};
		if (prev.empty()) for (auto &d : own) if (d.kind != 4 && r.chance(1, 4)) uses(d);
		for (auto &d : known) if (r.chance(5, 6)) uses(d);
		string org = "\torg " + string(1, "12345678"[r.below(8)]) + "000\n";
		string exp; vector<Def> outd;
		bool usesyms = r.chance(1, 4);
		vector<Def> all = known; all.insert(all.end(), own.begin(), own.end());
		std::set<string> callee; for (auto &q : calls) callee.insert(q.second);
		for (auto &d : all) if (r.chance(4, 5) || callee.count(d.name)) { if (usesyms && d.kind == 3) continue; exp += "\texport\t" + d.name + "\n"; if (!usesyms) outd.push_back(d); }
		if (usesyms) for (auto &d : all) if (d.kind != 3) outd.push_back(d);
		bool defs_first = r.chance(1, 2);
		string inc = prev.empty() ? "" : "\tinclude \"" + prev + "\"\n";
		string rest = (defs_first ? defs : "") + org + use + labels + (defs_first ? "" : defs) + exp;
		// macros must precede their uses: keep those defined here unused before
		string main = inc + rest, ref; for (auto &d : known) ref += d.text;
		ref += rest;
		string unfaith;
		if (sgi == stages - 1 && seed % 8 == 7) { static const char *bad[] = {"badv equ (1/0)*1.0\n\texport badv\n", "badv equ 1.0/0\n\texport badv\n", "\texport nosuch\n", "badv equ 0.0/0\n\texport badv\n"}; (void)bad; unfaith = "\texport nosuch\n"; main += unfaith; }
		c.files[mainf] = main;
		NodeCfg n; n.argv = {"asm6809", "-B", "-o", pre + ".bin", "-E", pre + ".exp", "-s", pre + ".sym"}; if (r.chance(1, 2)) n.argv.insert(n.argv.end(), {"-l", pre + ".lst"});
		if (h6309) n.argv.push_back("-3");
		n.argv.push_back(mainf); environment(r, n);
		c.nodes.push_back(n);
		if (!prev.empty()) c.par["ref" + to_string(sgi)] = ref;
		if (!unfaith.empty()) { c.par["expect" + to_string(sgi)] = "fail"; c.kind = "unfaithful export"; }
		// labels get their address as definition
		FS f; for (auto &e : c.files) f.put(e.first, e.second);
		f.put("ref.s", prev.empty() ? main : ref);
		vector<string> av = n.argv; av.back() = "ref.s";
		model::Pred pr = model::predict(f, av);
		known.clear();
		for (auto &d : outd) {
			Def e = d;
			if (d.kind == 4 || d.dep) { auto it = pr.syms.find(d.name); if (!pr.ok() || it == pr.syms.end() || it->second.t != model::Val::Int) { if (unfaith.empty()) return; continue; } e.dep = false; e.text = d.name + " equ " + (it->second.i == INT64_MIN ? "-9223372036854775807-1" : to_string((long long)it->second.i)) + "\n"; }
			known.push_back(e);
		}
		prev = pre + (usesyms ? ".sym" : ".exp");
		(void)viasyms;
	}
	if (seed % 2) { // stages that are killed, run out of disk or fail, and are repeated
		c.kind = c.kind == "chain" ? "chain with faults" : c.kind;
		for (int s = 0; s < stages; s++) {
			Case one = c; one.nodes = {c.nodes[s]}; one.faults.clear();
			// output operations are the last ones whatever the state of the inputs
			int n = r.below(3);
			for (int k = 0; k < n; k++) {
				static const char *ext[] = {".exp", ".sym", ".bin"}; string path = "s" + to_string(s) + ext[r.below(3)];
				Fault f; f.node = s; f.path = path; f.wr = true; f.at = 0; f.mode = r.below(2);
				switch (r.below(6)) {
				case 0: f.k = FK::OpenErr; f.err = one_of(r, OW_ERR); break;
				case 1: f.k = FK::WriteErr; f.err = one_of(r, W_ERR); break;
				case 2: f.k = FK::WriteShortErr; f.err = ENOSPC; f.arg = r.below(60); break;
				case 3: f.k = FK::CloseErr; f.err = one_of(r, W_ERR); break;
				case 4: f.k = FK::KillTorn; f.arg = r.below(60); break;
				case 5: f.k = FK::AllocOnce; f.path = ""; f.wr = false; f.at = r.below(400); f.mode = 0; break;
				}
				c.faults.push_back(f);
			}
			if (n && r.chance(1, 3)) c.par["cap" + to_string(s)] = to_string(1 + r.below(300));
		}
	}
	out.push_back(c);
}

// ---- C14 ------------------------------------------------------------------

void gen_crash(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = rich_inputs(r); f.exps = r.chance(2, 3);
	Proj p = seed % 8 == 7 ? layout(r) : gen::program(r, f);
	gen::all_outputs(r, p, 4);
	if (seed % 11 == 10) gen::inject_error(r, p);
	Case c = base("C14", "killed", r.next() >> 1, p);
	if (r.chance(1, 2)) old_outputs(r, c, p, 1, 2);
	if (r.chance(1, 3)) { // things lying about that are nobody's business
		static const char *by[] = {"asm6809.log", "core", "a.out", "main.s~", "main.s.bak", "main.lst", "main.map", "main.o", "out.tmp", "out.img.tmp", "out.img~", "out.img.bak", "tmp", ".asm6809", ".asm6809rc", "listing", "symbols", "out", "asm6809.tmp", "main.bin", "out.img.lock", "errors"};
		for (int i = 0; i < 8; i++) { string b = by[r.below(22)]; if (!c.files.count(b)) { bool mine = false; for (auto &o : p.outputs()) if (o == b) mine = true; if (!mine) c.files[b] = "bystander " + b + "\n"; } }
	}
	NodeCfg clean = c.nodes[0];
	World w = profile(c);
	if (w.hist.empty()) return;
	vector<const EvRec *> wr; for (auto &e : w.hist) if (e.wr && e.t != Ev::Std) wr.push_back(&e);
	for (int i = 0; i < 4; i++) {
		Case d = c; d.nodes.clear(); d.seed = r.next() >> 1;
		int n = 1 + r.below(3);
		for (int k = 0; k < n; k++) {
			NodeCfg x = clean; environment(r, x); if (r.chance(1, 3)) x.write_max = 1 + r.below(40);
			if (r.chance(1, 6)) { for (auto &a : x.argv) if (a.size() == 2 && a[0] == '-' && strchr("BDCSH", a[1])) { a[1] = "BDCSH"[r.below(5)]; break; } }
			d.nodes.push_back(x);
			const EvRec &e = !wr.empty() && r.chance(3, 4) ? *wr[r.below(wr.size())] : w.hist[r.below(w.hist.size())];
			Fault q;
			switch (r.below(6)) {
			case 0: q = at_event(FK::Kill, e.idx, k); break;
			case 1: q = at_event(FK::KillAfter, e.idx, k); break;
			case 2: case 3: q = e.wr ? at_path(FK::KillTorn, e, 0, k) : at_event(FK::Kill, e.idx, k); q.arg = r.below(std::max<long>(1, e.n)); if (e.wr && e.t != Ev::Write) q = at_event(FK::KillAfter, e.idx, k); break;
			case 4: q = at_path(e.t == Ev::Open ? FK::OpenErr : e.t == Ev::Write ? FK::WriteErr : e.t == Ev::Close ? FK::CloseErr : FK::ReadErr, e, EIO, k); q.mode = 1; d.kind = "killed or failed"; break;
			case 5: q = at_event(r.chance(1, 2) ? FK::AllocOnce : FK::AllocForever, r.below(std::max<long>(1, w.res[0].allocs)), k); d.kind = "killed or failed"; break;
			}
			d.faults.push_back(q);
		}
		NodeCfg last = clean; if (r.chance(1, 2)) environment(r, last);
		d.nodes.push_back(last);
		if (r.chance(1, 2)) { d.par["power"] = "1"; d.kind += ", power loss"; }
		out.push_back(d);
	}
}

// ---- C15 ------------------------------------------------------------------

void gen_story(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r); if (seed % 3 == 0) f.warn = true;
	Proj p = gen::program(r, f);
	gen::all_outputs(r, p, 3);
	string kind = "valid";
	int k = seed % 6;
	if (k == 1 || k == 2) { int n = 1 + (k == 2 ? r.below(3) : 0); for (int i = 0; i < n; i++) gen::inject_error(r, p, i ? -1 : (int)(seed / 6 % gen::error_kinds)); kind = n > 1 ? "several errors" : "one error"; }
	if (k == 3) { // options
		static const vector<vector<string>> bad = {{"--bogus"}, {"-Z"}, {"-P"}, {"--max-passes", "x"}, {"-e", "NoSuch"}, {"-e", "1+"}, {"-d", "1x=5"}, {"-d", "a=b=c"}, {"-d", "dupl=1", "-d", "dupl=2"}, {"--exec=$10000"}, {"-e", "70000"}, {"-e", "-1"}, {"-o"}, {"-d", ""}, {"-d", "x=\"s\""}, {"-e", "("}, {"-e", ""}, {"--exec"}};
		auto &b = bad[seed / 6 % bad.size()];
		p.opts.insert(p.opts.end(), b.begin(), b.end()); kind = "options: " + join(b);
		if (r.chance(1, 12)) { p.mains.clear(); kind = "no input files"; }
	}
	if (k == 5) { for (auto &m : p.mains) if (r.chance(1, 2)) damage(r, p.files[m]); kind = "damaged"; }
	if (r.chance(1, 60)) { static const int n[] = {255, 256, 999, 9999, 32767, 65535, 65536, 70000}; auto &m = r.pick(p.mains); p.files[m] = string(n[r.below(8)], '\n') + p.files[m]; }
	Case c = base("C15", kind, r.next() >> 1, p);
	environment(r, c.nodes[0]);
	static const char *var[] = {"quiet", "verbose", "stderr", ""};
	c.par["vary"] = var[r.below(4)];
	if (k == 4) { // failing output
		vector<Case> t; output_faults(r, t, c, p.outputs(), 4); for (auto &x : t) { x.kind = "output: " + x.kind; if (r.chance(1, 3) && !x.faults.empty() && t.size() > 1 && !t[0].faults.empty()) { Fault g = t[0].faults[0]; x.faults.push_back(g); } out.push_back(x); }
	}
	out.push_back(c);
	if (k != 4) { Case d = c; d.par["vary"] = var[r.below(3)]; environment(r, d.nodes[0]); out.push_back(d); }
}

// ---- C21 ------------------------------------------------------------------

void gen_files(Rng &r, uint64_t seed, vector<Case> &out) {
	Proj p; string kind;
	int k = seed % 6;
	auto num = [](int i) { return to_string(i); };
	auto piece = [&](int i) { // some source text with nothing in common with the others
		string I = num(i), s;
		for (int n = 1 + r.below(4); n > 0; n--) switch (r.below(6)) {
			case 0: s += "\tnop\n"; break;
			case 1: s += "\tfcb\t" + I + "&255\n"; break;
			case 2: s += "k" + I + "_" + num(n) + "\tldx\t#k" + I + "_" + num(n) + "\n"; break;
			case 3: s += "; " + string(r.below(r.chance(1, 10) ? 9000 : 60), 'c') + "\n"; break;
			case 4: s += "\tfcc\t\"file " + I + "\"\n"; break;
			case 5: s += "\tlda\tfwd\n"; break;
		}
		if (r.chance(1, 4)) s += r.chance(1, 3) ? "\tEND\t$200\n\tthis is never read\n" : "\tend\n"; // the rest of the file goes unread
		if (r.chance(1, 8)) { string t; for (char ch : s) { if (ch == '\n') t += '\r'; t += ch; } s = t; }
		if (r.chance(1, 6)) s.pop_back(); // last line without its end
		if (r.chance(1, 20)) s = "";
		return s;
	};
	auto chain = [&](string &t) { // so many more passes
		int n = 1 + r.below(8); string s;
		for (int i = 0; i < n; i++) s += "pz" + num(i) + " equ pz" + num(i + 1) + "\n";
		t = s + "pz" + num(n) + " equ 3\n" + t;
	};
	if (k == 0) {
		kind = "many source files"; int n = 5 + r.below(40);
		for (int i = 0; i < n; i++) { string f = "m" + num(i) + ".s"; p.files[f] = (i ? "" : "\torg\t$100\n") + piece(i); p.mains.push_back(f); if (r.chance(1, 8)) p.mains.push_back(p.mains[r.below(p.mains.size())]); }
		p.files[p.mains[0]] = "fwd equ $40\n" + p.files[p.mains[0]];
		set_fmt(p, r.below(5));
		if (p.mains.size() != std::set<string>(p.mains.begin(), p.mains.end()).size()) for (auto &f : p.files) { string t; for (auto &l : model::split_lines(f.second)) if (l.empty() || (l[0] != 'k' && l[0] != 'f')) t += l + "\n"; f.second = t; } // read twice: no definitions
	} else if (k < 5) {
		p.mains = {"main.s"}; string s = "\torg\t$200\nfwd equ $40\n";
		int n = 4 + r.below(r.chance(1, 4) ? 120 : 24);
		if (k == 1) {
			kind = "many included files"; bool deep = r.chance(1, 2), by = r.chance(1, 2);
			if (by) s += "read\tmacro\n\tnop\n\tinclude\t\\1\n\tendm\n";
			for (int i = 0; i < n; i++) {
				string f = (r.chance(1, 5) ? "sub/i" : "i") + num(i) + (r.chance(1, 5) ? "" : ".s"), t = piece(i);
				if (deep) { int d = r.below(8); string q = f; for (int j = 0; j < d; j++) { string g = "i" + num(i) + "_" + num(j) + ".s"; if (!t.empty() && t.back() != '\n') t += "\n"; p.files[q] = t + "\tinclude\t\"" + g + "\"\n\tnop\n"; q = g; t = "\tfcb\t" + num(j) + "\n"; } p.files[q] = t; }
				else p.files[f] = t;
				s += by && r.chance(1, 2) ? "\tread\t\"" + f + "\"\n" : "\tinclude\t\"" + f + "\"\n";
			}
		} else if (k == 2) {
			kind = "many binary files"; bool same = r.chance(1, 3);
			for (int i = 0; i < n; i++) {
				string f = same ? "b.bin" : "b" + num(i) + ".bin"; static const int z[] = {0, 1, 2, 255, 256, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 9000, 16384};
				if (!p.files.count(f)) { p.files[f] = gen::junk(r, z[r.below(n > 40 || r.chance(1, 2) ? 9 : n < 8 ? 15 : 11)]); p.bins.push_back(f); }
				s += "\tincludebin\t\"" + f + "\"\n";
				if (r.chance(1, 5)) s += "\tfdb\t*\n";
			}
		} else if (k == 3) {
			kind = "files by way of macros and conditions";
			p.files["inc.s"] = "\tfcb\t1,2,3\n"; p.files["inc.bin"] = gen::junk(r, r.below(40));
			s += "both\tmacro\n\tinclude\t\"inc.s\"\n\tincludebin\t\"inc.bin\"\n\tendm\n";
			for (int i = 0; i < n; i++) s += r.chance(1, 3) ? "\tif\tpick==" + num(i % 3) + "\n\tboth\n\telse\n\tincludebin\t\"inc.bin\"\n\tendif\n" : r.chance(1, 2) ? "\tboth\n" : "\tincludebin\t\"inc.bin\"\n";
			s += "pick equ 1\n"; p.bins = {"inc.bin"};
		} else {
			kind = "files that cannot be used"; 
			p.files["good.s"] = "\tnop\n"; p.files["good.bin"] = "x"; p.files["bad.s"] = "\tlda\n"; p.files["mid.s"] = "\tfcb\t1\n\tnosuch\n\tfcb\t2\n"; p.files["un.s"] = "x equ (\n";
			static const char *t[] = {"include\t\"good.s\"", "includebin\t\"good.bin\"", "include\t\"bad.s\"", "include\t\"mid.s\"", "include\t\"un.s\"", "include\t\"missing.s\"", "includebin\t\"missing.bin\"", "include\t\"dir\"", "includebin\t\"dir\"", "include\t\"secret\"", "includebin\t\"secret\""};
			int a = r.below(11), b = r.below(11);
			for (int i = 0; i < n; i++) s += string("\t") + t[r.chance(1, 2) ? a : r.chance(1, 2) ? b : r.below(11)] + "\n";
		}
		if (r.chance(1, 2)) chain(s);
		p.files["main.s"] = s; set_fmt(p, r.below(5));
		if (r.chance(1, 4)) p.mains.push_back("main2.s"), p.files["main2.s"] = "\tfcb\t99\n";
	} else {
		kind = "any program";
		Feat f = rich_inputs(r); p = gen::program(r, f);
		if (r.chance(1, 3)) chain(p.files[p.mains[0]]);
		if (r.chance(1, 4)) gen::inject_error(r, p);
	}
	gen::all_outputs(r, p, 3);
	for (int i = 0; i < 2; i++) {
		Case c = base("C21", kind, r.next() >> 1, p);
		if (k == 4) { c.dirs.insert("dir"); c.files["secret"] = "x"; c.noread.insert("secret"); }
		environment(r, c.nodes[0]);
		if (i && r.chance(1, 2)) old_outputs(r, c, p, 1, 2);
		static const int lim[] = {8, 8, 9, 12, 16, 32};
		c.par["fds"] = to_string(lim[r.below(6)]);
		if (i && r.chance(1, 3)) { // one of the files fails, now and then or from then on
			World w = profile(c); vector<const EvRec *> rd; for (auto &e : w.hist) if (e.t != Ev::Std && (e.t == Ev::Open || e.t == Ev::Read || e.t == Ev::Close)) rd.push_back(&e);
			if (!rd.empty()) { const EvRec &e = *rd[r.below(rd.size())]; Fault q = at_path(e.t == Ev::Open ? FK::OpenErr : e.t == Ev::Read ? FK::ReadErr : FK::CloseErr, e, EIO); q.mode = r.below(2); c.faults.push_back(q); c.kind += ", one failing"; }
		}
		if (i && r.chance(1, 5)) { c.nodes[0].argv.insert(c.nodes[0].argv.begin() + 1, {"-P", to_string(1 + r.below(12))}); }
		out.push_back(c);
	}
}

// ---- C22 ------------------------------------------------------------------

void gen_heap(Rng &r, uint64_t seed, vector<Case> &out) {
	Feat f = gen::swarm(r); if (seed % 2) f.lines = std::min(f.lines, 25);
	Proj p = gen::program(r, f); string kind = "one value never settles";
	string s = "\tsection \"Wob\"\n\torg 0\nWb1 rmb 3-Wb3\nWb2 equ *\nWb3 equ Wb2-Wb1\n\tsection \"CODE\"\n";
	if (seed % 3) { // a piece that only every other pass sees
		kind = "a piece comes and goes";
		Feat g = gen::swarm(r); g.lines = 1 + r.below(25); g.prefix = "tg"; g.incl = g.bins = g.multi = g.end = g.afterend = g.bulk = g.defs = false; g.isa3 = f.isa3;
		Proj q = gen::program(r, g);
		p.files["tog.s"] = q.files[q.mains[0]];
		s += string("\tif Wb3") + (r.chance(1, 2) ? ">" : "<") + "1\n\tinclude \"tog.s\"\n\tendif\n";
	}
	if (seed % 2) { // operands of every type, some of them only known later
		kind += ", operands of all types";
		string t, d, m; zoo(r, p, t, d, m);
		string &g = seed % 3 && r.chance(1, 2) ? p.files["tog.s"] : s;
		if (&g != &s && !g.empty() && g.back() != '\n') g += "\n";
		bool late = r.chance(1, 6);
		s += t; if (!late) s += d;
		g += m;
		if (late) s += d;
	}
	p.files[p.mains[0]] = s + p.files[p.mains[0]];
	gen::all_outputs(r, p, 3);
	Case c = base("C22", kind, r.next() >> 1, p);
	if (r.chance(1, 3)) environment(r, c.nodes[0]);
	out.push_back(c);
}

} // namespace

vector<Case> generate(const string &prop, uint64_t seed) {
	uint64_t h = seed * 0x9e3779b97f4a7c15ull + 11; for (char ch : prop) h = h * 131 + ch;
	Rng r(h);
	vector<Case> out;
	if (prop == "C01" || prop == "C02") gen_output(r, prop, seed, out);
	else if (prop == "C03") gen_input(r, seed, out);
	else if (prop == "C04") gen_delivery(r, seed, out);
	else if (prop == "C05") gen_damage(r, seed, out);
	else if (prop == "C06") gen_memory(r, seed, out);
	else if (prop == "C07") gen_untouched(r, seed, out);
	else if (prop == "C08") gen_env(r, seed, out);
	else if (prop == "C09") gen_settled(r, seed, out);
	else if (prop == "C10") gen_mixture(r, seed, out);
	else if (prop == "C11") gen_passes(r, seed, out);
	else if (prop == "C12") gen_alone(r, seed, out);
	else if (prop == "C13") gen_chain(r, seed, out);
	else if (prop == "C14") gen_crash(r, seed, out);
	else if (prop == "C15") gen_story(r, seed, out);
	else if (prop == "C21") gen_files(r, seed, out);
	else if (prop == "C22") gen_heap(r, seed, out);
	return out;
}

const char *rule(const string &p) {
	if (p == "C01") return "seeded source programs (language-wide and layout-centred: edge sizes, gaps, descending origins, sections, all five formats) run with random read/write sizes, and again with an open/write/short write/close failure or a full disk at a random operation on the image file; non-trivial: exit 0 and the reference assembler determines the expected image, or an image operation failed";
	if (p == "C02") return "as C01, for listing, exports and symbols files; non-trivial: exit 0 and the reference assembler determines the expected contents, or an operation on one of these files failed";
	if (p == "C03") return "seeded programs with includes and binaries; an open or read failure at a random operation of the run (any file, any pass, single or lasting), missing files, directories, no permission; non-trivial: an input operation really failed";
	if (p == "C04") return "seeded programs run as given and delivered differently (read sizes, CR LF, unterminated last line, command line split and join, INCLUDE split at a random line, padding that moves a random line onto a buffer boundary, long comments and white space, sources from pipes, outputs into pipes); non-trivial: the delivery applies to the program";
	if (p == "C05") return "seeded programs with random damage to one source file; every one counts";
	if (p == "C06") return "seeded programs (valid, failing, damaged); the n-th allocation, or that and all later ones, fails; non-trivial: that allocation happened";
	if (p == "C07") return "seeded programs with injected errors, input failures and kills while input is read, with old outputs present; non-trivial: the run failed or was killed before output begins";
	if (p == "C08") return "seeded programs (valid, failing, damaged) run in a plain and three perturbed environments (heap addresses and fill, moving reallocations, stack contents, errno, environment variables, pid, clock, stale outputs); every one counts";
	if (p == "C09") return "seeded programs with forward references, also with binary inputs that change size between passes, larger pass limits and unrelated pass-forcing chains; non-trivial: exit 0 and compared with the reference assembler's settled values or with the run under the larger limit";
	if (p == "C10") return "seeded programs whose source, include and binary files are rewritten, replaced, truncated, appended to or removed by another process at random operations of the run; non-trivial: a change struck";
	if (p == "C11") return "seeded programs with known number of passes under limits around it, values that never settle, binary inputs changing in every pass, endless inclusion and macro expansion, unbounded sizes; non-trivial: the reference assembler or the construction determines whether the run must succeed";
	if (p == "C12") return "2 to 5 processes on shared and separate sources, seeded interleaving of their operations, faults and kills on some; compared with each alone; non-trivial: at least two context switches";
	if (p == "C13") return "chains of 2 to 4 programs, each including the exports or symbols file of the one before, with faults and repeated attempts; compared with the same programs given the original definitions; non-trivial: a consuming stage was compared";
	if (p == "C14") return "one to three runs killed (also inside a write) or failed at random operations, optional power loss on the output files, then an undisturbed run; non-trivial: a fault struck";
	if (p == "C15") return "seeded programs with none, one or several errors of 97 kinds, option errors, output failures and damage, with -q, -v or a broken stderr; every finished run counts";
	if (p == "C21") return "programs made of many source, include and binary files (also nested, in macros, in conditions, in many passes, unusable or failing), run with a limit of 8 to 32 open files and without; non-trivial: more files are opened in the course of the run than may be open at once";
	if (p == "C22") return "seeded programs with a value that never settles, and pieces that only every other pass sees, under limits of 31 and 91 passes; non-trivial: both limits were used up";
	return "";
}

} // namespace props
