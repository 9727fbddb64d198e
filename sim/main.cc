// Command line of the simulator.  Used by check.py; see DESIGN.md.
#include "props.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <ctime>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using std::string; using std::vector; using std::to_string;
using props::Case; using props::Verdict;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static string js(const string &s) {
	string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

// A check in a child of its own: nothing it does can touch this process.
static bool forked(const Case &c, bool trace, Verdict &v) {
	int p[2]; if (pipe(p)) return false;
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) return false;
	if (!pid) {
		close(p[0]); alarm(240);
		props::want_trace = trace;
		Verdict x = props::check(c);
		string o = to_string(x.bad) + "\n" + hex(x.hash) + "\n" + to_string(x.cls.size()) + "\n" + x.cls + to_string(x.msg.size()) + "\n" + x.msg;
		for (auto &t : x.trace) o += t + "\n";
		size_t i = 0; while (i < o.size()) { ssize_t n = ::write(p[1], o.data() + i, o.size() - i); if (n <= 0) break; i += n; }
		_exit(0);
	}
	close(p[1]);
	string o; char b[65536]; ssize_t n;
	while ((n = ::read(p[0], b, sizeof b)) > 0) o.append(b, n);
	close(p[0]);
	int st; waitpid(pid, &st, 0);
	if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM) {
		// the simulated process damaged the simulator itself
		v = Verdict(); v.bad = true; v.hash = 0x51600000 + WTERMSIG(st);
		v.cls = "wild"; v.msg = string("the simulated process destroys memory that is not its own and brings the simulator down: ") + strsignal(WTERMSIG(st));
		return true;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st)) return false;
	std::istringstream in(o); string l; size_t k;
	std::getline(in, l); v.bad = l == "1"; std::getline(in, l); v.hash = strtoull(l.c_str(), nullptr, 16);
	std::getline(in, l); k = strtoul(l.c_str(), nullptr, 10); v.cls.resize(k); in.read(&v.cls[0], k);
	std::getline(in, l); k = strtoul(l.c_str(), nullptr, 10); v.msg.resize(k); in.read(&v.msg[0], k);
	v.trace.clear(); while (std::getline(in, l)) v.trace.push_back(l);
	return true;
}

static Case minimise(Case c, const string &cls, double budget, long &tries) {
	double end = now() + budget;
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (auto &d : props::shrinks(c)) {
			if (now() > end) break;
			tries++;
			Verdict v;
			if (forked(d, false, v) && v.bad && v.cls == cls) { c = d; progress = true; break; }
		}
	}
	return c;
}

static string describe(const Case &c) {
	string s = c.prop + " " + c.kind + " seed=" + to_string(c.seed);
	for (size_t i = 0; i < c.nodes.size(); i++) { s += " | p" + to_string(i) + ":"; for (auto &a : c.nodes[i].argv) s += " " + a; s += " (env " + to_string(c.nodes[i].env_seed) + " rd " + to_string(c.nodes[i].read_max) + " wr " + to_string(c.nodes[i].write_max) + ")"; }
	for (auto &f : c.faults) s += string(" | ") + fk_name[(int)f.k] + " p" + to_string(f.node) + " at " + to_string(f.at) + (f.path.empty() ? "" : " of " + f.path) + (f.on.empty() ? "" : " on open of " + f.on) + (f.err ? string(" ") + strerror(f.err) : "");
	if (c.capacity >= 0) s += " | capacity " + to_string(c.capacity);
	for (auto &p : c.par) if (p.second.size() < 40) s += " | " + p.first + "=" + p.second;
	size_t n = 0; for (auto &f : c.files) n += f.second.size();
	s += " | " + to_string(c.files.size()) + " files, " + to_string(n) + " bytes";
	if (s.size() > 900) s.resize(900);
	return s;
}

static int worker(int argc, char **argv) {
	if (argc < 10) return 2;
	string prop = argv[2]; uint64_t base = strtoull(argv[3], nullptr, 10); long first = atol(argv[4]), step = atol(argv[5]), count = atol(argv[6]);
	double secs = atof(argv[7]); string outf = argv[8], replay = argv[9];
	double t0 = now();
	long i = first, cases = 0, nontrivial = 0, verified = 0; string error, vio;
	std::unordered_set<uint64_t> keys; std::map<string, long> kinds; vector<string> samples;
	bool stop = false;
	const bool alone = getenv("SIM_FORK");
	int pfd = -1; if (const char *p = getenv("SIM_PROGRESS")) pfd = ::open(p, O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
	for (; i < count && !stop; i += step) {
		if (now() - t0 > secs) break;
		if (pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i); if (::pwrite(pfd, b, n, 0) < 0) pfd = -1; }
		uint64_t x = base + i * 0x9e3779b97f4a7c15ull; uint64_t mixed = Rng::splitmix(x);
		// strata come from the running number, everything else from the mixed seed
		uint64_t seed = (mixed << 20 >> 1 & ~0xfffffull) | (i & 0xfffff);
		for (auto &c : props::generate(prop, seed)) {
			Verdict v;
			if (!alone) v = props::check(c);
			else if (!forked(c, false, v)) { error = "seed " + to_string(seed) + " cannot be run"; stop = true; break; }
			cases++; kinds[c.kind]++;
			if (v.nontrivial && keys.insert(v.key).second) { nontrivial++; if (samples.size() < 4 && (nontrivial % 7 == 1)) samples.push_back(describe(c)); }
			if (v.bad) {
				Verdict a, b;
				if (!forked(c, false, a) || !forked(c, false, b)) { error = "confirmation of seed " + to_string(seed) + " failed"; stop = true; break; }
				if (!a.bad || !b.bad || a.hash != b.hash || a.cls != v.cls || a.hash != v.hash) { error = "seed " + to_string(seed) + " not reproducible: " + v.cls + ": " + v.msg + "; then " + a.cls + ", " + b.cls; stop = true; break; }
				long tries = 0;
				Case m = minimise(c, v.cls, 25, tries);
				Verdict f; if (!forked(m, true, f) || !f.bad || f.cls != v.cls) { m = c; forked(m, true, f); }
				std::ofstream o(replay); o << "# seed " << seed << ", " << tries << " candidates tried while minimising\n" << props::save(m, f); o.close();
				vio = "{\"seed\": " + to_string(seed) + ", \"class\": " + js(f.cls) + ", \"what\": " + js(f.msg) + ", \"case\": " + js(describe(m)) + ", \"replay\": " + js(replay) + "}";
				stop = true; break;
			}
			if (tainted) break;
			if (cases % 97 == 5 && !alone) { Verdict a = props::check(c); verified++; if (a.hash != v.hash || a.bad) { error = "seed " + to_string(seed) + ": two executions of one seed differ (" + c.kind + ")"; stop = true; break; } }
		}
		if (tainted) { i += step; break; }
	}
	std::ofstream o(outf);
	o << "{\"next\": " << i << ", \"done\": " << (i >= count ? "true" : "false") << ", \"wall\": " << now() - t0 << ", \"cases\": " << cases << ", \"nontrivial\": " << nontrivial << ", \"verified\": " << verified;
	o << ", \"runs\": " << stats.runs << ", \"events\": " << stats.events << ", \"steps\": " << stats.steps << ", \"sim_ns\": " << stats.sim_ns << ", \"allocs\": " << stats.allocs << ", \"switches\": " << stats.switches;
	o << ", \"short_reads\": " << stats.short_reads << ", \"short_writes\": " << stats.short_writes << ", \"nospc\": " << stats.nospc << ", \"emfile\": " << stats.emfile << ", \"crashes\": " << stats.crashes << ", \"hangs\": " << stats.hangs << ", \"moved_reallocs\": " << stats.moved_reallocs;
	o << ", \"fired\": {"; for (int k = 0; k < (int)FK::N; k++) o << (k ? ", " : "") << js(fk_name[k]) << ": " << stats.fired[k]; o << "}";
	o << ", \"kinds\": {"; bool f1 = true; for (auto &k : kinds) { o << (f1 ? "" : ", ") << js(k.first) << ": " << k.second; f1 = false; } o << "}";
	o << ", \"samples\": ["; for (size_t k = 0; k < samples.size(); k++) o << (k ? ", " : "") << js(samples[k]); o << "]";
	vector<uint64_t> cov; cov_dump(cov); o << ", \"cov\": ["; for (size_t k = 0; k < cov.size(); k++) o << (k ? "," : "") << cov[k]; o << "]";
	o << ", \"keys\": ["; size_t kn = 0; for (auto k : keys) o << (kn++ ? "," : "") << (k >> 12); o << "]";
	o << ", \"error\": " << js(error) << ", \"violation\": " << (vio.empty() ? "null" : vio) << "}\n";
	return 0;
}

static string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

static int replay(const char *file, bool quiet) {
	Case c; string cls; uint64_t hash = 0;
	if (!props::load(slurp(file), c, cls, hash)) { fprintf(stderr, "not a replay file: %s\n", file); return 2; }
	props::want_trace = !quiet;
	Verdict v; if (!forked(c, !quiet, v)) { fprintf(stderr, "replay failed to run\n"); return 2; }
	if (!quiet) for (auto &t : v.trace) puts(t.c_str());
	if (!v.bad) { printf("REPLAY property=%s: holds\n", c.prop.c_str()); return 0; }
	bool same = v.cls == cls && v.hash == hash;
	printf("REPLAY property=%s: %s: %s\n%s\n", c.prop.c_str(), v.cls.c_str(), v.msg.c_str(), same ? "identical to the recorded execution" : "DIFFERS from the recorded execution");
	return same ? 1 : 3;
}

static int calib(int argc, char **argv) {
	int from = argc > 2 ? atoi(argv[2]) : 0, to = argc > 3 ? atoi(argv[3]) : 100; int verbose = argc > 4 ? atoi(argv[4]) : 0;
	int ok = 0, fail = 0, unk = 0, bad = 0; std::map<string, int> uw;
	for (int s = from; s < to; s++) {
		Rng r(s * 7919 + 3);
		gen::Feat f = gen::swarm(r);
		gen::Proj p = gen::program(r, f);
		gen::all_outputs(r, p);
		if (r.chance(1, 6)) gen::inject_error(r, p);
		World w; for (auto &e : p.files) w.fs.put(e.first, e.second);
		FS before = w.fs.clone();
		NodeCfg c; c.argv = p.argv(); w.nodes.push_back(c);
		model::Pred pr = model::predict(before, c.argv);
		NodeRes &n = w.run1();
		string why; bool b = false;
		if (pr.st == model::Pred::UNKNOWN) { unk++; uw[pr.why.substr(0, 60)]++; }
		else if (pr.ok()) {
			ok++;
			if (!n.ok()) { b = true; why = "expected success, got " + n.brief() + " " + n.err.substr(0, 300); }
			else if (!model::image_matches(p.fmt, w.fs.get(p.out), pr, why) || !model::listing_matches(w.fs.get(p.list), pr, why) || !model::symbols_match(w.fs.get(p.syms), pr, why) || !model::exports_match(w.fs.get(p.exps), pr, why)) b = true;
			if (!b) for (int P = 2; P < pr.passes + 2; P++) {
				World w2; w2.fs = before.clone(); NodeCfg c2 = c; c2.argv.insert(c2.argv.begin() + 1, {"-P", to_string(P)}); w2.nodes.push_back(c2);
				NodeRes &m = w2.run1();
				if (m.ok() != (P >= pr.passes)) { b = true; why = "with -P " + to_string(P) + ": " + m.brief() + " but model passes " + to_string(pr.passes) + m.err; break; }
			}
		} else { fail++; if (!n.failed_cleanly()) { b = true; why = "expected failure (" + pr.why + "), got " + n.brief(); } }
		if (b) {
			bad++; printf("seed %d: %s\n", s, why.c_str());
			if (verbose) { for (auto &e : p.files) printf("--- %s\n%s", e.first.c_str(), e.second.size() > 8000 ? "..." : e.second.c_str()); for (auto &a : c.argv) printf("%s ", a.c_str()); puts(""); puts(n.err.c_str()); }
		}
		if (tainted) { puts("tainted"); break; }
	}
	printf("ok %d fail %d unknown %d bad %d edges %zu\n", ok, fail, unk, bad, cov_edges());
	for (auto &u : uw) printf("  unknown %d: %s\n", u.second, u.first.c_str());
	return bad != 0;
}

int main(int argc, char **argv) {
	string m = argc > 1 ? argv[1] : "";
	rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
	init();
	if (m == "worker") return worker(argc, argv);
	if (m == "replay" && argc > 2) return replay(argv[2], argc > 3);
	if (m == "calib") return calib(argc, argv);
	if (m == "rule" && argc > 2) { puts(props::rule(argv[2])); return 0; }
	if (m == "hash" && argc > 4) { // one line per case: identity of the execution
		for (uint64_t s = strtoull(argv[3], nullptr, 10); s < strtoull(argv[4], nullptr, 10); s++) { int k = 0; for (auto &c : props::generate(argv[2], s)) { Verdict v = props::check(c); printf("%llu %d %016llx %d\n", (unsigned long long)s, k++, (unsigned long long)v.hash, v.bad); } }
		return 0;
	}
	if (m == "show" && argc > 3) { // a case as replay file, without running it
		int want = argc > 4 ? atoi(argv[4]) : -1, k = 0;
		for (auto &c : props::generate(argv[2], strtoull(argv[3], nullptr, 10))) { if (want < 0 || want == k) { Verdict v; puts(describe(c).c_str()); if (want == k) fputs(props::save(c, v).c_str(), stdout); } k++; }
		return 0;
	}
	fprintf(stderr, "usage: sim worker|replay|calib|hash|show|rule ...\n");
	return 2;
}
