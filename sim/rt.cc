#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <getopt.h>
#include <fcntl.h>
#include <dirent.h>
#include <set>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
int asm_main(int argc, char **argv);
extern char __start_asm_data[] __attribute__((weak));
extern char __stop_asm_data[] __attribute__((weak));
extern char __start_asm_bss[] __attribute__((weak));
extern char __stop_asm_bss[] __attribute__((weak));
FILE *sim_stdin, *sim_stdout, *sim_stderr;
}

namespace sim {

const char *ev_name[] = {"open", "read", "write", "close", "rename", "unlink", "mkdir", "fsync", "truncate", "stat", "std", "other"};
const char *fk_name[] = {"open-error", "read-error", "write-error", "write-short-error", "close-error", "kill", "kill-torn-write",
	"kill-after", "alloc-fail-once", "alloc-fail-forever", "stderr-fail", "file-changed", "rename-error"};
FK fk_from(const std::string &s) {
	for (int i = 0; i < (int)FK::N; i++) if (s == fk_name[i]) return (FK)i;
	return FK::N;
}

Stats stats;
bool tainted = false;

// ---- FS -------------------------------------------------------------------

std::string FS::norm(const std::string &p) {
	std::string out;
	std::vector<std::string> parts;
	size_t i = 0;
	bool abs = !p.empty() && p[0] == '/';
	while (i <= p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string c = p.substr(i, j - i);
		if (c == "..") { if (!parts.empty() && parts.back() != "..") parts.pop_back(); else if (!abs) parts.push_back(c); }
		else if (!c.empty() && c != ".") parts.push_back(c);
		i = j + 1;
	}
	if (abs) out = "/";
	for (size_t k = 0; k < parts.size(); k++) { if (k) out += "/"; out += parts[k]; }
	if (out.empty()) out = ".";
	return out;
}
long FS::used() const { long u = 0; for (auto &e : names) u += e.second->data.size(); return u; }
void FS::put(const std::string &path, const std::string &data) {
	auto i = std::make_shared<Inode>(); i->data = data; i->id = ++ids; i->mtime = 900000000; names[norm(path)] = i;
}
std::string FS::get(const std::string &path) const {
	auto it = names.find(norm(path)); return it == names.end() ? std::string() : it->second->data;
}
FS FS::clone() const {
	FS f; f.capacity = capacity;
	for (auto &e : names) f.names[e.first] = std::make_shared<Inode>(*e.second);
	return f;
}

// ---- coverage and steps ---------------------------------------------------

static uint8_t *covmap; // indexed by (pc - text base)
static const size_t COVSZ = 1 << 22;
static size_t cov_n;
void cov_reset() { memset(covmap, 0, COVSZ); cov_n = 0; }
size_t cov_edges() { return cov_n; }
void cov_dump(std::vector<uint64_t> &out) { for (size_t i = 0; i < COVSZ; i++) if (covmap[i]) out.push_back(i); }

// ---- processes ------------------------------------------------------------

struct Node;
struct Stream {
	Node *node = nullptr;
	InodeP ino;
	std::string path;
	long off = 0;
	bool rd = false, wr = false, append = false, dead = false;
	int std_fd = -1; // 0,1,2 for the standard streams
	int pending_err = 0; // the next write fails with this
	int rec = -1; // index of the open's record
	FILE *f = nullptr;
	int fd = -1;
};

// stream on memory (open_memstream, fmemopen)
struct MemS { FILE *f = nullptr; char **bp = nullptr; size_t *sp = nullptr; char *fixed = nullptr; size_t cap = 0, len = 0, off = 0; bool dead = false; };

struct Block { uint32_t cap; uint32_t size; uint32_t magic; uint32_t idx; };
static const uint32_t M_LIVE = 0x51ab1e55, M_FREE = 0xdeadf4ee;
static const uint64_t GUARD = 0xfeedfacecafef00dull;

static const size_t ARENA = 512u << 20;
static const uintptr_t ARENA_BASE = 0x200000000000ull, STACK_BASE = 0x210000000000ull;
static const size_t STACKSZ = 8u << 20;
static const int MAXNODES = 8;

struct Node {
	int id = 0;
	NodeCfg *cfg = nullptr;
	NodeRes *res = nullptr;
	ucontext_t ctx;
	char *stack = nullptr;
	std::vector<char> globals;
	std::vector<std::string> args;
	std::vector<char *> argvp;
	long ev = 0;
	std::vector<Stream *> streams;
	Stream std_[3];
	FILE *stdf[3] = {nullptr, nullptr, nullptr};
	Rng rng, io;   // of time; of sizes of reads and writes
	std::vector<void (*)(void)> atexits;
	std::map<std::string, std::string> env;
	// heap
	char *arena = nullptr;
	size_t top = 0, hiwater = 0;
	std::vector<uint32_t> blocks;          // offsets of all blocks ever, for the final sweep
	std::map<uint32_t, std::deque<uint32_t>> freel;
	long live = 0, written = 0, taken = 0;
	uint64_t limit = 0;
	int fill_mode = 0; uint8_t fill_byte = 0; uint64_t fill_rng = 1;
	int free_mode = 0; int reuse = 0; int move_realloc = 0; int gap = 0;
	bool alloc_dead = false;
	long errno0 = 0, pid = 0;
	uint64_t t0 = 0, t = 0;
	// saved process-wide state of the C library
	int s_errno = 0, s_optind = 0, s_opterr = 1, s_optopt = 0; char *s_optarg = nullptr;
	int next_fd = 3;
	bool over = false;
	char *tok = nullptr;
	uint64_t lcg = 1;
	std::vector<MemS *> mems;
	std::map<std::string, long> nth[32];
};

static Node nodes[MAXNODES];
static Node *cur;
static World *W;
static ucontext_t sched_ctx;
static sigjmp_buf crash_jmp;
static std::vector<char> pristine;
static size_t dsz, bsz;
static volatile sig_atomic_t in_node;

static inline char *gd() { return __start_asm_data; }
static inline char *gb() { return __start_asm_bss; }
static void globals_load(const char *src) { if (dsz) memcpy(gd(), src, dsz); if (bsz) memcpy(gb(), src + dsz, bsz); }
static void globals_save(char *dst) { if (dsz) memcpy(dst, gd(), dsz); if (bsz) memcpy(dst + dsz, gb(), bsz); }

static void on_signal(int sig, siginfo_t *, void *) {
	if (!in_node || !cur) { signal(sig, SIG_DFL); raise(sig); return; }
	in_node = 0;
	siglongjmp(crash_jmp, sig);
}

void init() {
	covmap = (uint8_t *)mmap(nullptr, COVSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dsz = __start_asm_data ? __stop_asm_data - __start_asm_data : 0;
	bsz = __start_asm_bss ? __stop_asm_bss - __start_asm_bss : 0;
	pristine.resize(dsz + bsz);
	globals_save(pristine.data());
	for (int i = 0; i < MAXNODES; i++) {
		Node &n = nodes[i];
		n.id = i;
		n.arena = (char *)mmap((void *)(ARENA_BASE + (uintptr_t)i * (ARENA * 2)), ARENA, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		char *st = (char *)mmap((void *)(STACK_BASE + (uintptr_t)i * (STACKSZ * 2)), STACKSZ + 65536, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (n.arena == MAP_FAILED || st == MAP_FAILED) { perror("sim: mmap"); _exit(3); }
		mprotect(st, 65536, PROT_NONE);
		n.stack = st + 65536;
	}
	static char alt[65536];
	stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa = {};
	sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
}

std::string NodeRes::brief() const {
	char b[160];
	if (!started) return "not started";
	if (killed) return "killed";
	if (hang) return "hang (" + why + ")";
	if (sig) { snprintf(b, sizeof b, "died by signal %d (%s)", sig, why.c_str()); return b; }
	snprintf(b, sizeof b, "exit %d", code);
	return b;
}

[[noreturn]] static void node_leave() {
	Node *n = cur;
	n->over = true;
	in_node = 0;
	setcontext(&sched_ctx);
	_exit(3);
}
[[noreturn]] static void node_die(int sig, const std::string &why) {
	cur->res->sig = sig; cur->res->why = why;
	stats.crashes++;
	node_leave();
}
[[noreturn]] static void node_hang(const char *why) {
	cur->res->hang = true; cur->res->why = why;
	stats.hangs++;
	node_leave();
}
[[noreturn]] static void node_killed() { cur->res->killed = true; node_leave(); }

// A fault with a path strikes the at-th operation of its kind on that path
// (with mode 1: that one and all later ones); without, the event number at.
static Fault *find_fault(FK k, const EvRec &e) {
	for (auto &f : W->faults) {
		if (f.k != k || f.node != cur->id) continue;
		if (f.path.empty()) { if (f.at == e.idx && !f.fired) return &f; }
		else if (f.path == e.path && e.wr == f.wr && (f.mode == 1 ? e.nth >= f.at : e.nth == f.at && !f.fired)) return &f;
	}
	return nullptr;
}
static void fire(Fault *f) { f->fired = true; stats.fired[(int)f->k]++; }

static void record(EvRec &e) {
	e.node = cur->id; e.time = cur->t; e.allocs = cur->res->allocs;
	uint64_t h = W->hash;
	h = hmix(h, ((uint64_t)e.t << 8) | (e.node << 1) | e.wr);
	h = hmix(h, e.idx); h = hmix(h, (uint64_t)e.r); h = hmix(h, e.n); h = hmix(h, e.off);
	h = hmix(h, W->interleave ? e.time : 0);
	W->hash = hstr(h, e.path);
	W->hist.push_back(e);
}

static int64_t wall() { return cur->t0 + cur->t / 1000000000ull; }

static void yield_to_sched() {
	cur->s_errno = errno; cur->s_optind = optind; cur->s_optarg = optarg; cur->s_opterr = opterr; cur->s_optopt = optopt;
	in_node = 0;
	Node *n = cur;
	swapcontext(&n->ctx, &sched_ctx);
	in_node = 1;
}

// Start of every externally visible operation.  Returns its index.
static long ev_begin(EvRec &e, Ev t, const std::string &path, bool sched = true) {
	e.t = t; e.path = path; e.idx = cur->ev++;
	e.nth = cur->nth[((int)t * 2 + e.wr)][path]++;
	stats.events++;
	if (cur->ev > 3000000) node_hang("event budget exhausted");
	// latency: mostly microseconds, sometimes a stall
	uint64_t lat = 1000 + cur->rng.below(20000);
	if (cur->rng.chance(1, 24)) lat += cur->rng.below(3000000);
	cur->t += lat + cur->res->steps % 977;
	if (W->interleave && sched) yield_to_sched();
	for (auto &f : W->faults) {
		if (f.k != FK::Mutate || f.fired || f.node != cur->id) continue;
		if (f.on.empty() ? f.at != e.idx : !(e.t == Ev::Open && !e.wr && e.path == f.on && e.nth == f.at)) continue;
		fire(&f);
		std::string p = FS::norm(f.path);
		auto it = W->fs.names.find(p);
		switch (f.mode) {
		case 0: if (it != W->fs.names.end()) it->second->data = f.data; else W->fs.put(p, f.data); break;
		case 1: W->fs.put(p, f.data); break;
		case 2: W->fs.names.erase(p); break;
		case 3: if (it != W->fs.names.end()) it->second->data.resize(std::min(it->second->data.size(), (size_t)f.arg)); break;
		case 4: if (it != W->fs.names.end()) it->second->data += f.data; break;
		}
		it = W->fs.names.find(p); if (it != W->fs.names.end()) it->second->mtime = wall();
		W->hash = hmix(W->hash, 0x77 + f.mode);
	}
	if (Fault *f = find_fault(FK::Kill, e)) { fire(f); e.fault = true; e.r = -9; record(e); node_killed(); }
	return e.idx;
}
static void ev_end(EvRec &e) {
	record(e);
	if (Fault *f = find_fault(FK::KillAfter, e)) { fire(f); node_killed(); }
}

// ---- open files -----------------------------------------------------------

static Stream *k_open(const char *cpath, bool rd, bool wr, bool creat, bool trunc, bool excl, bool append) {
	EvRec e;
	e.wr = wr;
	std::string raw = cpath, path = FS::norm(cpath);
	ev_begin(e, Ev::Open, path);
	int err = 0;
	if (Fault *f = find_fault(FK::OpenErr, e)) { fire(f); e.fault = true; err = f->err; }
	auto it = W->fs.names.find(path);
	int busy = 3 + (int)cur->streams.size();
	if (!err && busy >= cur->cfg->fd_limit) { err = EMFILE; cur->res->emfile++; stats.emfile++; e.fault = true; }
	if (!err) {
		if (raw.empty()) err = ENOENT;
		else if (it == W->fs.names.end()) {
			if (path == "." || path == "/" || path == "..") err = wr ? EISDIR : 0;
			else if (!creat) err = ENOENT;
			else {
				size_t sl = path.rfind('/');
				if (sl != std::string::npos && sl > 0) {
					auto d = W->fs.names.find(path.substr(0, sl));
					if (d == W->fs.names.end()) { // a directory is there when something is in it
						std::string pre = path.substr(0, sl + 1); auto q = W->fs.names.lower_bound(pre);
						if (q == W->fs.names.end() || q->first.compare(0, pre.size(), pre)) err = ENOENT;
					} else if (!d->second->dir) err = ENOTDIR;
					else if (d->second->nowrite) err = EACCES;
				}
				if (!err && raw.back() == '/') err = EISDIR;
			}
		} else {
			if (excl && creat) err = EEXIST;
			else if (it->second->dir && wr) err = EISDIR;
			else if (rd && it->second->noread) err = EACCES;
			else if (wr && it->second->nowrite) err = EACCES;
		}
	}
	if (err) { e.r = -err; ev_end(e); errno = err; return nullptr; }
	Stream *s = new Stream;
	s->node = cur; s->path = path; s->rd = rd; s->wr = wr; s->append = append;
	if (it == W->fs.names.end() && (path == "." || path == "/" || path == "..")) { s->ino = std::make_shared<Inode>(); s->ino->dir = true; }
	else {
		if (it == W->fs.names.end()) { W->fs.put(path, ""); it = W->fs.names.find(path); it->second->mtime = wall(); }
		s->ino = it->second;
	}
	s->rec = cur->res->opens.size();
	cur->res->opens.push_back(OpenRec{path, wr, e.idx, false, false, "", raw});
	if (trunc && !s->ino->pipe) { s->ino->data.clear(); s->ino->mtime = wall(); }
	s->fd = cur->next_fd++;
	cur->streams.push_back(s);
	cur->res->fd_peak = std::max(cur->res->fd_peak, busy + 1);
	e.r = s->fd;
	ev_end(e);
	return s;
}

static long k_read(Stream *s, char *buf, size_t size) {
	EvRec e;
	e.n = size; e.off = s->off;
	ev_begin(e, Ev::Read, s->path);
	if (Fault *f = find_fault(FK::ReadErr, e)) { fire(f); e.fault = true; e.r = -f->err; ev_end(e); if (s->rec >= 0) cur->res->opens[s->rec].failed = true; errno = f->err; return -1; }
	if (s->ino->dir) { e.r = -EISDIR; ev_end(e); errno = EISDIR; return -1; }
	if (!s->rd) { e.r = -EBADF; ev_end(e); errno = EBADF; return -1; }
	if (s->ino->pipe) s->off = s->ino->taken;
	size_t avail = s->off < (long)s->ino->data.size() ? s->ino->data.size() - s->off : 0;
	size_t n = std::min(size, avail);
	int pol = cur->cfg->read_max;
	if (n > 1 && pol) {
		size_t m = pol > 0 ? (size_t)pol : 1 + cur->io.below(cur->io.chance(1, 2) ? 16 : 700);
		if (m < n) { n = m; stats.short_reads++; }
	}
	memcpy(buf, s->ino->data.data() + s->off, n);
	if (s->rec >= 0) {
		OpenRec &o = cur->res->opens[s->rec];
		if ((long)o.data.size() < s->off) o.data.resize(s->off);
		o.data.replace(s->off, n, buf, n);
		if (n == 0) o.eof = true;
	}
	s->off += n;
	if (s->ino->pipe) s->ino->taken = s->off;
	// more to read is more to do: time quadratic in the input is slow, not a hang
	cur->taken += n;
	cur->limit = cur->cfg->step_limit + std::min<uint64_t>(12000000000ull, 8ull * cur->taken * cur->taken);
	e.r = n;
	ev_end(e);
	return n;
}

static long k_write(Stream *s, const char *buf, size_t size) {
	EvRec e;
	e.n = size; e.off = s->off; e.wr = true;
	ev_begin(e, Ev::Write, s->path);
	if (!s->wr) { e.r = -EBADF; ev_end(e); errno = EBADF; return -1; }
	if (s->append || s->ino->pipe) s->off = s->ino->data.size();
	size_t n = size;
	int err = 0;
	// a count that runs off the end of the heap ends there, as in a real kernel
	if (buf >= cur->arena && buf < cur->arena + ARENA) {
		size_t room = buf < cur->arena + cur->top ? cur->arena + cur->top - buf : 0;
		if (room == 0 && size) { e.r = -EFAULT; ev_end(e); errno = EFAULT; return -1; }
		if (size > room) size = n = room;
	}
	bool torn = false;
	Fault *f;
	if (s->pending_err) { e.fault = true; err = s->pending_err; n = 0; s->pending_err = 0; }
	else if ((f = find_fault(FK::WriteErr, e))) { fire(f); e.fault = true; err = f->err; n = 0; }
	else if ((f = find_fault(FK::WriteShortErr, e))) { fire(f); e.fault = true; err = f->err; n = std::min<size_t>(f->arg < 0 ? size - std::min<size_t>(size, -f->arg) : f->arg, size ? size - 1 : 0); }
	else if ((f = find_fault(FK::KillTorn, e))) { fire(f); e.fault = true; torn = true; n = std::min<size_t>(f->arg, size); }
	else {
		int pol = cur->cfg->write_max;
		if (n > 1 && pol) {
			size_t m = pol > 0 ? (size_t)pol : 1 + cur->io.below(cur->io.chance(1, 2) ? 16 : 700);
			if (m < n) { n = m; stats.short_writes++; }
		}
	}
	if (W->fs.capacity >= 0 && !err && n) {
		long grow = s->off + (long)n - (long)s->ino->data.size();
		if (grow > 0) {
			long room = W->fs.capacity - W->fs.used();
			if (room < grow) {
				stats.nospc++;
				if (room <= 0 && grow == (long)n) { n = 0; err = ENOSPC; }
				else n = (size_t)std::max<long>(0, (long)n - (grow - std::max<long>(0, room)));
				if (n == 0) err = ENOSPC;
			}
		}
	}
	// the biggest legitimate output is a listing of a few megabytes
	// or an image whose padding is held in memory: files that big are refused
	if (cur->written + (long)n > (128l << 20)) {
		if (cur->live < (32u << 20)) node_hang("output budget exhausted");
		n = 0; err = EFBIG;
	}
	cur->written += n;
	if (n) {
		if (s->ino->data.size() < s->off + n) s->ino->data.resize(s->off + n);
		memcpy(&s->ino->data[s->off], buf, n);
		s->ino->mtime = wall();
		s->off += n;
	}
	// a short count now, the error with the next attempt, as a kernel does it
	if (err && n) { s->pending_err = err; err = 0; }
	e.r = err ? -err : (long)n;
	ev_end(e);
	if (torn) node_killed();
	if (err) { errno = err; return -1; }
	return n;
}

static void unlock(Stream *s) {
	if (!s->ino) return;
	auto &l = s->ino->locks;
	for (size_t i = 0; i < l.size(); ) if (l[i].node == cur->id && (!l[i].stream || l[i].stream == s)) l.erase(l.begin() + i); else i++;
}
// flock (of one open file) and fcntl locks (of a process), the whole file
static int k_lock(Stream *s, const void *who, int kind, bool wait) { // kind 0 unlock, 1 shared, 2 exclusive
	for (;;) {
		EvRec e; e.n = kind; ev_begin(e, Ev::Other, s->path);
		auto &l = s->ino->locks;
		bool busy = false;
		for (size_t i = 0; i < l.size(); ) {
			const NodeRes &o = W->res[l[i].node];
			if (l[i].node == cur->id ? l[i].stream == who : (o.done || o.killed || o.sig || o.hang)) { l.erase(l.begin() + i); continue; }
			if (kind && (kind == 2 || l[i].ex) && !(l[i].node == cur->id && (!who || !l[i].stream))) busy = true;
			i++;
		}
		if (!busy) { if (kind) l.push_back({cur->id, who, kind == 2}); ev_end(e); return 0; }
		e.r = -EAGAIN; ev_end(e);
		if (!wait) { errno = EAGAIN; return -1; }
		cur->t += 1000000;
	}
}

static int k_close(Stream *s) {
	unlock(s);
	EvRec e;
	e.wr = s->wr;
	ev_begin(e, Ev::Close, s->path);
	int err = 0;
	if (Fault *f = find_fault(FK::CloseErr, e)) { fire(f); e.fault = true; err = f->err; }
	e.r = -err;
	ev_end(e);
	if (err) { errno = err; return -1; }
	return 0;
}

// stdio on top: the real C library's buffering over simulated descriptors
static ssize_t ck_read(void *c, char *buf, size_t size) {
	Stream *s = (Stream *)c;
	if (s->dead || s->std_fd >= 0) return 0;
	return k_read(s, buf, size);
}
static ssize_t ck_write(void *c, const char *buf, size_t size) {
	Stream *s = (Stream *)c;
	if (s->dead) return size;
	if (s->std_fd >= 0) {
		EvRec e; e.wr = true; e.n = size;
		ev_begin(e, Ev::Std, s->std_fd == 2 ? "<stderr>" : "<stdout>", false);
		bool broken = s->std_fd == 2 ? cur->cfg->stderr_broken : cur->cfg->stdout_broken;
		if (Fault *f = find_fault(FK::StdErrFail, e)) { fire(f); e.fault = true; broken = true; }
		if (broken) { e.r = -EIO; ev_end(e); errno = EIO; return 0; }
		(s->std_fd == 2 ? cur->res->err : cur->res->out).append(buf, size);
		e.r = size;
		ev_end(e);
		return size;
	}
	size_t done = 0;
	while (done < size) { // as the C library's own write loop
		long r = k_write(s, buf + done, size - done);
		if (r <= 0) return done;
		done += r;
	}
	return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
	Stream *s = (Stream *)c;
	if (s->dead) return 0;
	if (s->std_fd >= 0 || s->ino->pipe) { errno = ESPIPE; return -1; }
	long b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? s->off : (long)s->ino->data.size();
	b += *off;
	if (b < 0) { errno = EINVAL; return -1; }
	s->off = b; *off = b;
	return 0;
}
static int ck_close(void *c) {
	Stream *s = (Stream *)c;
	if (s->dead || s->std_fd >= 0) return 0;
	return k_close(s);
}
static const cookie_io_functions_t ck = {ck_read, ck_write, ck_seek, ck_close};

static Stream *stream_of(FILE *f) {
	for (auto s : cur->streams) if (s->f == f) return s;
	for (auto &s : cur->std_) if (s.f == f) return &s;
	return nullptr;
}
static Stream *stream_of_fd(int fd) {
	if (fd >= 0 && fd < 3) return &cur->std_[fd];
	for (auto s : cur->streams) if (s->fd == fd) return s;
	return nullptr;
}
static void drop_stream(Stream *s) {
	auto &v = s->node->streams;
	v.erase(std::remove(v.begin(), v.end(), s), v.end());
	delete s;
}

// ---- memory ---------------------------------------------------------------

static void heap_setup(Node &n, Rng &r, bool plain) {
	// nothing of an earlier run may show through, not even to a stray read
	if (n.hiwater > (2u << 20)) madvise(n.arena, ARENA, MADV_DONTNEED);
	else if (n.hiwater) memset(n.arena, 0, n.hiwater + 128);
	madvise(n.stack, STACKSZ - 98304, MADV_DONTNEED);
	n.hiwater = 0;
	n.blocks.clear(); n.freel.clear(); n.live = 0; n.alloc_dead = false;
	if (plain) {
		n.top = 64; n.fill_mode = 0; n.fill_byte = 0; n.free_mode = 0; n.reuse = 1; n.move_realloc = 0; n.gap = 0;
		n.errno0 = 0; n.pid = 4242;
	} else {
		n.top = 64 + 16 * r.below(8192);
		n.fill_mode = r.below(3); n.fill_byte = (uint8_t)r.next(); n.fill_rng = r.next() | 1;
		n.free_mode = r.below(3); n.reuse = r.below(3); n.move_realloc = r.below(2); n.gap = r.below(3);
		static const int ee[] = {0, ENOENT, ERANGE, EINTR, ENOMEM, 1234};
		n.errno0 = ee[r.below(6)]; n.pid = 2 + r.below(60000);
	}
}
static void fill(Node &n, char *p, size_t len, int mode) {
	switch (mode) {
	case 0: memset(p, n.fill_byte, len); break;
	case 1: for (size_t i = 0; i < len; i++) { n.fill_rng = n.fill_rng * 6364136223846793005ull + 1442695040888963407ull; p[i] = n.fill_rng >> 56; } break;
	default: memset(p, 0xff, len); break;
	}
}
static Block *blk(void *p) { return (Block *)((char *)p - sizeof(Block)); }
static void heap_bad(const char *what) { node_die(SIGABRT, std::string("heap: ") + what); }
static void check_block(Node &n, void *p, const char *op) {
	if ((char *)p < n.arena + 64 || (char *)p >= n.arena + n.top || ((uintptr_t)p & 15)) { char b[80]; snprintf(b, sizeof b, "%s of an invalid pointer", op); heap_bad(b); }
	Block *b = blk(p);
	if (b->magic == M_FREE) { char t[80]; snprintf(t, sizeof t, "%s of a freed block", op); heap_bad(t); }
	if (b->magic != M_LIVE) heap_bad("corrupted block header");
	uint64_t g; memcpy(&g, (char *)p + b->size, 8);
	if (g != GUARD) heap_bad("write past the end of a block");
}
static size_t round16(size_t n) { return (n + 15) & ~(size_t)15; }

static void *h_alloc(size_t size, bool count = true, size_t skip = 0) {
	Node &n = *cur;
	if (count) {
		long idx = n.res->allocs++;
		stats.allocs++;
		if (n.alloc_dead) { errno = ENOMEM; return nullptr; }
		for (auto &f : W->faults) {
			if (f.node != n.id || f.at != idx || f.fired) continue;
			if (f.k == FK::AllocOnce) { fire(&f); errno = ENOMEM; return nullptr; }
			if (f.k == FK::AllocForever) { fire(&f); n.alloc_dead = true; errno = ENOMEM; return nullptr; }
		}
	}
	if (size > ARENA) { errno = ENOMEM; return nullptr; }
	size_t cap = round16(size + 8);
	Block *b = nullptr;
	if (n.reuse || n.top > ARENA / 2) {
		auto it = n.freel.find((uint32_t)cap);
		if (it != n.freel.end() && !it->second.empty()) {
			uint32_t off;
			if (n.reuse == 1) { off = it->second.back(); it->second.pop_back(); }
			else { off = it->second.front(); it->second.pop_front(); }
			b = (Block *)(n.arena + off);
		}
	}
	if (!b) {
		size_t gap = n.gap == 1 ? 16 : n.gap == 2 ? 16 * (n.res->allocs % 5) : 0;
		size_t off = n.top + gap;
		if (off + sizeof(Block) + cap + 64 > ARENA) { n.res->spent = true; errno = ENOMEM; return nullptr; }
		n.top = off + sizeof(Block) + cap;
		if (n.top > n.hiwater) n.hiwater = n.top;
		b = (Block *)(n.arena + off);
		b->cap = cap; b->idx = n.blocks.size();
		n.blocks.push_back((uint32_t)off);
	}
	b->size = size; b->magic = M_LIVE;
	char *p = (char *)(b + 1);
	if (skip < size) fill(n, p + skip, size - skip, n.fill_mode); // the rest is about to be copied
	memcpy(p + size, &GUARD, 8);
	n.live += size;
	if (n.live > n.res->alloc_peak) n.res->alloc_peak = n.live;
	return p;
}
static void h_free(void *p) {
	if (!p) return;
	Node &n = *cur;
	check_block(n, p, "free");
	Block *b = blk(p);
	n.live -= b->size;
	b->magic = M_FREE;
	if (n.free_mode) fill(n, (char *)p, b->size > 65536 ? 4096 : b->size, n.free_mode == 1 ? n.fill_mode : 2);
	// without reuse memory is still recycled once much of it is used up: running
	// out of the arena is a limit of the simulator, not part of an environment
	if (n.reuse || n.top > ARENA / 4) n.freel[b->cap].push_back((uint32_t)((char *)b - n.arena));
}
static void *h_realloc(void *p, size_t size) {
	Node &n = *cur;
	if (!p) return h_alloc(size);
	check_block(n, p, "realloc");
	Block *b = blk(p);
	if (size == 0) { h_free(p); n.res->allocs++; return nullptr; }
	if (!n.move_realloc && size > b->size && b->size > 4096 && (char *)p + b->cap == n.arena + n.top && n.top + size - b->size + 4096 < ARENA) {
		// the last block grows where it is, like the top chunk of a real heap
		size_t cap = round16(size + 8);
		if (cap > b->cap) { n.top += cap - b->cap; b->cap = cap; if (n.top > n.hiwater) n.hiwater = n.top; }
	}
	if (!n.move_realloc && round16(size + 8) <= b->cap && size >= b->size) {
		long idx = n.res->allocs++;
		stats.allocs++;
		if (n.alloc_dead) { errno = ENOMEM; return nullptr; }
		for (auto &f : W->faults) {
			if (f.node != n.id || f.at != idx || f.fired) continue;
			if (f.k == FK::AllocOnce) { fire(&f); errno = ENOMEM; return nullptr; }
			if (f.k == FK::AllocForever) { fire(&f); n.alloc_dead = true; errno = ENOMEM; return nullptr; }
		}
		n.live += (long)size - (long)b->size;
		if (n.live > n.res->alloc_peak) n.res->alloc_peak = n.live;
		fill(n, (char *)p + b->size, size - b->size, n.fill_mode);
		b->size = size;
		memcpy((char *)p + size, &GUARD, 8);
		return p;
	}
	size_t old = b->size;
	void *q = h_alloc(size, true, old);
	if (!q) return nullptr;
	stats.moved_reallocs++;
	memcpy(q, p, std::min(old, size));
	h_free(p);
	return q;
}
static std::string heap_sweep(Node &n) {
	for (uint32_t off : n.blocks) {
		Block *b = (Block *)(n.arena + off);
		if (b->magic != M_LIVE && b->magic != M_FREE) return "heap: corrupted block header";
		if (b->magic == M_LIVE) {
			uint64_t g; memcpy(&g, (char *)(b + 1) + b->size, 8);
			if (g != GUARD) return "heap: write past the end of a block";
		}
	}
	return "";
}

// ---- life cycle -----------------------------------------------------------

static void node_exit(int code, bool flush) {
	Node *n = cur;
	if (flush) {
		while (!n->atexits.empty()) { auto f = n->atexits.back(); n->atexits.pop_back(); f(); }
		if (n->stdf[1]) ::fflush(n->stdf[1]);
		std::vector<Stream *> v = n->streams;
		for (auto s : v) if (s->f && s->wr) ::fflush(s->f);
	}
	n->res->code = code & 0xff;
	n->res->done = true;
	std::string bad = heap_sweep(*n);
	if (!bad.empty()) { n->res->sig = SIGABRT; n->res->why = bad; n->res->done = false; stats.crashes++; }
	node_leave();
}

static void node_entry() {
	Node *n = cur;
	in_node = 1;
	int rc = asm_main((int)n->args.size(), n->argvp.data());
	node_exit(rc, true);
}

// entry through here perturbs the depth at which the program's frames lie
static void node_boot() {
	node_entry();
}

static void node_setup(Node &n, World &w, NodeCfg &cfg, NodeRes &res, uint64_t sched_seed) {
	n.cfg = &cfg; n.res = &res; n.over = false; n.ev = 0; n.next_fd = 3; n.lcg = 1;
	n.atexits.clear(); n.env.clear(); n.written = n.taken = 0; n.limit = cfg.step_limit;
	for (auto &m : n.nth) m.clear();
	uint64_t x = sched_seed ^ (0x1234567 * (n.id + 1));
	n.rng.reseed(x);
	n.io.reseed(cfg.env_seed * 77 + 5);
	Rng er(cfg.env_seed ^ 0xabcdef);
	heap_setup(n, er, cfg.plain_env);
	n.t0 = cfg.plain_env ? 1700000000 : 1000000000 + er.below(2000000000);
	n.t = cfg.start;
	if (!cfg.plain_env) {
		n.env["TMPDIR"] = er.chance(1, 2) ? "/tmp" : "/nonexistent";
		n.env["LANG"] = er.chance(1, 2) ? "C" : "de_DE.UTF-8";
		n.env["POSIXLY_CORRECT_NOT"] = "1";
		n.env["HOME"] = "/root"; n.env["USER"] = er.chance(1, 2) ? "alice" : "bob";
		n.env["ASM6809"] = "junk"; n.env["COLUMNS"] = std::to_string(er.below(200));
	}
	n.globals = pristine;
	n.args = cfg.argv;
	n.argvp.clear();
	for (auto &a : n.args) n.argvp.push_back(&a[0]);
	n.argvp.push_back(nullptr);
	n.s_errno = n.errno0; n.s_optind = 0; n.s_optarg = nullptr; n.s_opterr = 1; n.s_optopt = 0;
	for (int i = 0; i < 3; i++) {
		Stream &s = n.std_[i];
		s = Stream(); s.node = &n; s.std_fd = i; s.fd = i; s.rd = i == 0; s.wr = i > 0;
		s.f = n.stdf[i] = fopencookie(&s, i ? "w" : "r", ck);
	}
	setvbuf(n.stdf[2], nullptr, _IONBF, 0);
	size_t jit = cfg.plain_env ? 0 : 16 * er.below(256);
	size_t sz = STACKSZ - 256 - jit;
	char pat = cfg.plain_env ? 0 : (char)er.next();
	char *lo = n.stack + STACKSZ - 98304;
	if (cfg.plain_env || er.chance(1, 2)) memset(lo, pat, 98304);
	else for (size_t i = 0; i < 98304; i += 8) { uint64_t v = er.next(); memcpy(lo + i, &v, 8); }
	getcontext(&n.ctx);
	n.ctx.uc_stack.ss_sp = n.stack; n.ctx.uc_stack.ss_size = sz; n.ctx.uc_link = nullptr;
	makecontext(&n.ctx, node_boot, 0);
	res = NodeRes();
	res.started = true;
}

static void node_cleanup(Node &n) {
	for (int i = 0; i < 3; i++) { n.std_[i].dead = true; if (n.stdf[i]) ::fclose(n.stdf[i]); n.stdf[i] = nullptr; n.std_[i].f = nullptr; }
	for (auto m : n.mems) { m->dead = true; ::fclose(m->f); delete m; }
	n.mems.clear();
	while (!n.streams.empty()) {
		Stream *s = n.streams.back();
		n.streams.pop_back();
		s->dead = true;
		if (s->f) ::fclose(s->f);
		delete s;
	}
}

static void resume(Node &n) {
	cur = &n;
	globals_load(n.globals.data());
	sim_stdin = n.stdf[0]; sim_stdout = n.stdf[1]; sim_stderr = n.stdf[2];
	optind = n.s_optind; optarg = n.s_optarg; opterr = n.s_opterr; optopt = n.s_optopt;
	int sig = sigsetjmp(crash_jmp, 0);
	if (sig == 0) {
		errno = n.s_errno;
		in_node = 1;
		swapcontext(&sched_ctx, &n.ctx);
		in_node = 0;
	} else {
		cur = &n;
		n.res->sig = sig; n.res->why = strsignal(sig); n.over = true;
		stats.crashes++;
	}
	if (!n.over) globals_save(n.globals.data());
	if (n.over && (n.res->sig || n.res->hang)) tainted = true;
	n.res->events = n.ev; n.res->end_time = n.t;
	cur = nullptr;
}

void World::run() {
	W = this;
	hist.clear(); hash = 0x5151; order_hash = 1; switches = 0;
	res.assign(nodes.size(), NodeRes());
	for (auto &f : faults) f.fired = false;
	Node *nn = sim::nodes;
	for (size_t i = 0; i < nodes.size(); i++) node_setup(nn[i], *this, nodes[i], res[i], hmix(sched_seed, i));
	// Discrete event loop: always the process whose next operation is due first.
	int last = -1;
	for (;;) {
		int best = -1;
		for (size_t i = 0; i < nodes.size(); i++) if (!nn[i].over && (best < 0 || nn[i].t < nn[best].t)) best = i;
		if (best < 0) break;
		if (best != last && last >= 0) { switches++; sim::stats.switches++; }
		order_hash = hmix(order_hash, best);
		last = best;
		resume(nn[best]);
	}
	sim_ns = 0;
	for (size_t i = 0; i < nodes.size(); i++) {
		NodeRes &r = res[i];
		node_cleanup(nn[i]);
		if (nn[i].t > sim_ns) sim_ns = nn[i].t;
		hash = hmix(hash, r.code); hash = hmix(hash, r.sig); hash = hmix(hash, r.steps); hash = hmix(hash, r.allocs);
		hash = hstr(hash, r.out); hash = hstr(hash, r.err);
		sim::stats.runs++; sim::stats.steps += r.steps;
	}
	for (auto &e : fs.names) { hash = hstr(hash, e.first); hash = hstr(hash, e.second->data); }
	sim::stats.sim_ns += sim_ns;
	globals_load(pristine.data());
}

} // namespace sim

using namespace sim;

// ---- the redirected imports -----------------------------------------------

static void forbid(const char *what, const char *arg) {
	std::string s = what; if (arg) { s += " "; s += arg; }
	cur->res->forbidden.push_back(s);
}

extern "C" {

void __sanitizer_cov_trace_pc(void) {
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) & (COVSZ - 1);
	if (!covmap[pc]) { covmap[pc] = 1; cov_n++; }
	if (cur) {
		if (++cur->res->steps > cur->limit) node_hang("step budget exhausted");
	}
}

// memory
void *sim_malloc(size_t n) { return h_alloc(n); }
void *sim_calloc(size_t a, size_t b) {
	if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
	void *p = h_alloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void *sim_realloc(void *p, size_t n) { return h_realloc(p, n); }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return h_realloc(p, a * b); }
void sim_free(void *p) { h_free(p); }
void *sim_aligned_alloc(size_t, size_t n) { return h_alloc(n); }
int sim_posix_memalign(void **r, size_t, size_t n) { *r = h_alloc(n); return *r ? 0 : ENOMEM; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)h_alloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)h_alloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **r, const char *fmt, va_list ap) {
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2);
	if (n < 0) return -1;
	*r = (char *)h_alloc(n + 1);
	if (!*r) return -1;
	return vsnprintf(*r, n + 1, fmt, ap);
}
int sim_asprintf(char **r, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vasprintf(r, fmt, ap); va_end(ap); return n; }
ssize_t sim_getdelim(char **lp, size_t *np, int d, FILE *f) {
	size_t len = 0; int c;
	while ((c = getc(f)) != EOF) {
		if (!*lp || len + 2 > *np) { size_t nn = (*np ? *np * 2 : 120); char *q = (char *)h_realloc(*lp, nn); if (!q) return -1; *lp = q; *np = nn; }
		(*lp)[len++] = c;
		if (c == d) break;
	}
	if (!len) return -1;
	(*lp)[len] = 0;
	return len;
}
ssize_t sim_getline(char **lp, size_t *np, FILE *f) { return sim_getdelim(lp, np, '\n', f); }

// files
FILE *sim_fopen(const char *path, const char *mode) {
	bool plus = strchr(mode, '+') != nullptr;
	bool x = strchr(mode, 'x') != nullptr;
	Stream *s;
	switch (mode[0]) {
	case 'r': s = k_open(path, true, plus, false, false, false, false); break;
	case 'w': s = k_open(path, plus, true, true, true, x, false); break;
	case 'a': s = k_open(path, plus, true, true, false, x, true); break;
	default: errno = EINVAL; return nullptr;
	}
	if (!s) return nullptr;
	char m[4]; int k = 0; m[k++] = mode[0]; if (plus) m[k++] = '+'; m[k] = 0;
	s->f = fopencookie(s, m, ck);
	return s->f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) {
	Stream *s = stream_of_fd(fd);
	if (!s) { errno = EBADF; return nullptr; }
	if (s->f) return s->f;
	char m[4]; int k = 0; m[k++] = mode[0]; if (strchr(mode, '+')) m[k++] = '+'; m[k] = 0;
	s->f = fopencookie(s, m, ck);
	return s->f;
}
int sim_fclose(FILE *f) {
	for (size_t i = 0; i < cur->mems.size(); i++) if (f && cur->mems[i]->f == f) {
		MemS *m = cur->mems[i];
		int r = ::fclose(f);
		cur->mems.erase(cur->mems.begin() + i); delete m;
		return r;
	}
	Stream *s = f ? stream_of(f) : nullptr;
	if (!s) { node_die(SIGSEGV, f ? "fclose of a stream that is not open" : "fclose of NULL"); }
	if (s->std_fd >= 0) { ::fflush(f); return 0; }
	int r = ::fclose(f);
	int e = errno;
	s->f = nullptr;
	drop_stream(s);
	errno = e;
	return r;
}
FILE *sim_freopen(const char *path, const char *mode, FILE *f) { sim_fclose(f); return sim_fopen(path, mode); }
int sim_fflush(FILE *f) {
	if (f) return ::fflush(f);
	int r = 0;
	std::vector<Stream *> v = cur->streams;
	for (auto s : v) if (s->f && s->wr && ::fflush(s->f)) r = EOF;
	::fflush(cur->stdf[1]);
	return r;
}
FILE *sim_tmpfile(void) {
	static const char *nm = "/tmp/#anon";
	Stream *s = k_open((std::string(nm) + std::to_string(cur->id)).c_str(), true, true, true, true, false, false);
	(void)nm;
	if (!s) return nullptr;
	W->fs.names.erase(s->path);
	s->f = fopencookie(s, "w+", ck);
	return s->f;
}
int sim_fileno(FILE *f) { Stream *s = stream_of(f); if (!s) { errno = EBADF; return -1; } return s->fd; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_open(const char *path, int flags, ...) {
	int acc = flags & O_ACCMODE;
	Stream *s = k_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_EXCL, flags & O_APPEND);
	return s ? s->fd : -1;
}
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_creat(const char *path, mode_t) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t sim_read(int fd, void *b, size_t n) { Stream *s = stream_of_fd(fd); if (!s) { errno = EBADF; return -1; } return s->std_fd >= 0 ? 0 : k_read(s, (char *)b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) {
	Stream *s = stream_of_fd(fd); if (!s) { errno = EBADF; return -1; }
	if (s->std_fd >= 0) { ssize_t r = ck_write(s, (const char *)b, n); return r ? r : -1; }
	return k_write(s, (const char *)b, n);
}
int sim_close(int fd) {
	Stream *s = stream_of_fd(fd);
	if (!s) { errno = EBADF; return -1; }
	if (s->std_fd >= 0) return 0;
	int r = k_close(s); int e = errno;
	if (!s->f) drop_stream(s);
	errno = e;
	return r;
}
off_t sim_lseek(int fd, off_t o, int w) { Stream *s = stream_of_fd(fd); if (!s) { errno = EBADF; return -1; } off64_t x = o; return ck_seek(s, &x, w) ? -1 : x; }
int sim_fsync(int fd) { Stream *s = stream_of_fd(fd); EvRec e; ev_begin(e, Ev::Fsync, s ? s->path : "?"); ev_end(e); return s ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n) {
	Stream *s = stream_of_fd(fd); if (!s || !s->wr || !s->ino) { errno = EBADF; return -1; }
	EvRec e; e.wr = true; e.n = n; ev_begin(e, Ev::Trunc, s->path); s->ino->data.resize(n); ev_end(e); return 0;
}
int sim_truncate(const char *p, off_t n) {
	EvRec e; e.wr = true; e.n = n; ev_begin(e, Ev::Trunc, FS::norm(p));
	auto it = W->fs.names.find(FS::norm(p)); if (it == W->fs.names.end()) { e.r = -ENOENT; ev_end(e); errno = ENOENT; return -1; }
	it->second->data.resize(n); ev_end(e); return 0;
}
int sim_unlink(const char *p) {
	EvRec e; e.wr = true; ev_begin(e, Ev::Unlink, FS::norm(p));
	int r = W->fs.names.erase(FS::norm(p)) ? 0 : -1;
	e.r = r ? -ENOENT : 0; ev_end(e); if (r) errno = ENOENT; return r;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
	EvRec e; e.wr = true; ev_begin(e, Ev::Rename, FS::norm(b));
	if (Fault *f = find_fault(FK::RenameErr, e)) { fire(f); e.fault = true; e.r = -f->err; ev_end(e); errno = f->err; return -1; }
	auto it = W->fs.names.find(FS::norm(a));
	if (it == W->fs.names.end()) { e.r = -ENOENT; ev_end(e); errno = ENOENT; return -1; }
	InodeP i = it->second; W->fs.names.erase(it); W->fs.names[FS::norm(b)] = i;
	ev_end(e); return 0;
}
int sim_access(const char *p, int m) {
	EvRec e; ev_begin(e, Ev::Stat, FS::norm(p));
	auto it = W->fs.names.find(FS::norm(p)); int err = 0;
	if (it == W->fs.names.end()) err = ENOENT;
	else if ((m & R_OK && it->second->noread) || (m & W_OK && it->second->nowrite)) err = EACCES;
	e.r = -err; ev_end(e); if (err) { errno = err; return -1; } return 0;
}
static int do_stat(InodeP i, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_mode = (i->dir ? S_IFDIR : i->pipe ? S_IFIFO : S_IFREG) | 0644; st->st_size = i->pipe ? 0 : i->data.size(); st->st_nlink = 1; st->st_blksize = 4096;
	st->st_dev = 5; st->st_ino = i->id; st->st_mtime = st->st_ctime = st->st_atime = i->mtime;
	return 0;
}
int sim_stat(const char *p, struct stat *st) {
	EvRec e; ev_begin(e, Ev::Stat, FS::norm(p));
	auto it = W->fs.names.find(FS::norm(p));
	if (it == W->fs.names.end()) { e.r = -ENOENT; ev_end(e); errno = ENOENT; return -1; }
	ev_end(e); return do_stat(it->second, st);
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) { Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; } return do_stat(s->ino, st); }
int sim_mkstemp(char *t) {
	size_t n = strlen(t);
	if (n < 6) { errno = EINVAL; return -1; }
	for (int i = 0; i < 6; i++) t[n - 6 + i] = "abcdefghijklmnopqrstuvwxyz"[cur->io.below(26)];
	return sim_open(t, O_RDWR | O_CREAT | O_EXCL);
}
char *sim_tmpnam(char *b) { static char s[32]; char *p = b ? b : s; snprintf(p, 20, "/tmp/file%06lx", (long)cur->io.below(0xffffff)); return p; }
int sim_mkdir(const char *p, mode_t) { forbid("mkdir", p); errno = EACCES; return -1; }
int sim_rmdir(const char *p) { forbid("rmdir", p); errno = EACCES; return -1; }
int sim_chmod(const char *p, mode_t) { forbid("chmod", p); return 0; }
int sim_link(const char *, const char *p) { forbid("link", p); errno = EACCES; return -1; }
int sim_symlink(const char *, const char *p) { forbid("symlink", p); errno = EACCES; return -1; }
int sim_chdir(const char *p) { forbid("chdir", p); errno = EACCES; return -1; }
int sim_system(const char *p) { forbid("system", p); return -1; }
FILE *sim_popen(const char *p, const char *) { forbid("popen", p); errno = EACCES; return nullptr; }
pid_t sim_fork(void) { forbid("fork", ""); errno = EAGAIN; return -1; }
int sim_execv(const char *p, char *const *) { forbid("exec", p); errno = EACCES; return -1; }
int sim_execvp(const char *p, char *const *) { forbid("exec", p); errno = EACCES; return -1; }
int sim_kill(pid_t, int) { forbid("kill", ""); return -1; }
int sim_raise(int s) { node_die(s, "raise"); }
int sim_flock(int fd, int op) {
	Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; }
	return k_lock(s, s, op & LOCK_UN ? 0 : op & LOCK_EX ? 2 : 1, !(op & LOCK_NB));
}
int sim_fcntl(int fd, int op, ...) {
	if (op != F_SETLK && op != F_SETLKW) return 0;
	va_list ap; va_start(ap, op); struct flock *l = va_arg(ap, struct flock *); va_end(ap);
	Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; }
	return k_lock(s, nullptr, l->l_type == F_UNLCK ? 0 : l->l_type == F_WRLCK ? 2 : 1, op == F_SETLKW);
}
int sim_lockf(int fd, int op, off_t) {
	Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; }
	if (op == F_TEST) return 0;
	return k_lock(s, nullptr, op == F_ULOCK ? 0 : 2, op == F_LOCK);
}
int sim_utimes(const char *p, const struct timeval *tv) { auto it = W->fs.names.find(FS::norm(p)); if (it == W->fs.names.end()) { errno = ENOENT; return -1; } it->second->mtime = tv ? tv[0].tv_sec : wall(); return 0; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) {
	Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; }
	long old = s->off; s->off = o; ssize_t r = k_read(s, (char *)b, n); s->off = old; return r;
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) {
	Stream *s = stream_of_fd(fd); if (!s || !s->ino) { errno = EBADF; return -1; }
	long old = s->off; s->off = o; ssize_t r = k_write(s, (const char *)b, n); s->off = old; return r;
}
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
	return t;
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
	return t;
}
// a mapping is a copy made when it is created; an I/O error shows then
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
	char *p = (char *)h_alloc(len);
	if (!p) { errno = ENOMEM; return MAP_FAILED; }
	memset(p, 0, len);
	if (flags & MAP_ANONYMOUS) return p;
	if (prot & PROT_WRITE && flags & MAP_SHARED) { forbid("mmap", "shared"); }
	for (size_t k = 0; k < len;) {
		ssize_t r = sim_pread(fd, p + k, len - k, off + k);
		if (r < 0) { h_free(p); return MAP_FAILED; }
		if (!r) break;
		k += r;
	}
	return p;
}
int sim_munmap(void *p, size_t) { h_free(p); return 0; }
// streams on memory
static ssize_t mem_write(void *c, const char *b, size_t n) {
	MemS *m = (MemS *)c;
	if (m->dead) return n;
	if (!m->bp) { // fmemopen
		size_t k = m->off < m->cap ? std::min(n, m->cap - m->off) : 0;
		if (!k) { errno = ENOSPC; return 0; }
		memcpy(m->fixed + m->off, b, k); m->off += k; return k;
	}
	size_t end = m->off + n;
	if (end + 1 > m->cap) {
		size_t nc = std::max(end + 1, m->cap * 2);
		char *q = (char *)h_realloc(*m->bp, nc); if (!q) { errno = ENOMEM; return 0; }
		memset(q + m->cap, 0, nc - m->cap); *m->bp = q; m->cap = nc;
	}
	memcpy(*m->bp + m->off, b, n); m->off = end; if (end > m->len) { m->len = end; (*m->bp)[end] = 0; }
	*m->sp = m->len;
	return n;
}
static ssize_t mem_read(void *c, char *b, size_t n) {
	MemS *m = (MemS *)c;
	if (m->dead || m->bp) return 0;
	size_t k = m->off < m->len ? std::min(n, m->len - m->off) : 0;
	memcpy(b, m->fixed + m->off, k); m->off += k; return k;
}
static int mem_seek(void *c, off64_t *o, int w) {
	MemS *m = (MemS *)c;
	long x = *o + (w == SEEK_CUR ? (long)m->off : w == SEEK_END ? (long)m->len : 0);
	if (x < 0) return -1;
	m->off = x; *o = x; return 0;
}
static int mem_close(void *) { return 0; }
static FILE *mem_open(MemS *m, const char *mode) {
	m->f = fopencookie(m, mode, cookie_io_functions_t{mem_read, mem_write, mem_seek, mem_close});
	cur->mems.push_back(m);
	return m->f;
}
FILE *sim_open_memstream(char **bp, size_t *sp) {
	char *p = (char *)h_alloc(64); if (!p) { errno = ENOMEM; return nullptr; }
	memset(p, 0, 64);
	MemS *m = new MemS; m->bp = bp; m->sp = sp; m->cap = 64; *bp = p; *sp = 0;
	return mem_open(m, "w");
}
FILE *sim_fmemopen(void *b, size_t n, const char *mode) {
	MemS *m = new MemS; m->cap = n;
	if (!b) { b = h_alloc(n); if (!b) { delete m; errno = ENOMEM; return nullptr; } memset(b, 0, n); }
	m->fixed = (char *)b; m->len = mode[0] == 'r' ? n : mode[0] == 'a' ? strnlen(m->fixed, n) : 0;
	if (mode[0] == 'a') m->off = m->len;
	return mem_open(m, mode[0] == 'r' ? strchr(mode, '+') ? "r+" : "r" : "w");
}
// directories
struct SimDir { std::vector<std::string> names; size_t i = 0; struct dirent e; };
DIR *sim_opendir(const char *p) {
	std::string d = FS::norm(p); if (d == ".") d = "";
	EvRec e; ev_begin(e, Ev::Stat, d); ev_end(e);
	if (!d.empty() && d.back() != '/') d += '/';
	auto *s = new SimDir;
	std::set<std::string> seen{".", ".."};
	for (auto &n : W->fs.names) {
		if (d.empty() ? n.first[0] == '/' : n.first.compare(0, d.size(), d) != 0) continue;
		std::string r = n.first.substr(d.size()); r = r.substr(0, r.find('/'));
		if (!r.empty()) seen.insert(r);
	}
	if (!d.empty() && seen.size() == 2 && !W->fs.names.count(d.substr(0, d.size() - 1))) { delete s; errno = ENOENT; return nullptr; }
	s->names.assign(seen.begin(), seen.end());
	return (DIR *)s;
}
struct dirent *sim_readdir(DIR *d) {
	SimDir *s = (SimDir *)d; if (s->i >= s->names.size()) return nullptr;
	memset(&s->e, 0, sizeof s->e); s->e.d_ino = 1; s->e.d_type = DT_UNKNOWN;
	snprintf(s->e.d_name, sizeof s->e.d_name, "%s", s->names[s->i++].c_str());
	return &s->e;
}
void sim_rewinddir(DIR *d) { ((SimDir *)d)->i = 0; }
int sim_closedir(DIR *d) { delete (SimDir *)d; return 0; }
int sim_openat(int fd, const char *p, int flags, ...) { if (fd != AT_FDCWD && *p != '/') { errno = ENOTDIR; return -1; } return sim_open(p, flags); }
int sim_unlinkat(int, const char *p, int) { return sim_unlink(p); }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_fchmod(int, mode_t) { return 0; }
int sim_futimens(int, const struct timespec *) { return 0; }
int sim_utimensat(int, const char *p, const struct timespec *, int) { return sim_utimes(p, nullptr); }
int sim_utime(const char *p, const void *) { return sim_utimes(p, nullptr); }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
char *sim_realpath(const char *p, char *b) {
	std::string n = FS::norm(p); if (n.empty() || n[0] != '/') n = "/" + n;
	if (!b) return sim_strdup(n.c_str());
	strcpy(b, n.c_str()); return b;
}

// standard output
int sim_puts(const char *s) { if (fputs(s, sim_stdout) < 0) return EOF; return putc('\n', sim_stdout); }
int sim_putchar(int c) { return putc(c, sim_stdout); }
int sim_vprintf(const char *fmt, va_list ap) { return vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
void sim_perror(const char *s) { int e = errno; if (s && *s) fprintf(sim_stderr, "%s: ", s); fprintf(sim_stderr, "%s\n", strerror(e)); }
int sim_getchar(void) { return EOF; }

// process
void sim_exit(int c) { node_exit(c, true); }
void sim__exit(int c) { node_exit(c, false); }
void sim_abort(void) { node_die(SIGABRT, "abort"); }
void sim___assert_fail(const char *a, const char *f, unsigned l, const char *) { (void)l; (void)f; node_die(SIGABRT, std::string("assertion failed: ") + a); }
void sim___stack_chk_fail(void) { node_die(SIGABRT, "stack smashing detected"); }
int sim_atexit(void (*f)(void)) { cur->atexits.push_back(f); return 0; }
unsigned sim_sleep(unsigned n) { cur->t += (uint64_t)n * 1000000000ull; return 0; }
int sim_usleep(useconds_t n) { cur->t += (uint64_t)n * 1000; return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *) { cur->t += r->tv_sec * 1000000000ull + r->tv_nsec; return 0; }
time_t sim_time(time_t *p) { time_t t = cur->t0 + cur->t / 1000000000ull; if (p) *p = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = cur->t0 + cur->t / 1000000000ull; tv->tv_usec = cur->t / 1000 % 1000000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = cur->t0 + cur->t / 1000000000ull; ts->tv_nsec = cur->t % 1000000000; return 0; }
clock_t sim_clock(void) { return cur->res->steps / 1000; }
pid_t sim_getpid(void) { return cur->pid + cur->id; }
pid_t sim_getppid(void) { return 1; }
// whatever variable the program asks for may be set in one run and not in another
char *sim_getenv(const char *k) {
	auto it = cur->env.find(k);
	if (it == cur->env.end()) {
		if (cur->cfg->plain_env) return nullptr;
		static const char *v[] = {"1", "", "0", "yes", "/nowhere", "12345", "C", "x"};
		uint64_t h = hmix(cur->cfg->env_seed, 0x65);
		for (const char *q = k; *q; q++) h = hmix(h, (unsigned char)*q);
		it = cur->env.emplace(k, h % 5 < 3 ? std::string("\1") : std::string(v[(h >> 8) % 8])).first;
	}
	return it->second == "\1" ? nullptr : &it->second[0];
}
char *sim_secure_getenv(const char *k) { return sim_getenv(k); }
int sim_rand(void) { cur->lcg = cur->lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)(cur->lcg >> 33); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned v) { cur->lcg = v; }
void sim_srandom(unsigned v) { cur->lcg = v; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = cur->io.next(); return n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
uint32_t sim_arc4random(void) { return cur->io.next(); }
int sim_setenv(const char *k, const char *v, int o) { if (o || !sim_getenv(k)) cur->env[k] = v; return 0; }
int sim_unsetenv(const char *k) { cur->env[k] = "\1"; return 0; }
int sim_putenv(char *kv) { char *e = strchr(kv, '='); if (e) cur->env[std::string(kv, e - kv)] = e + 1; else cur->env[kv] = "\1"; return 0; }
uid_t sim_getuid(void) { return cur->cfg->plain_env ? 0 : 1000; }
uid_t sim_geteuid(void) { return sim_getuid(); }
mode_t sim_umask(mode_t) { return 022; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "host%d", (int)(cur->cfg->env_seed % 7)); return 0; }
void (*sim_signal(int, void (*)(int)))(int) { return SIG_DFL; }
int sim_sigaction(int, const struct sigaction *, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); return 0; }
unsigned sim_alarm(unsigned) { return 0; }
char *sim_setlocale(int, const char *) { return (char *)"C"; }
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->tok); }

int sim_getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *li) {
	FILE *save = stderr;
	stderr = sim_stderr;
	int r = getopt_long(argc, argv, so, lo, li);
	stderr = save;
	return r;
}
int sim_getopt_long_only(int argc, char *const *argv, const char *so, const struct option *lo, int *li) {
	FILE *save = stderr; stderr = sim_stderr;
	int r = getopt_long_only(argc, argv, so, lo, li);
	stderr = save; return r;
}
int sim_getopt(int argc, char *const *argv, const char *so) {
	FILE *save = stderr; stderr = sim_stderr;
	int r = getopt(argc, argv, so);
	stderr = save; return r;
}
char *sim_getcwd(char *b, size_t n) { if (n < 2) { errno = ERANGE; return nullptr; } strcpy(b, "/"); return b; }

} // extern C
