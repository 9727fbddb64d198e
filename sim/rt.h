// Deterministic simulator runtime for asm6809: simulated kernel (files, clock,
// memory, process life cycle) under a seeded scheduler.  The assembler's own
// object code runs unmodified; its imports are redirected here by name at link
// time (see build.py).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
	uint64_t s[4];
	explicit Rng(uint64_t seed = 1) { reseed(seed); }
	static uint64_t splitmix(uint64_t &x) {
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	void reseed(uint64_t seed) { for (auto &v : s) v = splitmix(seed); }
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next() {
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
	return h;
}
inline uint64_t hstr(uint64_t h, const std::string &s) {
	for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
	return hmix(h, s.size());
}

// ---- simulated storage ----------------------------------------------------

struct Inode {
	std::string data;
	bool dir = false;
	bool noread = false, nowrite = false;
	bool pipe = false;         // what is read is gone, what is written is appended, no seeking
	size_t taken = 0;          // so much of it has been read
	uint64_t id = 0;
	int64_t mtime = 0;         // seconds
	struct Lock { int node; const void *stream; bool ex; };
	std::vector<Lock> locks;
};
typedef std::shared_ptr<Inode> InodeP;

struct FS {
	std::map<std::string, InodeP> names;
	uint64_t ids = 1000;
	long capacity = -1;  // total bytes of file data, -1: unlimited
	long used() const;
	void put(const std::string &path, const std::string &data);
	bool has(const std::string &path) const { return names.count(norm(path)) != 0; }
	std::string get(const std::string &path) const;
	FS clone() const;
	static std::string norm(const std::string &p);
};

// ---- events, faults -------------------------------------------------------

enum class Ev : uint8_t { Open, Read, Write, Close, Rename, Unlink, Mkdir, Fsync, Trunc, Stat, Std, Other };
extern const char *ev_name[];

struct EvRec {
	Ev t;
	bool wr = false;   // open for writing / write side close
	bool fault = false;
	int node = 0;
	long idx = 0;      // per node event index
	long nth = 0;      // among this node's events of this type on this path
	long n = 0;        // bytes asked
	long r = 0;        // result (bytes, or -errno)
	long off = 0;      // file offset before
	uint64_t time = 0;
	uint64_t allocs = 0;
	std::string path;
};

enum class FK : uint8_t {
	OpenErr, ReadErr, WriteErr, WriteShortErr, CloseErr, Kill, KillTorn, KillAfter,
	AllocOnce, AllocForever, StdErrFail, Mutate, RenameErr, N
};
extern const char *fk_name[];
FK fk_from(const std::string &s);

struct Fault {
	FK k;
	int node = 0;
	long at = 0;        // event index (AllocX: allocation index)
	int err = 0;        // errno
	long arg = 0;       // bytes accepted before the failure / torn
	std::string path;   // Mutate: target; else if set, at counts this kind of operation on this path
	bool wr = false;    // with a path: strikes operations on a file open for writing
	std::string data;   // Mutate: new content
	int mode = 0;       // 1: also all later ones. Mutate: 0 rewrite in place, 1 replace (new inode), 2 remove, 3 truncate in place, 4 append in place
	std::string on;     // Mutate: strikes before the at-th open of this path instead of event number at
	bool fired = false;
};

// ---- processes ------------------------------------------------------------

struct NodeCfg {
	std::vector<std::string> argv;
	uint64_t env_seed = 0;     // memory layout, fill patterns, errno, pid, environment
	bool plain_env = true;     // false: every environment dimension is perturbed from env_seed
	int read_max = 0;          // 0: whole buffer; >0 at most so many bytes a read; -1 random sizes
	int write_max = 0;         // same for writes
	bool stderr_broken = false;
	bool stdout_broken = false;
	uint64_t start = 0;
	uint64_t step_limit = 3000000000ull;
	int fd_limit = 1024;       // files open at once, the standard streams included
};

// one successful open and what reading from it delivered
struct OpenRec { std::string path; bool wr; long idx; bool eof; bool failed; std::string data, raw; };

struct NodeRes {
	std::vector<OpenRec> opens;
	bool started = false, done = false;
	bool killed = false;       // by a fault
	bool hang = false;         // step or event budget exhausted
	int sig = 0;               // died by signal
	std::string why;           // detail for sig / hang
	int code = -1;             // exit status
	std::string out, err;
	long events = 0;
	long allocs = 0;
	uint64_t steps = 0;
	long alloc_peak = 0;
	int fd_peak = 3;           // most files open at once
	int emfile = 0;            // opens refused because of fd_limit
	bool spent = false;        // used up the whole simulated memory
	uint64_t end_time = 0;
	std::vector<std::string> forbidden; // attempted effects outside the file interface
	bool ok() const { return done && !killed && !sig && !hang && code == 0; }
	bool failed_cleanly() const { return done && !killed && !sig && !hang && code == 1; }
	std::string brief() const;
};

struct World {
	FS fs;
	std::vector<NodeCfg> nodes;
	std::vector<Fault> faults;
	uint64_t sched_seed = 0;
	bool interleave = false;
	// results
	std::vector<NodeRes> res;
	std::vector<EvRec> hist;
	uint64_t hash = 0;         // of the whole history
	uint64_t switches = 0;
	uint64_t order_hash = 0;   // of the interleaving only
	uint64_t sim_ns = 0;
	void run();
	NodeRes &run1() { run(); return res[0]; }
};

struct Stats {
	uint64_t runs = 0, events = 0, steps = 0, sim_ns = 0, allocs = 0, switches = 0;
	uint64_t fired[(int)FK::N] = {0};
	uint64_t short_reads = 0, short_writes = 0, nospc = 0, emfile = 0, crashes = 0, hangs = 0, moved_reallocs = 0;
};
extern Stats stats;
void cov_reset();
size_t cov_edges();                 // distinct coverage points reached in this process
void cov_dump(std::vector<uint64_t> &out);
std::vector<std::string> cov_probes();

void init();                        // once per process
extern bool tainted;                // a node crashed or hung in this process

} // namespace sim
