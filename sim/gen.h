// Seeded generator of source programs within the subset the model understands.
#pragma once
#include "model.h"

namespace gen {
using sim::Rng;

struct Proj {
	std::map<std::string, std::string> files;   // everything that exists at the start
	std::vector<std::string> mains, incs, bins; // roles of the files
	std::vector<std::string> opts;              // -3, -d, -e, -P ...
	char fmt = 'B';
	std::string out, list, exps, syms;          // output names, empty: not asked for
	std::vector<std::string> argv() const;
	std::vector<std::string> outputs() const;
};

struct Feat {
	int lines = 30;
	bool isa3 = false, fwd = true, sects = false, macros = false, incl = false, bins = false, floats = false,
	     strs = true, exps = false, locals = true, conds = false, setdp = false, orgs = false, big = false, put = false,
	     end = false, comments = true, defs = false, setv = false, multi = false, pcr = true, align = true, rmb = true,
	     afterend = false, exec = false, warn = true, late = false, regs = false, wide = false, bulk = false;
	bool data_heavy = false;
	int org = -1;        // fixed first org, -1: any
	std::string prefix;  // of every name defined
};
Feat swarm(Rng &r);
Proj program(Rng &r, const Feat &f);
void all_outputs(Rng &r, Proj &p, int keep_of_4 = 4);
// Inserts a line that makes the run fail.  Returns the kind.
std::string inject_error(Rng &r, Proj &p, int kind = -1);
extern const int error_kinds;
std::string junk(Rng &r, size_t n);

} // namespace gen
