// Properties: scenario (Case), generation, deciding check, minimisation, replay files.
#pragma once
#include "gen.h"

namespace props {

struct Case {
	std::string prop, kind;
	uint64_t seed = 0;                          // schedule
	std::map<std::string, std::string> files;   // everything on storage at the start
	std::set<std::string> dirs, noread, nowrite;
	long capacity = -1;
	bool interleave = false;
	std::vector<sim::NodeCfg> nodes;
	std::vector<sim::Fault> faults;
	std::map<std::string, std::string> par;
	long num(const std::string &k, long d = 0) const { auto i = par.find(k); return i == par.end() ? d : atol(i->second.c_str()); }
	std::string str(const std::string &k) const { auto i = par.find(k); return i == par.end() ? "" : i->second; }
};

struct Verdict {
	bool bad = false;
	std::string cls, msg;     // kind of violation, details
	bool nontrivial = false;
	uint64_t key = 0;         // identity of the execution
	uint64_t hash = 0;        // of every history the check ran
	std::vector<std::string> trace;
};

Verdict check(const Case &c);
std::vector<Case> generate(const std::string &prop, uint64_t seed);
const char *rule(const std::string &prop);

std::string save(const Case &c, const Verdict &v);
bool load(const std::string &text, Case &c, std::string &cls, uint64_t &hash);
std::vector<Case> shrinks(const Case &c);      // simpler candidates, in order
sim::World world_of(const Case &c);            // not yet run

extern bool want_trace;

} // namespace props
