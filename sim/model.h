// Independent reference assembler used as the oracle: own lexer, parser,
// evaluator and pass loop over a defined subset of the language.  Anything
// outside that subset makes it answer UNKNOWN instead of guessing.
#pragma once
#include "rt.h"
#include <functional>

namespace model {

struct Val {
	enum T { Undef, Empty, Int, Float, Reg, Str, Arr } t = Undef;
	int64_t i = 0; double f = 0; std::string s; std::vector<Val> a;
	int attr = 0;
	static Val I(int64_t v) { Val x; x.t = Int; x.i = v; return x; }
	static Val F(double v) { Val x; x.t = Float; x.f = v; return x; }
	static Val S(const std::string &v) { Val x; x.t = Str; x.s = v; return x; }
	bool same(const Val &o) const;
	std::string show() const;
};

enum Level { L_none, L_inefficient, L_illegal, L_inconsistent, L_range, L_syntax, L_data, L_fatal };
struct Err { int level; std::string file; int line; std::string what; };

struct LLine { bool has = false; int pc = 0; std::string bytes; std::string text; std::string file; int line = 0; bool optional = false; };

struct Opts {
	char fmt = 'B';
	std::string exec; bool has_exec = false;
	bool isa6309 = false;
	std::vector<std::string> defs;
	int max_passes = 12;
	std::string out, list, exports, symbols;
	bool has_out = false, has_list = false, has_exp = false, has_sym = false;
	int verbosity = 0;
	std::vector<std::string> files;
	bool bad = false;      // not understood
	bool usage = false;    // certain failure
};
Opts parse_opts(const std::vector<std::string> &argv);

struct Pred {
	enum { OK, FAIL, UNKNOWN } st = UNKNOWN;
	std::string why;
	std::vector<Err> errs;       // of the deciding phase
	int level = 0;
	bool parse_phase = false, output_phase = false;
	int passes = 0;              // passes until nothing changed
	std::map<uint32_t, uint8_t> mem;
	bool overlap = false;
	bool warned = false, isa6309 = false;
	std::map<std::string, Val> syms;
	std::set<std::string> exports, macros;
	std::vector<LLine> listing;
	int exec = -1;
	uint64_t sighash() const;
	bool ok() const { return st == OK; }
	bool fail() const { return st == FAIL; }
};
// seq: what successive readings of a binary file deliver, pass by pass (the
// last one again for all later passes)
typedef std::map<std::string, std::vector<std::string>> BinSeq;
Pred predict(const sim::FS &fs, const std::vector<std::string> &argv, const BinSeq *seq = nullptr);

// Parse the text of an exports or symbols file.  False if it does not parse.
bool parse_symfile(const std::string &text, bool isa6309, std::map<std::string, Val> &syms, std::set<std::string> &macros, std::string &why);

// Image decoders.  False (with a reason) if the file is malformed.
struct Image { std::map<uint32_t, uint8_t> mem; int exec = -1; bool has_exec = false; int load = -1; std::string raw; };
bool decode(char fmt, const std::string &data, Image &im, std::string &why);
// Compares the decoded image with a prediction.
bool image_matches(char fmt, const std::string &data, const Pred &p, std::string &why);
bool listing_matches(const std::string &data, const Pred &p, std::string &why);
bool symbols_match(const std::string &data, const Pred &p, std::string &why);
bool exports_match(const std::string &data, const Pred &p, std::string &why);

bool is_register(const std::string &w, bool isa6309);
struct Isa { const char *name; int only6309; int kind; int imm, dir, idx, ext; };
enum { K_NONE, K_INH, K_IMM8, K_IMM16, K_IMM32, K_PAIR, K_STKU, K_STKS, K_REL8, K_REL16, K_IMM8MEM, K_REGMEM, K_TFM };
extern const Isa isa_table[];
extern const int isa_count;
std::string lower(std::string s);
std::vector<std::string> split_lines(const std::string &s);
std::string expand_tabs(const std::string &s);

} // namespace model
