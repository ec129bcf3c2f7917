// A small choice-sequence property-based testing library.
//
// Every random decision of a case goes through Src::draw, which records it.  A case is therefore
// fully described by its list of draws; shrinking edits that list (0 is always the simplest
// choice) and a replay file is that list.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

constexpr size_t MAXCH = 1 << 16;

// Lives in shared memory so that the parent sees it even when the case crashes its process.
struct Slot {
	volatile uint64_t index;
	volatile uint32_t running;
	volatile uint32_t state;          // 0 running, 1 ok, 2 discarded, 3 failed
	volatile uint32_t nchoices;
	uint32_t choices[MAXCH];
	char tag[64];
	char msg[1 << 14];
	char doc[1 << 17];
	char labels[1 << 13];
	uint32_t nontrivial;
	uint64_t hash;
};

struct Fail { std::string tag, msg; };
struct Discard { std::string why; };

class Src {
public:
	Src(Slot *slot, uint64_t seed) : slot_(slot), state_(seed) { slot->nchoices = 0; }
	Src(Slot *slot, const std::vector<uint32_t> &replay) : slot_(slot), replay_(&replay) { slot->nchoices = 0; }
	uint32_t draw(uint32_t n);                         // uniform in [0,n); 0 is simplest
	int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
	bool chance(int percent) { return (int)draw(100) >= 100 - percent; }   // false is simplest
	int weighted(const std::vector<int> &w);
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
	size_t used() const { return slot_->nchoices; }
private:
	uint64_t next();
	Slot *slot_;
	uint64_t state_ = 0;
	const std::vector<uint32_t> *replay_ = nullptr;
	size_t pos_ = 0;
};

class Ctx {
public:
	Ctx(Slot *s, Src &src, bool replaying) : src(src), replaying(replaying), slot(s) { s->doc[0] = 0; s->labels[0] = 0; s->nontrivial = 0; }
	Src &src;
	bool replaying;
	void label(const std::string &l);                  // classify the case (counted in the evidence)
	void nontrivial(bool b = true) { if (b) nt_ = true; }
	void doc(const std::string &text);                 // append to the rendered case
	void docf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const std::string &tag, const std::string &msg);
	[[noreturn]] void failf(const char *tag, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
	[[noreturn]] void discard(const std::string &why) { throw Discard{why}; }
	// A recorded genuine defect (known_findings.txt): returns true when `key` is listed for this
	// property, in which case the caller must treat the observation as that finding.
	bool known(const std::string &key);
	void finish();
	Slot *slot;
private:
	std::string doc_, labels_;
	bool nt_ = false;
};

struct Part {
	std::string prop, name, rule;
	long quick, thorough;
	bool isolated;                     // fork a child for every case
	std::function<void(Ctx &)> fn;
	std::function<long()> exhaustive;  // if set: number of cases; the first draw of case i is i, the rest 0
	std::function<void()> prepare = nullptr;        // run once per worker before the first case
};

void add(const Part &p);
struct Reg { Reg(const Part &p) { add(p); } };
int main(int argc, char **argv);

// Per-process scratch directory (removed by the parent at the end).
const std::string &scratch();
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull);
int tier_thorough();

} // namespace pbt
