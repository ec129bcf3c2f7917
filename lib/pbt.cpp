#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <dirent.h>

namespace pbt {

static std::vector<Part> &parts() { static std::vector<Part> v; return v; }
void add(const Part &p) { parts().push_back(p); }

static std::string g_scratch, g_prop;
static int g_thorough = 0;
static std::map<std::string, std::string> g_known;   // key -> description, for g_prop
static const int HANG_EXIT = 78;
static const int CASE_CPU_SECONDS = 30;

const std::string &scratch() { return g_scratch; }
int tier_thorough() { return g_thorough; }

std::string sfmt(const char *fmt, ...)
{
	char buf[1 << 14];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	return buf;
}

uint64_t fnv(const std::string &s, uint64_t h)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

static uint64_t splitmix(uint64_t &x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

uint64_t Src::next() { return splitmix(state_); }

uint32_t Src::draw(uint32_t n)
{
	if (n == 0) n = 1;
	uint32_t v;
	if (replay_) {
		v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
		pos_++;
		if (v >= n) v = n - 1;
	} else {
		v = (uint32_t)(next() % n);
	}
	if (slot_->nchoices < MAXCH) { slot_->choices[slot_->nchoices] = v; slot_->nchoices = slot_->nchoices + 1; }
	else throw Discard{"too many draws"};
	return v;
}

int Src::weighted(const std::vector<int> &w)
{
	int sum = 0;
	for (int x : w) sum += x;
	if (sum <= 0) return 0;
	int r = (int)draw((uint32_t)sum);
	for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int)i; r -= w[i]; }
	return 0;
}

void Ctx::label(const std::string &l)
{
	// one count per case and label
	std::string pat = "\n" + l + "\n";
	if (("\n" + labels_).find(pat) == std::string::npos) labels_ += l + "\n";
}
void Ctx::doc(const std::string &t) { doc_ += t; strncpy(slot->doc, doc_.c_str(), sizeof(slot->doc) - 1); }
void Ctx::docf(const char *fmt, ...)
{
	char buf[1 << 13];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	doc(buf);
}
void Ctx::fail(const std::string &tag, const std::string &msg) { throw Fail{tag, msg}; }
void Ctx::failf(const char *tag, const char *fmt, ...)
{
	char buf[1 << 13];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw Fail{tag, buf};
}
bool Ctx::known(const std::string &key)
{
	if (!g_known.count(key)) return false;
	label("KNOWN-FINDING:" + key);
	return true;
}
void Ctx::finish()
{
	strncpy(slot->labels, labels_.c_str(), sizeof(slot->labels) - 1);
	slot->nontrivial = nt_;
	slot->hash = fnv(doc_);
}

// once per second of CPU time: a case which loops or eats the memory is ended
static volatile int seconds_left;
static void on_prof(int)
{
	struct rusage ru;
	if (--seconds_left <= 0 || (getrusage(RUSAGE_SELF, &ru) == 0 && ru.ru_maxrss > 3L << 20)) _exit(HANG_EXIT);
}
static void arm(int secs)
{
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_flags = SA_RESTART;
	sa.sa_handler = on_prof;
	sigaction(SIGPROF, &sa, nullptr);
	struct itimerval it; memset(&it, 0, sizeof it);
	seconds_left = secs;
	it.it_value.tv_sec = it.it_interval.tv_sec = secs > 0;
	setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process, leaving its result in the slot.
static void run_here(const Part &p, Slot *slot, Src &src, bool replaying)
{
	memset(slot->tag, 0, sizeof slot->tag);
	slot->msg[0] = 0;
	memset(slot->doc, 0, 64);
	memset(slot->labels, 0, sizeof slot->labels);
	slot->state = 0;
	slot->running = 1;
	Ctx c(slot, src, replaying);
	arm(CASE_CPU_SECONDS);
	try {
		p.fn(c);
		c.finish();
		slot->state = 1;
	} catch (const Discard &d) {
		c.label("discard: " + d.why);
		c.finish();
		slot->state = 2;
	} catch (const Fail &f) {
		c.finish();
		strncpy(slot->tag, f.tag.c_str(), sizeof(slot->tag) - 1);
		strncpy(slot->msg, f.msg.c_str(), sizeof(slot->msg) - 1);
		slot->state = 3;
	}
	arm(0);
	slot->running = 0;
}

static std::string slurp(const std::string &path)
{
	std::ifstream f(path);
	std::stringstream ss; ss << f.rdbuf();
	return ss.str();
}

static std::string crash_summary(int status, const std::string &err)
{
	std::string s;
	if (WIFEXITED(status) && WEXITSTATUS(status) == HANG_EXIT)
		return sfmt("did not finish within %d s of CPU time and 3 GB of memory", CASE_CPU_SECONDS);
	std::istringstream is(err);
	std::string line;
	while (std::getline(is, line)) {
		if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
		    line.find("runtime error:") != std::string::npos ||
		    line.find("Assertion") != std::string::npos ||
		    line.find("SUMMARY:") != std::string::npos)
			s += line + "\n";
	}
	if (WIFSIGNALED(status)) s += sfmt("killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
	else if (WIFEXITED(status)) s += sfmt("exited with status %d", WEXITSTATUS(status));
	return s.substr(0, 4000);
}

static void child_setup(const std::string &errfile)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	int fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	int in = open("/dev/null", O_RDWR);
	if (in >= 0) { dup2(in, 0); dup2(in, 1); close(in); }
	signal(SIGPIPE, SIG_DFL);
}

// Runs one case in a forked child; returns true if it failed (tag/msg in slot).
static bool run_forked(const Part &p, Slot *slot, const std::vector<uint32_t> *choices, uint64_t seed,
		       const std::string &errfile, bool replaying, bool setup)
{
	slot->state = 0;
	slot->running = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		if (setup) child_setup(errfile);
		else { prctl(PR_SET_PDEATHSIG, SIGKILL); if (ftruncate(2, 0)) {} }
		if (choices) { Src s(slot, *choices); run_here(p, slot, s, replaying); }
		else { Src s(slot, seed); run_here(p, slot, s, replaying); }
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && slot->state != 0)
		return slot->state == 3;
	slot->state = 3;
	strcpy(slot->tag, "crash");
	std::string m = crash_summary(status, slurp(errfile));
	strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
	slot->nontrivial = 1;
	slot->hash = fnv(slot->doc);
	return true;
}

struct Stats {
	uint64_t evals = 0, nontriv = 0, discarded = 0;
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
};

static void account(Stats &st, Slot *slot, size_t maxsamples)
{
	st.evals++;
	if (slot->state == 2) st.discarded++;
	if (slot->state == 1 && slot->nontrivial) {
		st.nontriv++;
		if (st.distinct.insert(slot->hash).second && st.samples.size() < maxsamples)
			st.samples.push_back(std::string(slot->doc).substr(0, 1500));
	}
	char *s = slot->labels;
	while (*s) { char *e = strchr(s, '\n'); if (!e) break; st.labels[std::string(s, e - s)]++; s = e + 1; }
}

static void save_stats(const Stats &st, const std::string &path)
{
	std::ofstream f(path, std::ios::binary);
	f << st.evals << " " << st.nontriv << " " << st.discarded << "\n";
	f << st.labels.size() << "\n";
	for (auto &l : st.labels) f << l.second << " " << l.first << "\n";
	f << st.samples.size() << "\n";
	for (auto &s : st.samples) { f << s.size() << "\n"; f.write(s.data(), s.size()); f << "\n"; }
	f << st.distinct.size() << "\n";
	for (auto h : st.distinct) f.write((const char *)&h, 8);
}

static void load_stats(Stats &st, const std::string &path)
{
	std::ifstream f(path, std::ios::binary);
	if (!f) return;
	uint64_t a, b, c; f >> a >> b >> c;
	st.evals += a; st.nontriv += b; st.discarded += c;
	size_t n; f >> n; std::string line; std::getline(f, line);
	for (size_t i = 0; i < n; i++) {
		std::getline(f, line);
		size_t sp = line.find(' ');
		st.labels[line.substr(sp + 1)] += strtoull(line.c_str(), nullptr, 10);
	}
	f >> n; std::getline(f, line);
	for (size_t i = 0; i < n; i++) {
		size_t len; f >> len; std::getline(f, line);
		std::string s(len, 0); f.read(&s[0], len); std::getline(f, line);
		st.samples.push_back(s);
	}
	f >> n; std::getline(f, line);
	for (size_t i = 0; i < n; i++) { uint64_t h; f.read((char *)&h, 8); st.distinct.insert(h); }
}

static std::string json_str(const std::string &s)
{
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) o += sfmt("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}

struct Failure { bool found = false; size_t part = 0; uint64_t index = 0; std::vector<uint32_t> choices; std::string tag, msg, doc; };

static void capture(Failure &f, size_t part, Slot *slot)
{
	f.found = true; f.part = part; f.index = slot->index;
	f.choices.assign(slot->choices, slot->choices + slot->nchoices);
	while (!f.choices.empty() && f.choices.back() == 0) f.choices.pop_back();   // exhausted draws are 0
	f.tag = slot->tag; f.msg = slot->msg; f.doc = slot->doc;
}

static uint64_t case_seed(uint64_t seed, const Part &p, uint64_t i)
{
	uint64_t x = fnv(p.prop + "/" + p.name) ^ (seed * 0x9e3779b97f4a7c15ull);
	splitmix(x);
	x ^= i * 0xd1342543de82ef95ull;
	splitmix(x);
	return x;
}

// Worker body: cases w, w+W, ... of one part.
static void worker(const Part &p, Slot *slot, uint64_t seed, long from, long total, int w, int W,
		   const std::string &errfile, const std::string &statfile, volatile uint32_t *stop)
{
	child_setup(errfile);
	Stats st;
	if (p.prepare) p.prepare();
	for (long i = from; i < total && !*stop; i += W) {
		slot->index = i;
		struct stat sb;
		if (!p.isolated && fstat(2, &sb) == 0 && sb.st_size > (1 << 20) && ftruncate(2, 0)) {}
		if (p.exhaustive) {
			std::vector<uint32_t> v{(uint32_t)i};
			if (p.isolated) run_forked(p, slot, &v, 0, errfile, false, false);
			else { Src s(slot, v); run_here(p, slot, s, false); }
		} else if (p.isolated) {
			run_forked(p, slot, nullptr, case_seed(seed, p, i), errfile, false, false);
		} else {
			Src s(slot, case_seed(seed, p, i));
			run_here(p, slot, s, false);
		}
		if (slot->state == 3) {
			*stop = 1;
			save_stats(st, statfile);
			_exit(9);
		}
		account(st, slot, 2);
	}
	save_stats(st, statfile);
	_exit(0);
}

static void rm_rf(const std::string &d)
{
	DIR *dh = opendir(d.c_str());
	if (!dh) return;
	while (struct dirent *e = readdir(dh)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat sb;
		if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rm_rf(p);
		else unlink(p.c_str());
	}
	closedir(dh);
	rmdir(d.c_str());
}

static Slot *new_slot()
{
	void *m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Slot *)m;
}

static bool attempt(const Part &p, Slot *slot, const std::vector<uint32_t> &ch, const std::string &tag, Failure *out, size_t part)
{
	bool bad = run_forked(p, slot, &ch, 0, g_scratch + "/shrink.err", true, true);
	if (bad && (tag.empty() || tag == slot->tag)) { if (out) { uint64_t idx = out->index; capture(*out, part, slot); out->index = idx; } return true; }
	return false;
}

static void shrink(const Part &p, Slot *slot, Failure &f, double budget)
{
	auto t0 = std::chrono::steady_clock::now();
	auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
	bool progress = true;
	int attempts = 0;
	while (progress && !over()) {
		progress = false;
		// delete chunks
		for (size_t len = std::max<size_t>(1, f.choices.size() / 2); len >= 1 && !over(); len /= 2) {
			for (size_t i = 0; i + len <= f.choices.size() && !over();) {
				auto c = f.choices;
				c.erase(c.begin() + i, c.begin() + i + len);
				attempts++;
				if (attempt(p, slot, c, f.tag, &f, f.part) && f.choices.size() < c.size() + len) { progress = true; }
				else i += std::max<size_t>(1, len / 2);
			}
		}
		// zero chunks, then lower values
		for (size_t len : {8, 4, 2, 1})
			for (size_t i = 0; i + len <= f.choices.size() && !over(); i += len) {
				bool nz = false;
				for (size_t k = i; k < i + len; k++) nz |= f.choices[k] != 0;
				if (!nz) continue;
				auto c = f.choices;
				for (size_t k = i; k < i + len; k++) c[k] = 0;
				auto before = f.choices;
				if (attempt(p, slot, c, f.tag, &f, f.part)) {
					if (f.choices.size() > before.size()) { f.choices = before; attempt(p, slot, before, f.tag, &f, f.part); }
					else progress = true;
				}
			}
		for (size_t i = 0; i < f.choices.size() && !over(); i++) {
			uint32_t lo = 0, hi = f.choices[i];
			while (lo < hi && !over()) {
				uint32_t mid = lo + (hi - lo) / 2;
				auto c = f.choices; c[i] = mid;
				auto before = f.choices;
				if (attempt(p, slot, c, f.tag, &f, f.part) && f.choices.size() <= before.size() && i < f.choices.size()) { hi = mid; progress = true; }
				else { f.choices = before; lo = mid + 1; }
			}
			if (attempts > 20000) return;
		}
	}
	attempt(p, slot, f.choices, f.tag, &f, f.part);
}

static std::string write_replay(const Failure &f, const std::string &dir, uint64_t seed)
{
	const Part &p = parts()[f.part];
	mkdir(dir.c_str(), 0755);
	std::string path = dir + "/" + p.prop + "-" + p.name + sfmt("-%016llx.replay", (unsigned long long)fnv(f.doc + f.tag));
	std::ofstream o(path);
	o << "property " << p.prop << "\npart " << p.name << "\nseed " << seed << "\ncase " << f.index << "\nchoices";
	for (auto c : f.choices) o << " " << c;
	o << "\n--- failure (" << f.tag << ")\n" << f.msg << "\n--- case\n" << f.doc << "\n";
	return path;
}

int main(int argc, char **argv)
{
	std::string tier = "quick", evidence, outdir = "/verif/out", replay, only, knownf;
	uint64_t seed = 1;
	int W = 8;
	double scale = 1;
	long onecase = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if (a == "--prop") g_prop = val();
		else if (a == "--tier") tier = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--workers") W = atoi(val().c_str());
		else if (a == "--evidence") evidence = val();
		else if (a == "--out") outdir = val();
		else if (a == "--replay") replay = val();
		else if (a == "--part") only = val();
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--known") knownf = val();
		else if (a == "--case") onecase = atol(val().c_str());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	g_thorough = tier == "thorough";
	setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0", 0);

	if (!knownf.empty()) {
		std::ifstream f(knownf);
		std::string line;
		while (std::getline(f, line)) {
			// known: property=C01 key=some-key free text
			char prop[32], key[128];
			if (sscanf(line.c_str(), "known: property=%31s key=%127s", prop, key) == 2 && g_prop == prop)
				g_known[key] = line.substr(line.find(key) + strlen(key));
		}
	}

	char tmpl[64];
	snprintf(tmpl, sizeof tmpl, "%s/keydpbt.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
	if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	g_scratch = tmpl;
	struct Clean { ~Clean() { rm_rf(g_scratch); } } clean;
	pid_t me = getpid();

	std::vector<size_t> sel;
	for (size_t i = 0; i < parts().size(); i++)
		if (parts()[i].prop == g_prop && (only.empty() || parts()[i].name == only)) sel.push_back(i);
	if (sel.empty() && replay.empty()) { fprintf(stderr, "no such property %s here\n", g_prop.c_str()); return 2; }

	auto t0 = std::chrono::steady_clock::now();
	auto wall = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	std::vector<Slot *> slots;
	for (int i = 0; i < W; i++) slots.push_back(new_slot());

	std::string base = g_scratch;
	auto wdir = [&](int w) { std::string d = base + sfmt("/w%d", w); mkdir(d.c_str(), 0777); return d; };

	if (!replay.empty()) {
		std::ifstream f(replay);
		std::string line, part; std::vector<uint32_t> ch;
		while (std::getline(f, line)) {
			if (line.rfind("property ", 0) == 0) g_prop = line.substr(9);
			if (line.rfind("part ", 0) == 0) part = line.substr(5);
			if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); uint32_t v; while (is >> v) ch.push_back(v); break; }
		}
		for (size_t i = 0; i < parts().size(); i++)
			if (parts()[i].prop == g_prop && parts()[i].name == part) {
				g_scratch = wdir(0);
				Failure fl;
				bool bad = attempt(parts()[i], slots[0], ch, "", &fl, i);
				g_scratch = base;
				printf("%s\n", bad ? ("FAILS (" + fl.tag + ")\n" + fl.msg + "\n--- case\n" + fl.doc).c_str() : ("PASSES\n" + std::string(slots[0]->doc)).c_str());
				if (bad) printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), replay.c_str());
				return bad ? 1 : 0;
			}
		fprintf(stderr, "part not found\n");
		return 2;
	}
	if (onecase >= 0) {   // debugging aid: run one case by index and print it
		const Part &p = parts()[sel[0]];
		g_scratch = wdir(0);
		slots[0]->index = onecase;
		bool bad = run_forked(p, slots[0], nullptr, case_seed(seed, p, onecase), g_scratch + "/err", false, true);
		printf("%s %s\n%s\n--- case\n%s\nlabels: %s\n", bad ? "FAILS" : "ok", slots[0]->tag, slots[0]->msg, slots[0]->doc, slots[0]->labels);
		g_scratch = base;
		return bad;
	}

	Failure fail;
	Stats total;
	std::map<std::string, uint64_t> per_part;
	std::string rules;
	int unreproduced = 0;
	bool exhaustive = true;
	for (size_t pi : sel) {
		const Part &p = parts()[pi];
		long n = g_thorough ? p.thorough : p.quick;
		if (p.exhaustive) n = p.exhaustive(); else { n = (long)(n * scale); if (n < 1) n = 1; exhaustive = false; }
		uint32_t *stop = (uint32_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::vector<pid_t> pids(W, 0);
		std::vector<long> from(W);
		auto start = [&](int w, long f, int gen) {
			fflush(nullptr);
			pid_t pid = fork();
			if (pid == 0) {
				g_scratch = wdir(w);
				worker(p, slots[w], seed, f, n, w, W, base + sfmt("/w%d.err", w), base + sfmt("/stat.%zu.%d.%d", pi, w, gen), stop);
			}
			pids[w] = pid;
		};
		for (int w = 0; w < W; w++) { from[w] = w; start(w, w, 0); }
		int live = W, gen = 1;
		std::vector<Failure> cands;
		while (live > 0) {
			int status;
			pid_t pid = waitpid(-1, &status, 0);
			if (pid < 0) { if (errno == EINTR) continue; break; }
			int w = -1;
			for (int k = 0; k < W; k++) if (pids[k] == pid) w = k;
			if (w < 0) continue;
			pids[w] = 0;
			live--;
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
			if (!(WIFEXITED(status) && WEXITSTATUS(status) == 9)) {
				strcpy(slots[w]->tag, "crash");
				std::string m = crash_summary(status, slurp(base + sfmt("/w%d.err", w)));
				strncpy(slots[w]->msg, m.c_str(), sizeof(slots[w]->msg) - 1);
			}
			*stop = 1;
			Failure f; capture(f, pi, slots[w]);
			// must fail again, three times, from its recorded draws alone
			g_scratch = wdir(w);
			int again = 0;
			for (int k = 0; k < 3; k++) again += attempt(p, slots[w], f.choices, f.tag, nullptr, pi);
			g_scratch = base;
			if (again == 3) cands.push_back(f);
			else {
				unreproduced++;
				fprintf(stderr, "note: failure of case %llu of %s/%s (%s: %s) did not reproduce (%d/3), ignored\n",
					(unsigned long long)f.index, p.prop.c_str(), p.name.c_str(), f.tag.c_str(), f.msg.c_str(), again);
				if (cands.empty()) *stop = 0;
				if (unreproduced < 50) { start(w, (long)f.index + W, gen++); live++; }
			}
		}
		for (auto &f : cands) if (!fail.found || f.index < fail.index) fail = f;
		DIR *dh = opendir(base.c_str());
		uint64_t before = total.evals;
		std::vector<std::string> files;
		while (struct dirent *e = readdir(dh)) if (strncmp(e->d_name, "stat.", 5) == 0) files.push_back(base + "/" + e->d_name);
		closedir(dh);
		std::sort(files.begin(), files.end());
		for (auto &f : files) { load_stats(total, f); unlink(f.c_str()); }
		per_part[p.name] = total.evals - before;
		rules += (rules.empty() ? "" : " | ") + p.name + ": " + p.rule;
		if (fail.found) break;
	}
	(void)me;

	std::string replay_path;
	if (fail.found) {
		g_scratch = wdir(0);
		Failure orig = fail;
		shrink(parts()[fail.part], slots[0], fail, g_thorough ? 120 : 45);
		int again = 0;
		for (int k = 0; k < 3; k++) again += attempt(parts()[fail.part], slots[0], fail.choices, fail.tag, nullptr, fail.part);
		g_scratch = base;
		if (again != 3) fail = orig;
		replay_path = write_replay(fail, outdir, seed);
	}

	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\n \"property\": " << json_str(g_prop) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
		  << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total.evals
		  << ",\n  \"distinct_nontrivial\": " << total.distinct.size() << ",\n  \"nontrivial\": " << total.nontriv
		  << ",\n  \"discarded\": " << total.discarded << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false")
		  << ",\n  \"unreproduced_failures\": " << unreproduced
		  << ",\n  \"rule\": " << json_str(rules) << ",\n  \"parts\": {";
		bool first = true;
		for (auto &x : per_part) { o << (first ? "" : ", ") << json_str(x.first) << ": " << x.second; first = false; }
		o << "},\n  \"labels\": {";
		first = true;
		for (auto &x : total.labels) { o << (first ? "" : ", ") << json_str(x.first) << ": " << x.second; first = false; }
		o << "},\n  \"samples\": [";
		size_t step = total.samples.size() > 6 ? total.samples.size() / 6 : 1, cnt = 0;
		for (size_t i = 0; i < total.samples.size() && cnt < 6; i += step, cnt++) o << (cnt ? ",\n   " : "\n   ") << json_str(total.samples[i]);
		o << "]\n },\n \"wall_s\": " << sfmt("%.1f", wall()) << ",\n \"violations\": " << (fail.found ? 1 : 0) << "\n}\n";
	}

	for (auto &k : g_known)
		printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), (k.first + k.second).c_str());
	if (fail.found) {
		printf("%s/%s: %s\n%s\n--- case %llu (shrunk)\n%s\n", g_prop.c_str(), parts()[fail.part].name.c_str(), fail.tag.c_str(), fail.msg.c_str(), (unsigned long long)fail.index, fail.doc.c_str());
		printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), replay_path.c_str());
		return 1;
	}
	printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s\n", g_prop.c_str(), (unsigned long long)total.evals,
	       total.distinct.size(), (unsigned long long)total.discarded, wall());
	if (unreproduced) printf("%d failures did not reproduce\n", unreproduced);
	return 0;
}

} // namespace pbt
