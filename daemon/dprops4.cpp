// C33: commands.  keyd's children are real processes; exec is a stand-in which records what it was
// asked to run (part "exact"), or a real shell with harmless text (part "shell").
#include "world.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

extern "C" int __real_execve(const char *, char *const[], char *const[]);

enum Mode { RECORD, LINGER, REFUSE, SHELL };
static struct {
	Mode mode;
	int rec, life[2], hold[2], in[2];
	std::vector<struct stat> std_ids;
	std::set<int> before;
} X;

static std::set<int> inheritable()
{
	std::set<int> s;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return s;
	while (struct dirent *e = readdir(d)) {
		int fd = atoi(e->d_name);
		if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
		int fl = fcntl(fd, F_GETFD);
		if (fl >= 0 && !(fl & FD_CLOEXEC)) s.insert(fd);
	}
	closedir(d);
	return s;
}

// In the child, instead of exec.
static int stand_in(const char *path, char *const argv[])
{
	std::string faults;
	if (!sh_spawned) {
		for (int fd = 0; fd < 3; fd++) {
			struct stat st;
			if (fstat(fd, &st)) continue;
			for (auto &o : X.std_ids) if (st.st_dev == o.st_dev && st.st_ino == o.st_ino && !S_ISCHR(st.st_mode)) faults += sfmt("descriptor %d is keyd's own; ", fd);
		}
	}
	std::string inh = ks::inherited();
	if (inh.size()) faults += "inherits " + inh;
	for (int fd : inheritable()) if (fd > 2 && !X.before.count(fd)) {
		char p[64], b[256];
		snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		ssize_t n = readlink(p, b, sizeof b - 1);
		if (n > 0 && std::string(b, n) != "/dev/null") { b[n] = 0; faults += sfmt("inherits %s; ", strrchr(b, '/') ? strrchr(b, '/') + 1 : b); }
	}
	std::string r = std::to_string(ks::now()) + std::string(1, 0) + path + std::string(1, 0) + faults + std::string(1, 0);
	int n = 0;
	for (; argv[n]; n++) ;
	r += std::to_string(n) + std::string(1, 0);
	for (int i = 0; i < n; i++) r += std::string(argv[i]) + std::string(1, 0);
	uint32_t len = r.size();
	r = std::string((char *)&len, 4) + r;
	if (write(X.rec, r.data(), r.size()) != (ssize_t)r.size()) _Exit(99);
	if (X.mode == REFUSE) { alarm(8); errno = ENOENT; return -1; }
	if (X.mode == SHELL) { char *env[] = {(char *)"PATH=/usr/bin:/bin", nullptr}; __real_execve(path, argv, env); }
	if (X.mode == LINGER) { close(X.hold[1]); char b; while (read(X.hold[0], &b, 1) > 0) ; }
	_Exit(0);
}

struct Rec { long t; std::string path, faults; std::vector<std::string> argv; };
static std::vector<Rec> records()
{
	std::string s;
	char b[4096]; ssize_t n;
	lseek(X.rec, 0, SEEK_SET);
	while ((n = read(X.rec, b, sizeof b)) > 0) s.append(b, n);
	std::vector<Rec> v;
	for (size_t i = 0; i + 4 <= s.size();) {
		uint32_t len; memcpy(&len, s.data() + i, 4);
		std::string r = s.substr(i + 4, len);
		i += 4 + len;
		std::vector<std::string> f;
		for (size_t p = 0; p < r.size();) { size_t q = r.find('\0', p); f.push_back(r.substr(p, q - p)); p = q + 1; }
		Rec x{(atol(f[0].c_str()) - ks::start_time) / 1000, f[1], f[2], {}};
		x.argv.assign(f.begin() + 4, f.end());
		v.push_back(x);
	}
	std::sort(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.t != b.t ? a.t < b.t : a.argv < b.argv; });
	return v;
}

static void prepare(Mode m)
{
	X.mode = m;
	X.rec = open("rec", O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
	if (pipe2(X.life, 0) || pipe2(X.hold, O_CLOEXEC) || pipe2(X.in, O_CLOEXEC)) { perror("pipe"); _Exit(3); }
	dup2(X.in[0], 0);               // keyd's standard input: a pipe nobody writes to
	X.before = inheritable();
	sh_real_exec = 1;
	sh_exec = stand_in;
}

static void note_std() { X.std_ids.clear(); for (int fd = 0; fd < 3; fd++) { struct stat st; if (!fstat(fd, &st)) X.std_ids.push_back(st); } }

// All of keyd's children must end, none may be left as a zombie.
static void children(Ctx &c)
{
	close(X.hold[1]);
	close(X.life[1]);
	struct pollfd p = {X.life[0], POLLIN, 0};
	int r;
	while ((r = poll(&p, 1, 5000)) < 0 && errno == EINTR) ;
	if (r == 0) c.fail("left-running", X.mode == REFUSE ? "the shell could not be run, and the child process goes on as a second keyd" : "a child process of keyd is still running");
	for (int i = 0; i < 200; i++) {
		int st;
		pid_t w = waitpid(-1, &st, WNOHANG);
		if (w > 0) c.fail("zombie", "keyd leaves a dead child process behind");
		if (w < 0) return;
		usleep(10000);
	}
	c.fail("left-running", "a child process of keyd is still there");
}

static Profile prof_commands()
{
	Profile p = prof_daemon();
	p.w = std::vector<int>(NKINDS, 0);
	p.w[COMMAND] = 40; p.w[KEY] = 25; p.w[LAYER] = 12; p.w[ONESHOT] = 12; p.w[TOGGLE] = 5; p.w[OVERLOAD] = 8; p.w[OVERLOADT] = 6; p.w[TIMEOUT] = 6; p.w[OVERLOADT2] = 4; p.w[OVERLOADI] = 4; p.w[MACRO] = 3;
	p.w2 = p.w;
	p.nested = std::vector<int>(NKINDS, 0);
	p.nested[COMMAND] = 50; p.nested[KEY] = 20; p.nested[ONESHOT] = 8; p.nested[LAYER] = 8;
	p.max_events = 24;
	p.pool_lo = 4; p.pool_hi = 6;
	return p;
}

static void play(const std::vector<In> &h, Dev *kb)
{
	long last = -1; int sub = 0;
	for (auto &e : h) {
		if (e.t != last) { last = e.t; sub = 0; }
		int lc = linux_codes(e.code)[0], v = e.pressed;
		ks::at(us(e.t) + 10 * sub++, [kb, lc, v] { ks::key(kb, lc, v); });
	}
}

static void c33(Ctx &c)
{
	enter();
	Profile p = prof_commands();
	Case k = gen_case(c.src, p);
	for (int x : k.pool) if (linux_codes(x).empty()) c.discard("no such key on real devices");
	// some commands are bound while keyd runs
	Cfg file = k.cfg;
	std::vector<std::string> later;
	for (auto &l : file.layers)
		for (size_t i = 0; i < l.binds.size();) {
			if (l.binds[i].keys.size() == 1 && l.binds[i].a.k == COMMAND && c.src.chance(12)) {
				later.push_back((l.name == "main" ? "" : l.name + ".") + render_binding(file, l.binds[i]));
				l.binds.erase(l.binds.begin() + i);
			} else i++;
		}
	std::string text = render(file);
	if (!lines_ok(text)) c.discard("line too long");
	int ncmd = 0;
	for (size_t q = 0; (q = text.find("command(", q)) != std::string::npos; q++) ncmd++;
	if (ncmd + later.size() > 60) c.discard("too many commands");
	auto h = gen_history(c.src, p, k);
	Mode mode = c.src.chance(12) ? REFUSE : c.src.chance(35) ? LINGER : RECORD;
	Model m(k.cfg);
	for (auto &e : h) m.key(e.code, e.pressed, e.t);
	long end = h.back().t + 3000;
	m.advance(end);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
	std::vector<std::pair<long, std::string>> want;
	for (auto &e : m.trace()) if (e.k == Ev::CMD) want.push_back({e.t, e.name});
	std::stable_sort(want.begin(), want.end());

	conf("a.conf", with_ids(text, "1234\n"));
	Dev *kb = ks::plug(keyboard());
	bool mouse_too = c.src.chance(30);
	if (mouse_too) ks::plug(mouse());
	std::vector<ks::Conn *> cons;
	int listeners = c.src.draw(3);
	long setup = h[0].t - 400;
	ks::at(us(setup), [&, listeners] { for (int i = 0; i < listeners; i++) { auto *l = ks::connect(); send_msg(l, IPC_LISTEN_, ""); cons.push_back(l); } });
	for (size_t i = 0; i < later.size(); i++) ks::at(us(setup + 5 + 5 * i), [&, i] { auto *q = ks::connect(); send_msg(q, IPC_BIND_, later[i]); cons.push_back(q); });
	if (setup < 10) c.discard("no time to set up");
	c.doc(text + "---\n");
	for (auto &l : later) c.doc("bind " + l + "\n");
	c.doc(show_history(h) + (mode == REFUSE ? "(the shell cannot be run)\n" : mode == LINGER ? "(the commands run until the end)\n" : ""));
	play(h, kb);

	prepare(mode);
	ks::at(us(setup - 1), [] { note_std(); });
	ks::free_naps = true;
	ks::End e = ks::run(us(end));
	sh_real_exec = 0;
	if (e != ks::BLOCKED) children(c);
	must_finish(c, e);
	for (size_t i = listeners; i < cons.size(); i++) if (reply_type(cons[i]) != IPC_SUCCESS_) c.fail("bind", "bind refused: " + later[i - listeners] + ": " + reply_text(cons[i]));
	auto got = records();
	for (size_t i = 0; i < got.size() || i < want.size(); i++) {
		std::string w = i < want.size() ? sfmt("%ld: ", want[i].first) + want[i].second : "(nothing)", g = "(nothing)";
		if (i < got.size()) {
			g = sfmt("%ld: %s", got[i].t, got[i].path.c_str());
			for (auto &a : got[i].argv) g += " <" + a + ">";
		}
		bool ok = i < got.size() && i < want.size();
		if (ok) {
			auto &a = got[i].argv;
			ok = got[i].t == want[i].first && a.size() == 3 && a[1] == "-c" && a[2] == want[i].second && got[i].path.size() >= 2 && got[i].path.substr(got[i].path.size() - 2) == "sh";
		}
		if (!ok) c.fail("commands", sfmt("command %zu\nexpected: %s\nrun     : %s", i, w.c_str(), g.c_str()));
		if (!got[i].faults.empty()) c.fail("attached", "the command " + g + ": " + got[i].faults);
	}
	std::string d = diff(expect(m.trace()), observed());
	if (!d.empty()) c.fail("events", d);
	if (mode == LINGER) c.label("long-running");
	if (mode == REFUSE) c.label("exec fails");
	if (later.size()) c.label("bound at run time");
	if (listeners) c.label("listeners");
	c.nontrivial(want.size() >= 2);
}
static pbt::Reg r33({"C33", "exact", "random configurations with command() alone, in layers, in timed keys and chords, from the file or bound at run time; histories; keyd's children are real, exec is a recording stand-in which ends at once, lingers, or fails; non-trivial: at least 2 commands run", 4000, 120000, true, c33, nullptr});

// A real shell.  The text is limited so that nothing it could be cut into does anything.
static void c33b(Ctx &c)
{
	enter();
	static const std::vector<std::string> parts = {"q", "zq", " ", "(", ")", "\\", "qz z", ",", "=", "[", "+", "((", "\\\\", "#", "é", "%"};
	int n = 1 + c.src.draw(5);
	std::string text = "[ids]\n1234\n[main]\n";
	std::vector<std::string> words;
	std::vector<int> shape;
	for (int i = 0; i < n; i++) {
		std::string w = "z", t = "z";
		for (int j = c.src.draw(8); j > 0; j--) {
			const std::string &x = c.src.pick(parts);
			for (char ch : x) { if (strchr("()\\", ch)) t += '\\'; t += ch; }
			w += x;
		}
		shape.push_back(c.src.draw(4));
		words.push_back(w);
		std::string q = "printf '%s\\\\n' '" + t + "'";
		std::string cmd = shape[i] == 0 ? q + " >>res" : shape[i] == 1 ? "cat >>res; " + q + " >>res" : shape[i] == 2 ? "\\(sleep 0.03; " + q + " >>res\\) &" : q + "; " + q + " >>res";
		text += sfmt("%c = command(", 'a' + i) + cmd + ")\n";
	}
	if (!lines_ok(text)) c.discard("line too long");
	conf("a.conf", text);
	Dev *kb = ks::plug(keyboard());
	std::multiset<std::string> want;
	std::vector<In> h;
	static const int codes[] = {KEY_A, KEY_B, KEY_C, KEY_D, KEY_E};
	long t = 1000;
	c.doc(text + "---\n");
	for (int i = 2 + c.src.draw(6); i > 0; i--) {
		int w = c.src.draw(n);
		h.push_back({codes[w], 1, t}); h.push_back({codes[w], 0, t + 5 + (int)c.src.draw(20)});
		t += 30;
		want.insert(words[w]);
		c.doc("press " + std::string(1, 'a' + w) + "\n");
	}
	h.push_back({KEY_X, 1, t}); h.push_back({KEY_X, 0, t + 10});
	play(h, kb);
	unlink("res");
	prepare(SHELL);
	ks::at(us(900), [] { note_std(); });
	ks::free_naps = true;
	ks::End e = ks::run(us(t + 1000));
	sh_real_exec = 0;
	if (e != ks::BLOCKED) children(c);
	must_finish(c, e);
	std::multiset<std::string> got;
	if (FILE *f = fopen("res", "r")) {
		char b[4096];
		while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; got.insert(b); }
		fclose(f);
	}
	auto show = [](const std::multiset<std::string> &s) { std::string o; for (auto &x : s) o += "  " + x + "\n"; return o; };
	if (got != want) c.fail("commands", "expected from the commands, in any order:\n" + show(want) + "they wrote:\n" + show(got));
	if (ks::log().find("zq") != std::string::npos && false) c.fail("attached", "a command's output went to keyd's");
	auto v = observed();
	if (v.size() != 2) c.failf("events", "%zu key events instead of the two of x", v.size());
	c.nontrivial(want.size() >= 3);
}
static pbt::Reg r33b({"C33", "shell", "up to five commands run by a real /bin/sh (quoting, reading standard input, background jobs, output to standard output), pressed in random order; non-trivial: at least 3 runs", 500, 12000, true, c33b, nullptr});
