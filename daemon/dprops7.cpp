// C36: the command line client.  C37: keyd monitor.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <sys/socket.h>
#include <sys/wait.h>
#include <csignal>
#include <fcntl.h>
#include <termios.h>
#include <unistd.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;
using ks::Dev;

struct Raw { int type; uint32_t timeout; char data[4096]; size_t sz; };
static std::string reply(int type, const std::string &text)
{
	Raw m;
	memset(&m, 0, sizeof m);
	m.type = type; m.sz = text.size();
	memcpy(m.data, text.data(), std::min(text.size(), sizeof m.data));
	return std::string((char *)&m, sizeof m);
}

// ---------------------------------------------------------------- C36
// the socket may hand over less than what was asked for
static size_t sip, gulp;
static void piecemeal(Ctx &c)
{
	static const size_t z[] = {1, 3, 4, 7, 64, 100, 1000, 4000, 4096, 4111};
	sip = c.src.chance(25) ? z[c.src.draw(10)] : 0;
	gulp = c.src.chance(25) ? z[c.src.draw(10)] : 0;
	if (sip) c.docf("reads of at most %zu bytes\n", sip);
	if (gulp) c.docf("writes of at most %zu bytes\n", gulp);
	if (sip || gulp) c.label("piecemeal");
}

struct Answer { enum { OK, FAIL, GONE, CUT, LATE } how; std::string text; };

static std::string gen_arg(Src &s)
{
	static const char *some[] = {"a = b", "main.a = layer(shift)", "reset", "", "-t", "-h", "--help", "a = macro(hello world)", "= = =", "a=b\nc=d", "bind", "%s%n", "\xc3\xa9 = a", "\xff\xfe", " a = b ", "monitor", "a = \"x\""};
	switch (s.draw(5)) {
	default: return some[s.draw(sizeof some / sizeof *some)];
	case 3: { std::string t; for (int i = s.draw(30); i > 0; i--) t += (char)(1 + s.draw(255)); return t; }
	case 4: { static const int len[] = {255, 256, 511, 512, 513, 1023, 1024, 4000, 4094, 4095}; return "a = " + std::string(len[s.draw(10)] - 4, 'x'); }
	}
}

static void bind_cli(Ctx &c)
{
	enter();
	Src &s = c.src;
	int n = 1 + s.draw(6);
	std::vector<std::string> args;
	static const char *names[] = {"bind", "bind", "-e", "--expression"};
	std::vector<std::string> argv = {"keyd", names[s.draw(4)]};
	static std::vector<Answer> ans;
	ans.clear();
	c.docf("%s\n", argv[1].c_str());
	int longarg = -1;
	for (int i = 0; i < n; i++) {
		std::string a = gen_arg(s);
		if (s.chance(4) && longarg < 0) { static const int len[] = {4096, 4097, 5000, 70000}; a = std::string(len[s.draw(4)], 'x'); longarg = i; }
		args.push_back(a); argv.push_back(a);
		Answer w;
		w.how = s.chance(60) ? Answer::OK : s.chance(80) ? Answer::FAIL : s.chance(50) ? Answer::GONE : s.chance(50) ? Answer::CUT : Answer::LATE;
		if (w.how == Answer::FAIL || w.how == Answer::LATE) { static const int len[] = {1, 20, 100, 2000, 4095}; w.text = "E" + std::to_string(i) + std::string(len[s.draw(5)], '%'); if (w.text.size() > 4095) w.text.resize(4095); }
		ans.push_back(w);
		c.docf("  argument of %zu bytes <%s>, daemon: %s %s\n", a.size(), a.substr(0, 100).c_str(), w.how == Answer::OK ? "accepts" : w.how == Answer::FAIL ? "refuses" : w.how == Answer::GONE ? "closes" : w.how == Answer::CUT ? "closes in the middle of its reply" : "refuses 5 s later", w.text.substr(0, 60).c_str());
	}
	ks::no_daemon = s.chance(5);
	piecemeal(c);
	static std::vector<ks::Conn *> cons;
	cons.clear();
	ks::on_connect = [](ks::Conn *q) {
		size_t i = cons.size();
		cons.push_back(q);
		q->sip = sip; q->gulp = gulp;
		if (i >= ans.size()) { q->eof = true; return; }
		std::string r = reply(ans[i].how == Answer::OK ? IPC_SUCCESS_ : IPC_FAIL_, ans[i].text);
		if (ans[i].how == Answer::GONE) r = "";
		if (ans[i].how == Answer::CUT) r.resize(100 * i + 4);
		if (ans[i].how == Answer::LATE) ks::at(ks::now() + 5000000, [q, r] { q->in = r; q->eof = true; });
		else q->in = r, q->eof = true;
	};
	ks::End e = ks::run(us(100000), argv);
	ks::on_connect = nullptr;
	std::string out = ks::log();
	if (e != ks::EXITED) c.fail("hangs", "keyd bind does not end: " + ks::blocked_on);
	if (ks::no_daemon) {
		c.label("no daemon");
		if (ks::exit_code == 0) c.fail("status", "exit status 0 though there is no daemon");
		if (out.find("Success") != std::string::npos) c.fail("status", "success is reported though there is no daemon");
		return;
	}
	// what must have been sent: everything in order, as far as it can go
	size_t must = 0; bool all = true;
	std::string text;
	for (int i = 0; i < n; i++) {
		if (i == longarg) { all = false; break; }
		must = i + 1;
		if (ans[i].how == Answer::GONE || ans[i].how == Answer::CUT) { all = false; break; }
		if (ans[i].how != Answer::OK) { all = false; text += ans[i].text + "\n"; }
	}
	if (cons.size() < must) c.failf("requests", "%zu requests, at least %zu of %d arguments expected", cons.size(), must, n);
	std::vector<std::string> fits;
	for (auto &a : args) if (a.size() < 4096) fits.push_back(a);
	if (cons.size() > fits.size()) c.failf("requests", "%zu requests for %zu arguments", cons.size(), fits.size());
	size_t at = 0;
	for (size_t i = 0; i < cons.size(); i++) {
		Raw m;
		if (cons[i]->out.size() != sizeof m) c.failf("requests", "request %zu has %zu bytes", i, cons[i]->out.size());
		memcpy(&m, cons[i]->out.data(), sizeof m);
		if (m.type != IPC_BIND_) c.failf("requests", "request %zu has type %d", i, m.type);
		if (m.timeout > 1000000) c.failf("requests", "request %zu has timeout %u", i, m.timeout);
		if (m.sz >= sizeof m.data || std::string(m.data, m.sz) != fits[at]) c.failf("requests", "request %zu is not argument %zu as given: %zu bytes <%s>", i, at, m.sz, std::string(m.data, std::min(m.sz, (size_t)100)).c_str());
		at++;
	}
	bool ok = ks::exit_code == 0;
	if (ok != all) c.failf("status", "exit status %d though %s", ks::exit_code, all ? "every binding was accepted" : "not every binding was accepted");
	if ((out.find("Success") != std::string::npos) != all) c.fail("status", all ? "success is not reported" : "success is reported though not every binding was accepted");
	if (all || must == (size_t)n || longarg < 0) {
		size_t p = 0;
		for (size_t i = 0; i < must; i++) {
			if (ans[i].text.empty()) continue;
			size_t q = out.find(ans[i].text, p);
			if (q == std::string::npos) c.fail("report", sfmt("the reason why argument %zu is refused is not shown (in order, in full)", i));
			p = q + ans[i].text.size();
		}
	}
	if (!all) c.label("some refused");
	if (longarg >= 0) c.label("too long");
	c.nontrivial(n >= 2);
}
static pbt::Reg r36a({"C36", "bind", "the real 'keyd bind' with 1-6 random arguments (any bytes, up to beyond the size limit) against a scripted daemon which accepts, refuses, answers late, closes or dies; non-trivial: at least two arguments", 12000, 400000, true, bind_cli, nullptr});

static void listen_cli(Ctx &c)
{
	enter();
	Src &s = c.src;
	static ks::Conn *con;
	con = nullptr;
	static std::string want;
	want.clear();
	struct Chunk { long t; std::string b; };
	static std::vector<Chunk> ch;
	ch.clear();
	long t = 10;
	int n = s.draw(12);
	for (int i = 0; i < n; i++) {
		t += s.draw(300);
		std::string b;
		for (int j = 1 + s.draw(s.chance(20) ? 200 : 3); j > 0; j--) b += sfmt("%c%s%lu\n", "+-/"[s.draw(3)], s.chance(10) ? std::string(60, 'n').c_str() : "layer", (unsigned long)s.draw(100));
		if (s.chance(30)) b.resize(1 + s.draw(b.size()));       // lines arrive in pieces
		ch.push_back({t, b});
	}
	bool leaves = s.chance(40), gone = !leaves && s.chance(60);
	long tl = t + 1 + s.draw(1000), when = leaves || gone ? (s.chance(30) && n ? ch[s.draw(n)].t + (long)s.draw(3) : tl) : 0;
	for (auto &x : ch) c.docf("%ld: %zu bytes from the daemon\n", x.t, x.b.size());
	if (leaves) c.docf("%ld: the reader of its output goes away\n", when);
	if (gone) c.docf("%ld: the daemon closes\n", when);
	ks::no_daemon = s.chance(5);
	piecemeal(c);
	ks::on_connect = [](ks::Conn *q) { con = q; q->sip = sip; q->gulp = gulp; };
	for (auto &x : ch) {
		if (gone && x.t >= when) continue;
		if (!leaves || x.t < when) want += x.b;
		std::string b = x.b;
		ks::at(us(x.t) + 1, [b] { if (con) con->in += b; });
	}
	if (leaves) ks::at(us(when), [] { ks::stdout_gone = true; });
	if (gone) ks::at(us(when), [] { if (con) con->eof = con->closed = true; });
	static long seen;
	seen = -1;
	// what has arrived must be passed on at once
	for (size_t i = 0; i < ch.size(); i++) {
		if ((gone || leaves) && ch[i].t >= when) break;
		std::string sofar;
		for (size_t j = 0; j < ch.size() && ch[j].t <= ch[i].t; j++) sofar += ch[j].b;
		ks::at(us(ch[i].t) + 500, [sofar] { if (seen < 0 && !ks::no_daemon && ks::log() != sofar) seen = (ks::now() - ks::start_time) / 1000; });
	}
	ks::End e = ks::run(us(t + 5000), {"keyd", "listen"});
	std::string out = ks::log();
	if (ks::no_daemon) {
		c.label("no daemon");
		if (e != ks::EXITED || ks::exit_code == 0) c.fail("status", "keyd listen does not fail though there is no daemon");
		return;
	}
	if (!con || con->out.size() != sizeof(Raw)) c.fail("request", "keyd listen does not ask the daemon");
	Raw m; memcpy(&m, con->out.data(), sizeof m);
	if (m.type != IPC_LISTEN_ || m.sz >= 4096 || m.timeout > 1000000) c.failf("request", "request of type %d, size %zu", m.type, m.sz);
	if (seen >= 0) c.failf("late", "at %ld ms it has not passed on all which arrived", seen);
	if (leaves || gone) {
		if (e == ks::DONE) c.fail("hangs", leaves ? "its output has no reader but it goes on" : "the daemon is gone but it goes on");
		if (gone && ks::exit_code == 0) c.fail("status", "exit status 0 though the daemon has gone");
	} else if (e != ks::DONE) c.failf("ended", "it ends (%d) while the daemon is there", ks::exit_code);
	if (out != want) c.fail("stream", sfmt("%zu bytes of %zu arrive", out.size(), want.size()));
	c.nontrivial(n >= 2);
}
static pbt::Reg r36b({"C36", "listen", "the real 'keyd listen' against a scripted daemon which sends lines in pieces; the daemon or the reader of its output may go; non-trivial: at least two pieces", 6000, 200000, true, listen_cli, nullptr});

static void other_cli(Ctx &c)
{
	enter();
	Src &s = c.src;
	conf("a.conf", "[ids]\n*\n[main]\na = b\n");
	Dev *kb = ks::plug(keyboard());
	ks::plug(mouse());
	static int cons;
	cons = 0;
	static std::string sent;
	sent.clear();
	static ks::Conn *con;
	piecemeal(c);
	ks::on_connect = [](ks::Conn *q) { cons++; con = q; q->sip = sip; q->gulp = gulp; q->in = reply(IPC_SUCCESS_, ""); q->eof = true; };
	std::vector<std::string> argv = {"keyd"};
	int what = s.draw(4);
	if (what == 0) argv.push_back("reload");
	else if (what == 1) argv.push_back("list-keys");
	else if (what == 2) { static const char *v[] = {"help", "-h", "--help", "version", "-v", "--version"}; argv.push_back(v[s.draw(6)]); }
	else { static const char *v[] = {"foo", "Bind", "binds", "-x", "--", "-", "daemon", "reload ", "listenx", "-E", "list", "monito", "\xff"}; argv.push_back(v[s.draw(13)]); while (s.chance(40)) argv.push_back(v[s.draw(13)]); }
	if (what == 0 && s.chance(20)) ks::no_daemon = true;
	for (auto &a : argv) c.docf("%s ", a.c_str());
	c.docf("\n");
	ks::at(us(500), [kb] { ks::key(kb, KEY_A, 1); });
	ks::End e = ks::run(us(5000), argv);
	std::string out = ks::log();
	if (e != ks::EXITED) c.fail("hangs", "it does not end");
	if (kb->grabs || ks::virtual_dev(ks::VKBD) || ks::out.size()) c.fail("daemon", "it acts as a daemon");
	if (what == 0) {
		if (ks::no_daemon) { if (ks::exit_code == 0) c.fail("status", "exit status 0 though there is no daemon"); return; }
		if (cons != 1 || con->out.size() != sizeof(Raw)) c.failf("request", "%d requests", cons);
		Raw m; memcpy(&m, con->out.data(), sizeof m);
		if (m.type != IPC_RELOAD_ || m.sz >= 4096 || m.timeout > 1000000) c.failf("request", "request of type %d", m.type);
		if (ks::exit_code) c.failf("status", "exit status %d", ks::exit_code);
	} else if (cons) c.fail("request", "it talks to the daemon");
	if (what == 1) {
		// exactly the names which a configuration accepts
		std::set<std::string> names, listed;
		for (auto &r : keytab()) for (const char *x : {r.name, r.alt, r.shifted}) if (x && *x) names.insert(x);
		for (size_t p = 0; p < out.size();) { size_t q = out.find('\n', p); if (q == std::string::npos) q = out.size(); listed.insert(out.substr(p, q - p)); p = q + 1; }
		for (auto &x : names) if (!listed.count(x)) c.fail("names", "the key name " + x + " is not listed");
		for (auto &x : listed) if (!names.count(x)) c.fail("names", "the name " + x + " is listed but not known");
		if (ks::exit_code) c.failf("status", "exit status %d", ks::exit_code);
	}
	if (what >= 2 && out.empty()) c.fail("usage", "nothing is printed");
	c.nontrivial();
}
static pbt::Reg r36c({"C36", "others", "reload, list-keys (against the key table), help, version and unknown commands, which must never become a daemon; non-trivial: always", 600, 6000, true, other_cli, nullptr});

// ---------------------------------------------------------------- C37
struct MDev { Dev proto; Dev *d = nullptr; bool kb = false, ms = false; std::set<int> down; std::string id; bool present = false; };

static void c37(Ctx &c)
{
	enter();
	Src &s = c.src;
	static std::vector<MDev> v;
	v.clear();
	int n = 1 + s.draw(4), now = 1 + s.draw(n);
	bool tflag = s.chance(30), pipe = s.chance(30);
	for (int i = 0; i < n; i++) {
		MDev x;
		Dev &d = x.proto;
		switch (s.draw(6)) {
		default: d = keyboard(); x.kb = true; break;
		case 2: d = mouse(); x.ms = true; break;
		case 3: d = keyboard(); for (int r : {REL_X, REL_Y, REL_WHEEL}) d.rel.insert(r); x.kb = x.ms = true; break;
		case 4: d.keys = {KEY_VOLUMEUP, KEY_VOLUMEDOWN, KEY_A}; x.kb = true; break;
		case 5: d.keys = {KEY_POWER, KEY_SLEEP, KEY_A}; break;          // neither
		}
		d.vendor = s.chance(20) ? 0x0fac : 0x1200 + s.draw(3); d.product = s.draw(4) * 0x1111;
		static const char *nm[] = {"My Keyboard", "r{red} 100%s", "%n%d{}", "Caf\xc3\xa9 kbd", "a\tb", "x"};
		d.name = sfmt("%d-", i) + nm[s.draw(6)];
		if (s.chance(20)) d.name += std::string(1 + s.draw(100), 'z');
		v.push_back(x);
	}
	// a second keyd, which will run as a daemon with an id the monitor has shown
	int to[2], from[2];
	bool second = s.chance(40);
	pid_t pid = -1;
	if (second) {
		if (::pipe(to) || ::pipe(from)) _Exit(3);
		fflush(nullptr);
		pid = fork();
		if (pid == 0) {
			close(to[1]); close(from[0]);
			char b[64]; int pick;
			ssize_t r = read(to[0], b, sizeof b);
			if (r < (ssize_t)sizeof(int) + 18 + n) _Exit(0);
			memcpy(&pick, b, sizeof pick);
			std::string id(b + sizeof(int), 18);
			enter();
			for (int i = 0; i < n; i++) if (b[sizeof(int) + 18 + i]) v[i].d = ks::plug(v[i].proto, 3 + 5 * i);
			conf("a.conf", "[ids]\n" + id + "\n[main]\na = b\n");
			ks::End e = ks::run(us(1000));
			char ans[17] = {(char)e};
			for (int i = 0; i < n; i++) ans[1 + i] = v[i].d && ks::keyd_has(v[i].d, true);
			if (write(from[1], ans, sizeof ans) < 0) {}
			_Exit(0);
		}
		close(to[0]); close(from[1]);
	}
	struct Want { std::string what, dev, key; int i; bool down; long t; };
	static std::vector<Want> want;
	want.clear();
	auto nodes = [](int i) { return 3 + 5 * i; };
	long T = 1000;                  // ms; every action at an instant of its own
	for (int i = 0; i < now; i++) {
		v[i].d = ks::plug(v[i].proto, nodes(i)); v[i].present = true;
		c.docf("device %d: %s, keyboard %d mouse %d\n", i, v[i].proto.name.c_str(), v[i].kb, v[i].ms);
	}
	auto pressable = [](const MDev &x) { std::vector<int> k; for (int q : x.proto.keys) if (q < KEY_MAX && from_linux(q)) k.push_back(q); return k; };
	int steps = 2 + s.draw(30);
	bool motion = false;
	long stop = -1;
	for (int st = 0; st < steps; st++) {
		T += 1 + s.draw(s.chance(10) ? 3000 : 40);
		long at = us(T) + s.draw(900);
		int i = s.draw(n);
		MDev &x = v[i];
		int op = s.draw(20);
		if (!x.present) {
			if (op > 4) continue;
			x.present = true;
			x.down.clear();
			ks::at(at, [i, nodes] { v[i].d = ks::plug(v[i].proto, nodes(i)); });
			c.docf("%ld: device %d (%s) plugged in\n", T, i, x.proto.name.c_str());
			if (x.kb || x.ms) want.push_back({"added", x.proto.name, "", i, false, T});
			// several interfaces of one device, say
			for (int j = 0; j < n; j++) if (!v[j].present && s.chance(40)) {
				v[j].present = true;
				v[j].down.clear();
				ks::at(at, [j, nodes] { v[j].d = ks::plug(v[j].proto, nodes(j)); });
				c.docf("%ld: device %d (%s) too\n", T, j, v[j].proto.name.c_str());
				if (v[j].kb || v[j].ms) want.push_back({"added", v[j].proto.name, "", j, false, T});
			}
			continue;
		}
		if (op == 0) {
			x.present = false;
			ks::at(at, [i] { ks::unplug(v[i].d); });
			c.docf("%ld: device %d unplugged\n", T, i);
			if (x.kb || x.ms) {
				std::set<int> codes;
				for (int k : x.down) codes.insert(from_linux(k));
				for (int k : codes) want.push_back({"key", x.proto.name, kname(k), i, false, T});
				want.push_back({"removed", x.proto.name, "", i, false, T});
			}
			x.down.clear();
			continue;
		}
		if (op == 1 && x.ms && !tflag) {
			motion = true;
			ks::at(at, [i] { for (int r : {REL_X, REL_Y, REL_WHEEL}) if (ks::input(v[i].d, EV_REL, r, 3)) {} ks::syn(v[i].d); });
			c.docf("%ld: device %d moves\n", T, i);
			continue;
		}
		if (op == 2 && x.down.size()) {
			int k = *x.down.begin();
			ks::at(at, [i, k] { if (ks::input(v[i].d, EV_KEY, k, 2)) ks::syn(v[i].d); });
			c.docf("%ld: device %d repeats %d\n", T, i, k);
			continue;
		}
		std::vector<int> ks_ = pressable(x);
		if (ks_.empty()) continue;
		int k = ks_[s.draw(ks_.size())];
		if (s.chance(40)) { static const int common[] = {KEY_A, KEY_VOLUMEUP, BTN_LEFT, KEY_LEFTSHIFT, KEY_LEFTBRACE, KEY_EQUAL}; int q = common[s.draw(6)]; if (x.proto.keys.count(q)) k = q; }
		if (x.down.size() && s.chance(45)) k = *std::next(x.down.begin(), s.draw(x.down.size()));
		if (k == KEY_ESC || k == KEY_BACKSPACE) continue;       // the panic sequence
		bool down = !x.down.count(k);
		// two Linux keys which are the same key to keyd
		bool twin = false;
		for (int q : x.down) if (q != k && from_linux(q) == from_linux(k)) twin = true;
		if (twin) continue;
		if (down) x.down.insert(k); else x.down.erase(k);
		ks::at(at, [i, k, down] { ks::key(v[i].d, k, down); });
		c.docf("%ld: device %d: %d (%s) %s\n", T, i, k, kname(from_linux(k)).c_str(), down ? "down" : "up");
		if (x.kb || x.ms) want.push_back({"key", x.proto.name, kname(from_linux(k)), i, down, T});
	}
	T += 10;
	if (pipe) {
		ks::stdout_pipe = true;
		if (s.chance(60)) { stop = T; ks::at(us(T), [] { ks::stdout_gone = true; }); c.docf("%ld: the reader of its output goes away\n", T); }
	}
	std::vector<std::string> argv = {"keyd", s.chance(70) ? "monitor" : s.chance(50) ? "-m" : "--monitor"};
	if (tflag) argv.push_back("-t");
	// nothing may be held back
	static size_t shown; static long late;
	shown = 0; late = -1;
	if (want.size() && s.chance(50)) {
		size_t w = s.draw(want.size());
		long t = want[w].t;
		size_t upto = 0;
		for (auto &x : want) if (x.t <= t) upto++;
		for (int i = 0; i < now; i++) upto += v[i].kb || v[i].ms;
		bool same = false;
		for (auto &x : want) if (x.t == t + 1) same = true;
		if (!same) ks::at(us(t) + 999, [upto, t] { std::string o = ks::log(); shown = std::count(o.begin(), o.end(), '\n'); if (shown < upto) late = t; });
	}
	ks::End e = ks::run(us(T + 500), argv);
	std::string out = ks::log();
	if (stop >= 0) { if (e == ks::DONE) c.fail("hangs", "its output has no reader but it goes on"); }
	else if (e != ks::DONE) c.failf("ended", "keyd monitor ends with status %d: %s\n%s", ks::exit_code, ks::blocked_on.c_str(), out.c_str());
	if (late >= 0) c.failf("late", "what happened at %ld ms is not shown at once", late);
	for (auto &x : v) if (x.d && (x.d->grabs || x.d->led_writes)) c.fail("effect", "it changes the device " + x.proto.name);
	if (ks::virtual_dev(ks::VKBD) || ks::out.size()) c.fail("effect", "it made a virtual device");
	// the report
	std::vector<std::string> lines;
	for (size_t p = 0; p < out.size();) { size_t q = out.find('\n', p); if (q == std::string::npos) { lines.push_back(out.substr(p) + "<unfinished>"); break; } lines.push_back(out.substr(p, q - p)); p = q + 1; }
	auto cut = [](const std::string &nm) { return nm.size() > 63 ? nm.substr(0, 63) : nm; };
	auto shrt = [](const MDev &x) { return sfmt("%04x:%04x", x.proto.vendor, x.proto.product); };
	// those which are there at the start are shown first, in any order
	std::set<int> start;
	for (int i = 0; i < now; i++) if (v[i].kb || v[i].ms) start.insert(i);
	size_t li = 0;
	auto known = [&](MDev &x, const std::string &id) {
		if (id.compare(0, 9, shrt(x)) || id.size() != 18) c.fail("id", "the id of " + x.proto.name + " is shown as " + id);
		if (x.id.empty()) x.id = id;
		if (x.id != id) c.fail("id", "the id of " + x.proto.name + " is shown as " + x.id + " and " + id);
	};
	// parses "device added: <id> <name> (<path>)"
	auto devline = [&](const std::string &l, const char *what, int i) {
		std::string pre = sfmt("device %s: ", what), post = " " + cut(v[i].proto.name) + sfmt(" (/dev/input/event%d)", nodes(i));
		if (l.compare(0, pre.size(), pre) || l.size() < pre.size() + 18 + post.size()) return false;
		if (l.substr(pre.size() + 18) != post) return false;
		known(v[i], l.substr(pre.size(), 18));
		return true;
	};
	while (start.size()) {
		bool ok = false;
		for (int i : start) if (li < lines.size() && devline(lines[li], "added", i)) { start.erase(i); ok = true; break; }
		if (!ok) c.fail("devices", "a device which is there at the start is not shown: " + v[*start.begin()].proto.name + "\n" + out);
		li++;
	}
	long prev = -1;
	for (auto &w : want) {
		if (li >= lines.size()) c.fail("missing", sfmt("%s %s of %s at %ld ms is not shown\n", w.what.c_str(), w.key.c_str(), w.dev.c_str(), w.t) + out);
		std::string l = lines[li++];
		MDev &x = v[w.i];
		bool ok;
		if (w.what == "key") {
			if (tflag) {
				// "+<ms> ms<tab>"
				size_t q = l.find('\t');
				std::string d = q == std::string::npos ? "" : l.substr(0, q);
				long gap = -1;
				if (sscanf(d.c_str(), "+%ld ms", &gap) != 1) c.fail("time", "no time in \"" + l + "\"");
				if (prev >= 0 && gap != w.t - prev) c.failf("time", "\"%s\": %ld ms after the event before", l.c_str(), w.t - prev);
				l = l.substr(q + 1);
			}
			std::string head = cut(x.proto.name) + "\t";
			ok = l.compare(0, head.size(), head) == 0 && l.size() > head.size() + 19 && l[head.size() + 18] == '\t';
			if (ok) {
				known(x, l.substr(head.size(), 18));
				std::string tail = l.substr(head.size() + 19);
				ok = tail == w.key + (w.down ? " down" : " up");
			}
		} else ok = devline(l, w.what.c_str(), w.i);
		if (!ok) c.fail("line", sfmt("at %ld ms: %s %s %s of device %d (%s) expected, it shows\n%s", w.t, w.what.c_str(), w.key.c_str(), w.down ? "down" : "up", w.i, w.dev.c_str(), l.c_str()));
		prev = w.t;
	}
	if (li < lines.size() && stop < 0) c.fail("extra", "it shows something which did not happen: " + lines[li]);
	if (tflag) c.label("-t");
	if (motion) c.label("motion");
	// the id is the one which makes keyd manage the device
	int pick = -1;
	for (int i = 0; i < n; i++) if (v[i].present && v[i].kb && v[i].id.size() && v[i].proto.vendor != 0x0fac) pick = i;
	if (second) {
		char ans[17] = {};
		if (pick >= 0) {
			std::string m((char *)&pick, sizeof pick);
			m += v[pick].id;
			for (int i = 0; i < n; i++) m += (char)v[i].present;
			if (write(to[1], m.data(), m.size()) < 0) {}
		}
		close(to[1]);
		ssize_t r = read(from[0], ans, sizeof ans);
		close(from[0]);
		waitpid(pid, nullptr, 0);
		if (pick >= 0) {
			if (r < (ssize_t)sizeof ans || ans[0] != ks::DONE) c.fail("id", "the daemon does not run with a configuration listing " + v[pick].id);
			if (!ans[1 + pick]) c.fail("id", "keyd does not manage the device although its id, as shown by the monitor, is listed: " + v[pick].id);
			for (int i = 0; i < n; i++) if (ans[1 + i] && v[i].id != v[pick].id) c.fail("id", "keyd manages another device than the listed one: " + v[i].proto.name);
			c.label("id used in a configuration");
		}
	}
	c.nontrivial(want.size() >= 4);
}
static pbt::Reg r37({"C37", "monitor", "the real 'keyd monitor' over 1-4 devices of five kinds which are plugged, unplugged, press keys (all which keyd knows), repeat and move; its output is compared line by line, its ids are then used in a configuration of the real daemon; non-trivial: at least four events", 12000, 400000, true, c37, nullptr, [] { linux_codes(1); keytab(); }});

// What the monitor does to the terminal it runs in.
static void c37_tty(Ctx &c)
{
	enter();
	Src &s = c.src;
	enum { TERM, PIPE, NUL } in = s.chance(80) ? TERM : s.chance(50) ? PIPE : NUL;
	int master = -1, slave = -1, keep = fcntl(0, F_DUPFD_CLOEXEC, 10);
	struct Back { int keep, *m; ~Back() { if (keep >= 0) { dup2(keep, 0); close(keep); } else close(0); if (*m >= 0) close(*m); } } back{keep, &master};
	struct termios t0;
	memset(&t0, 0, sizeof t0);
	if (in == TERM) {
		master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK);
		char name[64];
		if (master < 0 || grantpt(master) || unlockpt(master) || ptsname_r(master, name, sizeof name) || (slave = open(name, O_RDWR | O_NOCTTY)) < 0) _Exit(3);
		tcgetattr(slave, &t0);
		// the settings somebody else has made
		for (tcflag_t f : {ECHO, ICANON, ECHOE, ECHOK, ISIG, IEXTEN, TOSTOP, ECHONL, NOFLSH}) if (s.chance(20)) t0.c_lflag ^= f;
		for (tcflag_t f : {ICRNL, IXON, IGNBRK, INLCR}) if (s.chance(20)) t0.c_iflag ^= f;
		if (s.chance(20)) t0.c_oflag ^= OPOST;
		if (s.chance(20)) t0.c_cc[VMIN] = s.draw(5);
		if (s.chance(20)) t0.c_cc[VTIME] = s.draw(5);
		tcsetattr(slave, TCSANOW, &t0);
		tcgetattr(slave, &t0);
	} else if (in == PIPE) {
		int p[2];
		if (pipe(p)) _Exit(3);
		slave = p[0]; master = p[1];
	} else slave = open("/dev/null", O_RDONLY);
	dup2(slave, 0);
	close(slave);
	if (s.chance(25)) fcntl(0, F_SETFL, fcntl(0, F_GETFL) | O_NONBLOCK);
	int fl0 = fcntl(0, F_GETFL);
	static bool echo; static int ifd;
	echo = false;
	ks::real_stdin = true;
	ks::tty_out = s.chance(60);
	ks::stdout_pipe = !ks::tty_out && s.chance(60);
	Dev *kb = ks::plug(keyboard());
	long T = 1000;
	int n = s.draw(6), typed = 0;
	ifd = master;
	c.docf("standard input is %s, flags %x, local modes %x; standard output is a %s\n", in == TERM ? "a terminal" : in == PIPE ? "a pipe" : "/dev/null", fl0, t0.c_lflag, ks::tty_out ? "terminal" : ks::stdout_pipe ? "pipe" : "file");
	for (int i = 0; i < n; i++) {
		T += 1 + s.draw(300);
		ks::at(us(T), [kb, i] { ks::key(kb, KEY_A + i / 2, !(i & 1)); });
		if (in != NUL && s.chance(60)) {
			std::string text = s.chance(30) ? "abc" : s.chance(50) ? "x\n" : "two\nlines";
			typed += text.size();
			c.docf("%ld: %zu bytes are typed\n", T, text.size());
			ks::at(us(T), [text] { if (write(ifd, text.data(), text.size()) < 0) {} });
		}
	}
	bool both = in == TERM && ks::tty_out;
	if (both) ks::at(us(T + 1), [] { struct termios t; tcgetattr(0, &t); echo = t.c_lflag & ECHO; });
	T += 10;
	int sig = s.chance(50) ? SIGINT : SIGTERM;
	bool gone = ks::stdout_pipe && s.chance(50);
	if (gone) ks::at(us(T), [] { ks::stdout_gone = true; });
	else ks::at(us(T), [sig] { ks::raise_signal(sig); });
	c.docf("%ld: %s\n", T, gone ? "the reader of its output goes" : sig == SIGINT ? "SIGINT" : "SIGTERM");
	ks::End e = ks::run(us(T + 500), s.chance(50) ? std::vector<std::string>{"keyd", "monitor"} : std::vector<std::string>{"keyd", "monitor", "-t"});
	if (e != ks::EXITED) c.fail("goes on", "it does not end");
	int fl = fcntl(0, F_GETFL);
	if (fl != fl0) c.failf("flags", "standard input was left with the flags %x instead of %x%s", fl, fl0, fl & ~fl0 & O_NONBLOCK ? ": whoever reads it next gets \"Resource temporarily unavailable\"" : "");
	if (in == TERM) {
		struct termios t;
		memset(&t, 0, sizeof t);
		tcgetattr(0, &t);
		if (t.c_lflag != t0.c_lflag || t.c_iflag != t0.c_iflag || t.c_oflag != t0.c_oflag || t.c_cflag != t0.c_cflag || memcmp(t.c_cc, t0.c_cc, sizeof t.c_cc))
			c.failf("terminal", "the terminal was left with local modes %x instead of %x, input modes %x instead of %x, output modes %x instead of %x", t.c_lflag, t0.c_lflag, t.c_iflag, t0.c_iflag, t.c_oflag, t0.c_oflag);
		if (echo) c.fail("echo", "keys which are pressed are echoed between the lines of the monitor");
		// nothing of what was typed is left for the shell
		t.c_lflag &= ~ICANON; t.c_cc[VMIN] = t.c_cc[VTIME] = 0;
		tcsetattr(0, TCSANOW, &t);
		fcntl(0, F_SETFL, fl | O_NONBLOCK);
		char b[256];
		if (read(0, b, sizeof b) > 0) c.fail("typed", "what was typed while the monitor ran is left for the program which reads the terminal next");
	}
	if (typed) c.label("typed ahead");
	if (both) c.label("echo off");
	c.nontrivial(in == TERM);
}
static pbt::Reg r37t({"C37", "terminal", "the monitor on a real pseudo terminal with random settings (or a pipe, or /dev/null), keys typed meanwhile, ended by a signal or by the reader of its output; settings and flags must be as before; non-trivial: standard input is a terminal", 1500, 40000, true, c37_tty, nullptr});
