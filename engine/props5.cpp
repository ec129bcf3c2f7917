// C40: nothing within the limits is lost.
#include "props.h"
#include <algorithm>
#include <array>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <cstring>

using namespace spec;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;

namespace {
// what one line takes up, and what there is at least
enum Res { CMDS, MACROS, DESCS, NRES };
const int LIMIT[NRES] = {64, 256, 1024};
const int CHORDS = 64, LAYERS = 26, SECTIONS = 32, ENTRIES = 1024, FILESZ = 65535, LINE = 254, NAME = 64, ALIAS = 31;

typedef std::array<int, NRES> Use;
void chdir_scratch()
{
	static bool done;
	if (!done && chdir(pbt::scratch().c_str())) _Exit(3);
	done = true;
}
void add(Use &u, const Action &a, bool top)
{
	if (!top) u[DESCS]++;
	switch (a.k) {
	case COMMAND: u[CMDS]++; break;
	case MACRO: case MACRO2: case LAYERM: case ONESHOTM: case TOGGLEM: case SWAPM: case CLEARM: u[MACROS]++; break;
	case LETTERMOD: u[DESCS] += 3; return;
	default: break;
	}
	for (auto &x : a.sub) add(u, x, false);
}

struct Gen {
	Src &s;
	Cfg cfg = base_cfg();
	std::vector<int> keys;          // bound by items
	std::vector<int> user;          // layers which items may activate
	int ncmd = 0;

	int out() { return K_A[s.draw(26)]; }
	static const int K_A[26];
	Action key() { Action a; a.k = KEY; a.code = out(); return a; }
	Action macro(int len)
	{
		Action a; a.k = MACRO;
		if (s.chance(40)) { Tok t; t.k = Tok::TEXT; for (int i = 0; i < len; i++) t.text += "abcdefghijklmnopqrstuvwxyz"[s.draw(26)]; if (t.text.size() < 2) t.text = "xy"; if (plain_text(t.text)) { a.macro.toks.push_back(t); return a; } }
		for (int i = 0; i < std::max(2, len / 2); i++) { Tok t; t.code = out(); a.macro.toks.push_back(t); }
		return a;
	}
	Action command(int len)
	{
		Action a; a.k = COMMAND;
		a.cmd = sfmt("c%d ", ncmd++);
		while ((int)a.cmd.size() < len) a.cmd += (char)('a' + s.draw(26));
		a.cmd_text = a.cmd;
		return a;
	}
	int layer() { return user[s.draw(user.size())]; }
	Action deep(int d)
	{
		Action a;
		if (d <= 0) return key();
		switch (s.draw(5)) {
		default: a.k = OVERLOAD; a.layer = layer(); a.sub = {deep(d - 1)}; break;
		case 1: a.k = OVERLOADT2; a.layer = layer(); a.sub = {deep(d - 1)}; a.t1 = 200; break;
		case 2: a.k = TIMEOUT; a.sub = {deep(d - 1), key()}; a.t1 = 200; break;
		case 3: a.k = OVERLOADI; a.sub = {key(), deep(d - 1)}; a.t1 = 150; break;
		case 4: a.k = LETTERMOD; a.layer = layer(); a.sub = {key()}; a.t1 = 150; a.t2 = 200; break;
		}
		return a;
	}
};
const int Gen::K_A[26] = {30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44};

const char *const WHAT[] = {"commands", "macros", "descriptors", "chords", "layers", "entries", "file size", "line length", "names", "aliases", "bindings at run time", "refused bindings"};
enum { W_CMD, W_MAC, W_DESC, W_CHORD, W_LAYER, W_ENTRY, W_FILE, W_LINE, W_NAME, W_ALIAS, W_BIND, W_BAD, NW };

int near(Src &s, int limit)
{
	switch (s.draw(5)) {
	case 0: return 1 + s.draw(limit);
	case 1: return limit - s.draw(3);
	case 2: return limit + 1 + s.draw(3);
	case 3: return limit / 2 + s.draw(limit / 2);
	default: return limit;
	}
}

// what runs instead of the shell: tells what it was asked to run
int told[2] = {-1, -1};
int tell(const char *path, char *const argv[])
{
	std::string m = std::string(path) + "|" + (argv[1] ? argv[1] : "") + "|" + (argv[1] && argv[2] ? argv[2] : "");
	m.resize(1024);
	(void)!write(told[1], m.data(), m.size());
	_exit(0);
}

void c40(Ctx &c)
{
	Src &s = c.src;
	chdir_scratch();
	Gen g{s};
	Cfg &cfg = g.cfg;
	int what = s.draw(NW);
	for (auto &r : keytab()) if (r.code > 13 && r.code < 180 && !is_mod_code(r.code) && std::find(Gen::K_A, Gen::K_A + 26, r.code) == Gen::K_A + 26) g.keys.push_back(r.code);
	// layers, each activated by a letter
	int nl = what == W_LAYER ? std::min(near(s, LAYERS), LAYERS) : 1 + s.draw(what == W_DESC || what == W_MAC || what == W_BIND ? 20 : 4);
	for (int i = 0; i < nl; i++) {
		Layer l;
		l.name = sfmt("n%d", i);
		if (what == W_NAME || s.chance(10)) { int len = s.chance(50) ? NAME : 3 + s.draw(NAME - 3); while ((int)l.name.size() < len) l.name += "_x"[s.draw(2)]; l.name.resize(std::max((int)l.name.size(), 3)); }
		if (l.name.size() > (size_t)NAME) l.name.resize(NAME);
		g.user.push_back((int)cfg.layers.size());
		cfg.layers.push_back(l);
		Action a; a.k = LAYER; a.layer = g.user.back();
		cfg.layers[0].binds.push_back({{Gen::K_A[i]}, a});
	}
	int lay = 0;                    // the layout in use from the start
	if (what == W_NAME && nl < LAYERS) {
		Layer l; l.type = Layer::LAYOUT; l.name = "lay"; int len = s.chance(50) ? NAME - 7 : 3 + s.draw(NAME - 10);      // ":layout" counts
		while ((int)l.name.size() < len) l.name += 'y';
		if (s.chance(70)) { cfg.o.default_layout = l.name; lay = (int)cfg.layers.size(); }
		cfg.layers.push_back(l);
	}
	// the items
	struct Slot { int layer; std::vector<int> keys; };
	std::vector<Slot> slots, cslots;
	for (int i = 0; i <= nl; i++) for (int k : g.keys) slots.push_back({i ? g.user[i - 1] : 0, {k}});
	if (lay) for (int k : g.keys) slots.push_back({lay, {k}});
	int cl = s.draw(nl + 1);        // a layer full of chords
	for (int a = 2; a <= 13; a++) for (int b = a + 1; b <= 13; b++) cslots.push_back({cl ? g.user[cl - 1] : 0, {a, b}});
	auto shuffle = [&](std::vector<Slot> &v) { for (size_t a = v.size(); a > 1; a--) std::swap(v[a - 1], v[s.draw(a)]); };
	shuffle(slots); shuffle(cslots);
	struct Item { int layer; Binding b; };
	std::vector<Item> items;
	auto put = [&](const Action &a) { if (slots.empty()) return; items.push_back({slots.back().layer, {slots.back().keys, a}}); slots.pop_back(); };
	int extra = s.draw(12);
	int worst = s.draw(10);         // what most of the refused bindings look like
	auto pick_bad = [&] { return s.chance(70) ? worst : (int)s.draw(10); };
	switch (what) {
	case W_CMD: for (int n = near(s, LIMIT[CMDS]); n > 0; n--) put(g.command(s.chance(20) ? 20 + s.draw(150) : 3)); break;
	case W_MAC: for (int n = near(s, LIMIT[MACROS]); n > 0; n--) put(g.macro(2 + s.draw(3))); break;
	case W_DESC: for (int n = near(s, LIMIT[DESCS]); n > 0;) { Action a = g.deep(1 + s.draw(4)); Use u{}; add(u, a, true); n -= u[DESCS]; put(a); } break;
	case W_LINE: for (int n = 1 + s.draw(8); n > 0; n--) put(s.chance(50) ? g.macro(190 + s.draw(50)) : g.command(190 + s.draw(55))); break;
	case W_BIND: for (int n = 20 + s.draw(300); n > 0; n--) put(s.chance(20) ? g.macro(3) : s.chance(15) ? g.command(5) : g.deep(s.draw(4))); break;
	case W_BAD: for (int n = s.draw(12); n > 0; n--) put(worst == 0 || worst == 1 || worst == 5 ? g.command(3) : g.macro(3)); break;
	default: break;
	}
	while (extra-- > 0) put(s.chance(25) ? g.macro(2 + s.draw(8)) : s.chance(20) ? g.command(3 + s.draw(30)) : g.deep(s.draw(3)));
	int nch = what == W_CHORD ? near(s, CHORDS) : s.chance(20) ? s.draw(20) : 0;
	nch = std::min(nch, (int)cslots.size());
	for (int i = 0; i < nch; i++) items.push_back({cslots[i].layer, {cslots[i].keys, s.chance(70) ? g.key() : g.macro(3)}});
	for (size_t a = items.size(); a > 1; a--) if (what != W_CHORD || s.chance(50)) std::swap(items[a - 1], items[s.draw(a)]);
	// which of them are made at run time
	size_t late = what == W_BIND ? s.draw(items.size() + 1) : s.chance(15) ? s.draw(items.size() + 1) : items.size();

	// the lines of the file, section by section
	std::map<int, std::string> alias;       // key -> name
	std::string aliases;
	if (what == W_ALIAS || s.chance(10)) {
		int n = what == W_ALIAS ? (int)g.keys.size() : s.draw(20);
		aliases = "[aliases]\n";
		for (int i = 0; i < n; i++) { std::string nm = sfmt("al%d", i); int len = s.chance(30) ? ALIAS : 4 + s.draw(ALIAS - 4); while ((int)nm.size() < len) nm += 'q'; alias[g.keys[i]] = nm; aliases += kname(g.keys[i]) + " = " + nm + "\n"; }
	}
	auto lhs = [&](const Binding &b) { return b.keys.size() == 1 && alias.count(b.keys[0]) && s.chance(80) ? alias[b.keys[0]] : render_lhs(b); };
	static const char *bad[] = {"overload(shift, overloadi(a, nosuchkey, 100))", "timeout(overload(shift, b), 200, nosuch(c))", "overloadt2(nolayer, timeout(a, 1, command(true)), 5)", "macro2(100, 50, macro(a nosuchkey+b))", "overloadi(macro(a b c), nosuch, 10)",
		"timeout(nosuchkey, 10, command(false))", "layerm(nolayer, macro(x y))", "overload(nolayer, timeout(a, 10, b))", "oneshotm(shift, nosuchkey)", "lettermod(nolayer, a, 1, 2)"};
	// all errors are in what is evaluated at any order of arguments
	Use u{};
	std::map<int, int> chords;
	std::vector<Item> kept;
	std::string text = "[ids]\n*\n" ;
	std::string go = render_opts(cfg.o);
	if (go.size()) text += "[global]\n" + go;
	text += aliases;
	int nsec = 1 + (go.size() ? 1 : 0) + (aliases.size() ? 1 : 0);
	// every layer exists before anything is bound
	std::map<int, std::vector<std::string>> body;
	auto takes = [&](const Item &it, bool count) {
		Use n = u;
		add(n, it.b.a, true);
		bool ok = true;
		for (int r = 0; r < NRES; r++) ok &= n[r] <= LIMIT[r];
		if (it.b.keys.size() > 1) ok &= chords[it.layer] < CHORDS;
		if (ok && count) { u = n; if (it.b.keys.size() > 1) chords[it.layer]++; }
		return ok;
	};
	std::vector<int> order;
	for (int i = 0; i < (int)cfg.layers.size(); i++) if (!i || !cfg.layers[i].builtin) order.push_back(i);
	int over = 0, badlines = 0;
	std::string line;
	for (int li : order) {
		text += layer_heading(cfg, li) + "\n";
		nsec++;
		int entries = 0;
		std::string sect;
		auto emit = [&](const std::string &l) { if (l.size() > (size_t)LINE || entries >= ENTRIES) return false; sect += l + "\n"; entries++; return true; };
		for (auto &b : cfg.layers[li].binds) if (!cfg.layers[li].builtin || li == 0) emit(render_binding(cfg, b));
		for (size_t i = 0; i < late; i++) {
			const Item &it = items[i];
			if (it.layer != li) continue;
			if (what == W_BAD || s.chance(3)) for (int n = what == W_BAD ? s.draw(60) : s.draw(4); n > 0; n--) badlines += emit(render_key(it.b.keys[0]) + " = " + bad[pick_bad()]);
			// rebound later in the same section: the last one counts
			if (what == W_ENTRY) for (int n = s.draw(ENTRIES / (1 + items.size())); n > 0 && entries < ENTRIES - 60; n--) emit(lhs(it.b) + " = " + kname(g.out()));
			line = lhs(it.b) + " = " + render_action(cfg, it.b.a);
			if (line.size() > (size_t)LINE) continue;
			if (entries >= ENTRIES) continue;
			bool ok = takes(it, true);
			emit(line);
			if (ok) kept.push_back(it); else over++;
		}
		if (what == W_ENTRY && s.chance(50)) while (entries < ENTRIES) emit("f24 = a");
		text += sect;
	}
	if (nsec < SECTIONS && s.chance(50)) while (nsec < SECTIONS && s.chance(80)) { text += layer_heading(cfg, order[s.draw(order.size())]) + "\n"; nsec++; }
	if (what == W_FILE) {
		// comments in front of everything
		size_t want = s.chance(50) ? FILESZ - 300 + s.draw(300) : s.draw(FILESZ - 300);
		std::string pad;
		while (text.size() + pad.size() < want) { size_t n = std::min((size_t)1 + s.draw(240), want - text.size() - pad.size()); pad += n == 1 ? "\n" : "#" + std::string(n - 2, 'c') + "\n"; }
		text = pad + text;
	}
	if (text.size() > (size_t)FILESZ) c.discard("file too long");
	c.docf("stressed: %s; %zu layers, %zu bindings (%zu at run time), %d beyond a limit, %d refused lines\n%s", WHAT[what], cfg.layers.size(), items.size(), items.size() - std::min(late, items.size()), over, badlines, text.size() < 6000 ? text.c_str() : (text.substr(0, 6000) + "...").c_str());

	Real r;
	if (!r.load(text)) c.fail("refused", "the file is refused");
	r.start();
	int rounds = late < items.size() ? 1 + s.draw(3) : 1;
	Use u0 = u;
	auto chords0 = chords; auto kept0 = kept;
	for (int k = 0; k < rounds; k++) {
		if (k) { if (r.bind("reset")) c.fail("reset", "reset was refused"); u = u0; chords = chords0; kept = kept0; c.docf("reset\n"); }
		for (size_t i = late; i < items.size(); i++) {
			const Item &it = items[i];
			std::string pre = it.layer ? cfg.layers[it.layer].name + "." : s.chance(50) ? "main." : "";
			if (s.chance(what == W_BAD ? 60 : 5)) for (int n = what == W_BAD ? s.draw(80) : s.draw(4); n > 0; n--) { badlines++; if (!r.bind(pre + render_key(it.b.keys[0]) + " = " + bad[pick_bad()])) c.fail("bad", "a faulty binding was accepted"); }
			std::string e = pre + render_lhs(it.b) + " = " + render_action(cfg, it.b.a);
			if (e.size() > 500) continue;
			bool ok = takes(it, true);
			c.docf("bind %s\n", e.c_str());
			int rc = r.bind(e);
			if (ok && rc) c.failf("bind", "refused although there is room: %s\n%s", e.c_str(), sh_err());
			if (ok) kept.push_back(it); else over++;
		}
	}
	// strike them
	for (auto &it : kept) cfg.layers[it.layer].binds.push_back(it.b);
	Model m(cfg);
	std::vector<In> h;
	long t = 70000;
	std::vector<size_t> pick;
	if (kept.empty()) c.discard("nothing to strike");
	for (int i = 0; i < 4 && i < (int)kept.size(); i++) pick.push_back(kept.size() - 1 - i);
	for (int i = 0; i < 40; i++) pick.push_back(s.draw(kept.size()));
	// what the commands are: looked at in some of the cases only (each is a real child process)
	bool texts = s.chance(what == W_CMD || what == W_LINE || what == W_BIND ? 40 : 4);
	int runs = 0;
	for (size_t p : pick) {
		const Item &it = kept[p];
		if (texts && it.b.a.k == COMMAND && ++runs > 4) continue;
		int act = 0;
		if (it.layer && it.layer != lay) { act = Gen::K_A[it.layer - g.user[0]]; h.push_back({act, 1, t}); t += 100; }
		for (int k : it.b.keys) h.push_back({k, 1, t++});
		t += s.chance(70) ? 20 : 260;
		for (int k : it.b.keys) h.push_back({k, 0, t++});
		t += 30;
		if (act) { h.push_back({act, 0, t}); t += 10; }
		t += 700;
	}
	if (told[0] >= 0) { close(told[0]); close(told[1]); }
	if (pipe(told)) _Exit(3);
	if (told[1] < 100) { int f = fcntl(told[1], F_DUPFD, 200); close(told[1]); told[1] = f; }     // out of the way of what the child closes or replaces
	sh_exec = tell; sh_real_exec = texts ? 2 : 0;
	std::string got;
	int seen = 0;
	auto hear = [&] {
		for (; texts && seen < r.ncommands; seen++) {
			struct pollfd p = {told[0], POLLIN, 0};
			char b[1024];
			int n;
			while ((n = poll(&p, 1, 5000)) < 0) ;
			if (n <= 0 || read(told[0], b, sizeof b) != sizeof b) { sh_real_exec = 0; c.fail("commands", "a command was not handed to the shell"); }
			got += std::string(b, strnlen(b, sizeof b)) + "\n";
		}
	};
	for (auto &e : h) { m.key(e.code, e.pressed, e.t); r.key(e.code, e.pressed, e.t); hear(); }
	m.advance(t + 3000); r.advance(t + 3000); hear();
	sh_real_exec = 0;
	if (m.ambiguous()) c.discard(m.why());
	std::string cmds;
	std::vector<Ev> want = m.trace();
	for (auto &e : want) if (e.k == Ev::CMD) { cmds += "/bin/sh|-c|" + e.name + "\n"; e.name.clear(); }
	std::string d = diff_traces(want, r.out);
	if (!d.empty()) { c.doc("--- history\n" + show_history(h)); c.fail("lost", d); }
	if (texts && cmds != got) c.fail("commands", "commands run:\n" + got + "expected:\n" + cmds);
	c.label(WHAT[what]);
	if (over) c.label("beyond a limit");
	c.nontrivial(kept.size() >= 5 || what == W_LINE || what == W_FILE || what == W_NAME);
}
pbt::Reg r40({"C40", "limits", "configurations which fill up one of: commands, macros, nested actions, chords of a layer, layers, lines of a section, the file, lines, names, aliases, bindings at run time, refused bindings; up to 44 of the bindings (the last among them) are struck and compared with the reference model; non-trivial: at least five bindings, or a long line, name or file", 8000, 200000, false, c40, nullptr});
} // namespace
