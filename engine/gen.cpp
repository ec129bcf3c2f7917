#include "gen.h"
#include <algorithm>
#include <cstring>
#include <sys/stat.h>

using namespace spec;
using pbt::Src;
using pbt::sfmt;

static const std::vector<int> LETTERS = {30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44};
static const std::vector<int> MODKEYS = {42, 29, 56, 125, 100, 54, 97, 126};
static const std::vector<int> OTHERS = {58, 57, 15, 28, 1, 14, 2, 3, 12, 13, 26, 27, 39, 40, 41, 43, 51, 52, 53, 59, 88, 96, 103, 105, 102, 110, 111, 113, 183, 193, 200, 249, 250, 251, 252, 148, 149, 202, 255, 112, 84, 86};

// A key code to emit: any named key except the five modifiers keyd manages itself.
static int gen_out_code(Src &s, const Profile &p, const Case &)
{
	int r = s.weighted({75, 15, p.p_odd_codes});
	if (r == 0) return LETTERS[s.draw(LETTERS.size())];
	if (r == 1) return OTHERS[s.draw(OTHERS.size())];
	for (;;) {
		const KeyRow &k = keytab()[s.draw(keytab().size())];
		if (!is_mod_code(k.code) && k.code != K_NOOP) return k.code;
	}
}

static int gen_mods(Src &s)
{
	static const int one[] = {SHIFT, CTRL, ALT, META, ALTGR};
	int m = one[s.draw(5)];
	if (s.chance(30)) m |= one[s.draw(5)];
	if (s.chance(10)) m |= one[s.draw(5)];
	return m;
}

static bool is_key_name(const std::string &t)
{
	for (auto &r : keytab())
		if (t == r.name || (r.alt && t == r.alt) || (r.shifted && t == r.shifted)) return true;
	return false;
}

Macro gen_macro(Src &s, const Profile &p, const Case &c, bool allow_bare)
{
	Macro m;
	if (allow_bare && s.chance(35)) {
		Tok t; t.code = gen_out_code(s, p, c); if (s.chance(40)) t.mods = gen_mods(s);
		m.toks.push_back(t); m.bare = true;
		return m;
	}
	int n = 1 + (p.wide && s.chance(20) ? s.draw(30) : s.weighted({30, 30, 20, 10, 5}));
	for (int i = 0; i < n; i++) {
		Tok t;
		switch (s.weighted({100, p.p_macro_text, p.p_macro_group, p.p_macro_delay})) {
		case 0:
			t.k = Tok::KEY; t.code = gen_out_code(s, p, c);
			if (s.chance(30)) t.mods = gen_mods(s);
			break;
		case 1: {
			t.k = Tok::TEXT;
			static const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!@#$%^&*()_=[]{};:'\"`~\\|,.<>/?-";
			int len = s.range(2, p.wide && n < 4 ? 50 : 6);
			for (int k = 0; k < len; k++) t.text += al[s.draw(al.size())];
			bool digits = t.text[0] >= '0' && t.text[0] <= '9';
			if (is_key_name(t.text) || t.text[1] == '-' || (digits && t.text.find('m') != std::string::npos)) t.text = "xq" + t.text;
			if (is_key_name(t.text)) t.text = "xqz";
			break;
		}
		case 2: {
			t.k = Tok::GROUP;
			int g = s.range(2, p.wide ? 7 : 4);
			for (int k = 0; k < g; k++) {
				int code;
				bool dup;
				do {
					code = s.chance(25) ? MODKEYS[s.draw(MODKEYS.size())] : gen_out_code(s, p, c);
					dup = std::find(t.group.begin(), t.group.end(), code) != t.group.end();
				} while (dup);
				t.group.push_back(code);
				if (s.chance(p.p_macro_delay)) t.group.push_back(-s.range(1, 300));
			}
			break;
		}
		case 3: t.k = Tok::DELAY; t.ms = p.long_delays && s.chance(8) ? s.range(1024, 65535) : s.range(1, 1023); break;
		}
		m.toks.push_back(t);
	}
	return m;
}

static int pick_layer(Src &s, const Case &c, bool layout)
{
	std::vector<int> v;
	if (layout) v.push_back(0);
	// user layers first (twice as likely), then built-in ones
	for (int pass = 0; pass < 3; pass++)
		for (size_t i = 1; i < c.cfg.layers.size(); i++) {
			const Layer &l = c.cfg.layers[i];
			if (layout ? l.type != Layer::LAYOUT : l.type != Layer::NORMAL) continue;
			if (pass < 2 ? !l.builtin : l.builtin) v.push_back((int)i);
		}
	return v[s.draw(v.size())];
}

static bool has_kind(const Action &a, std::initializer_list<Kind> ks)
{
	for (auto k : ks) if (a.k == k) return true;
	for (auto &x : a.sub) if (has_kind(x, ks)) return true;
	return false;
}

// A shell command and one of the ways to write it.
static void gen_command(Src &s, Action &a)
{
	static const std::vector<std::string> words = {"echo", "x", "a b", " ", "  ", "(", ")", "\\", "'", "\"", "$HOME", "`id`", ";", "&", "|", ">f", "#", "=", "[", "]", "-c", ",", "é", "日", "macro(a)", "command", "~", "*", "\\\\", ")(", "%s", "%n", "\\x", "1+1", "!"};
	int n = 1 + s.draw(s.chance(10) ? 40 : 7);
	std::string t = s.pick(words);
	for (int i = 1; i < n && t.size() < 100; i++) t += s.chance(30) ? std::string(1, (char)(33 + s.draw(94))) : s.pick(words);
	a.cmd = t;
	// '(' and ')' may be written plainly where they balance
	std::vector<bool> plain(t.size());
	std::vector<size_t> open;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] == '(') open.push_back(i);
		if (t[i] == ')' && open.size()) { plain[open.back()] = plain[i] = true; open.pop_back(); }
	}
	bool esc = s.chance(30);
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] == '\\') {
			bool lone = i + 1 < t.size() && !strchr("nt\\()", t[i + 1]) && s.chance(50);
			a.cmd_text += lone ? "\\" : "\\\\";
			// a lone backslash takes the next character with it
			if (lone) a.cmd_text += t[++i];
		} else if ((t[i] == '(' || t[i] == ')') && (!plain[i] || esc)) a.cmd_text += std::string("\\") + t[i];
		else a.cmd_text += t[i];
	}
}

Action gen_action(Src &s, const Profile &p, const Case &c, const std::vector<int> &w, int depth)
{
	std::vector<int> ww = w;
	if (depth <= 0)
		for (Kind k : {OVERLOAD, OVERLOADT, OVERLOADT2, OVERLOADI, TIMEOUT, LETTERMOD}) ww[k] = 0;
	int sum = 0; for (int x : ww) sum += x;
	Action a;
	a.k = sum ? (Kind)s.weighted(ww) : KEY;
	auto T = [&] { return s.chance(70) ? p.times[s.draw(p.times.size())] : s.range(1, 300); };
	auto sub = [&] { a.sub.push_back(gen_action(s, p, c, p.nested, depth - 1)); };
	switch (a.k) {
	case KEY:
		if (s.chance(p.p_noop)) { a.code = K_NOOP; break; }
		a.code = gen_out_code(s, p, c);
		if (s.chance(p.p_keymods)) a.mods = gen_mods(s);
		break;
	case LAYER: case ONESHOT: case TOGGLE: case SWAP: a.layer = pick_layer(s, c, false); break;
	case CLEAR: break;
	case LAYERM: case ONESHOTM: case TOGGLEM: case SWAPM: a.layer = pick_layer(s, c, false); a.macro = gen_macro(s, p, c, true); break;
	case CLEARM: a.macro = gen_macro(s, p, c, true); break;
	case SETLAYOUT: a.layer = pick_layer(s, c, true); break;
	case OVERLOAD: a.layer = pick_layer(s, c, false); sub(); break;
	case OVERLOADT: case OVERLOADT2: a.layer = pick_layer(s, c, false); sub(); a.t1 = T(); break;
	case OVERLOADI: sub(); sub(); a.t1 = T(); break;
	case TIMEOUT: sub(); sub(); a.t1 = T(); break;
	case MACRO: a.macro = gen_macro(s, p, c, false); break;
	case MACRO2: a.t1 = s.chance(25) ? 0 : T(); a.t2 = s.chance(15) ? 0 : T(); a.macro = gen_macro(s, p, c, true); break;
	case LETTERMOD: {
		a.layer = pick_layer(s, c, false);
		Action k; k.k = KEY; k.code = gen_out_code(s, p, c); a.sub.push_back(k);
		a.t1 = T(); a.t2 = T();
		break;
	}
	case COMMAND: gen_command(s, a); break;
	default: break;
	}
	return a;
}

static void action_thresholds(const Action &a, std::set<int> &t)
{
	if (a.t1) t.insert(a.t1);
	if (a.t2) t.insert(a.t2);
	for (auto &x : a.sub) action_thresholds(x, t);
}

void collect_thresholds(Case &c)
{
	std::set<int> th;
	bool chords = false, macros = false;
	for (auto &l : c.cfg.layers) for (auto &b : l.binds) {
		action_thresholds(b.a, th);
		if (b.keys.size() > 1) chords = true;
		if (has_kind(b.a, {MACRO, MACRO2})) macros = true;
	}
	if (chords) { th.insert(c.cfg.o.chord_timeout); if (c.cfg.o.chord_hold_timeout) th.insert(c.cfg.o.chord_hold_timeout); }
	if (macros) { th.insert(c.cfg.o.macro_timeout); th.insert(c.cfg.o.macro_repeat_timeout); }
	if (c.cfg.o.oneshot_timeout) th.insert(c.cfg.o.oneshot_timeout);
	if (c.cfg.o.overload_tap_timeout) th.insert(c.cfg.o.overload_tap_timeout);
	c.thresholds.assign(th.begin(), th.end());
}

Case gen_case(Src &s, const Profile &p0)
{
	Case c;
	Profile p = p0;
	if (s.chance(p.p_wide)) {
		c.wide = p.wide = true;
		p.max_layers = std::max(p.max_layers, 19);
		p.pool_hi = std::max(p.pool_hi, 15);
		p.p_bind_main = std::max(40, p.p_bind_main * 3 / 4);
		p.p_bind = p.p_bind / 2;
		p.p_composite = std::min(40, p.p_composite * 2);
		for (int t : {1000, 5000, 33000, 65000}) p.times.push_back(t);
	}
	c.cfg = base_cfg();
	Cfg &cfg = c.cfg;

	// key pool
	int np = s.range(p.pool_lo, p.pool_hi);
	auto add_pool = [&](int code) { if (std::find(c.pool.begin(), c.pool.end(), code) == c.pool.end()) c.pool.push_back(code); };
	for (int i = 0; i < np; i++) {
		if (s.chance(p.p_modkeys)) add_pool(MODKEYS[s.draw(MODKEYS.size())]);
		else if (s.chance(20)) {
			int o = OTHERS[s.draw(OTHERS.size())];
			add_pool(o);
		} else add_pool(LETTERS[s.draw(LETTERS.size())]);
	}

	// layers
	int nl = s.range(p.min_layers, p.max_layers);
	for (int i = 0; i < nl; i++) {
		Layer l;
		int r = s.draw(100);
		if (r >= 100 - p.p_composite) {
			l.type = Layer::COMPOSITE;
			std::vector<int> v;
			for (size_t k = 1; k < cfg.layers.size(); k++) if (cfg.layers[k].type == Layer::NORMAL) v.push_back((int)k);
			int n = 2 + (p.wide ? s.weighted({50, 20, 15, 15}) : s.weighted({75, 25}));
			while ((int)l.parts.size() < n) {
				int k = v[s.draw(v.size())];
				if (std::find(l.parts.begin(), l.parts.end(), k) == l.parts.end()) l.parts.push_back(k);
			}
			for (int k : l.parts) l.name += (l.name.empty() ? "" : "+") + cfg.layers[k].name;
			if (cfg.find(l.name) >= 0) continue;
		} else if (r >= 100 - p.p_composite - p.p_layout) {
			l.type = Layer::LAYOUT;
			l.name = sfmt("lay%d", i);
		} else {
			l.name = sfmt("l%d", i);
			if (s.chance(p.p_modset)) l.mods = gen_mods(s);
		}
		cfg.layers.push_back(l);
	}

	// options
	auto T = [&] { return s.chance(60) ? p.times[s.draw(p.times.size())] : s.range(1, 300); };
	if (s.chance(p.p_oneshot_timeout)) cfg.o.oneshot_timeout = T();
	if (s.chance(p.p_tap_timeout)) cfg.o.overload_tap_timeout = T();
	if (s.chance(p.p_chord_opts)) cfg.o.chord_timeout = T();
	if (s.chance(p.p_chord_opts)) cfg.o.chord_hold_timeout = T();
	if (s.chance(p.p_macro_opts)) cfg.o.macro_timeout = s.chance(15) ? 0 : T();
	if (s.chance(p.p_macro_opts)) cfg.o.macro_repeat_timeout = s.chance(15) ? 0 : T();
	if (s.chance(p.p_macro_opts)) cfg.o.macro_sequence_timeout = s.range(1, 5000);
	if (s.chance(p.p_guard_off)) cfg.o.disable_modifier_guard = 1;
	if (s.chance(p.p_default_layout)) {
		std::vector<std::string> v;
		for (auto &l : cfg.layers) if (l.type == Layer::LAYOUT && &l != &cfg.layers[0]) v.push_back(l.name);
		if (!v.empty()) cfg.o.default_layout = v[s.draw(v.size())];
	}

	if (p.clear_key) {
		c.clear_code = 67;   // f9: in no pool, bound in main only
		Binding b; b.keys = {c.clear_code}; b.a.k = CLEAR;
		cfg.layers[0].binds.push_back(b);
	}

	// bindings
	for (size_t i = 0; i < cfg.layers.size(); i++) {
		Layer &l = cfg.layers[i];
		int pb = i == 0 ? p.p_bind_main : l.builtin ? p.p_bind / 3 : p.p_bind;
		for (int code : c.pool) {
			if (!s.chance(pb)) continue;
			Binding b; b.keys = {code};
			b.a = gen_action(s, p, c, i == 0 || p.w2.empty() ? p.w : p.w2, p.depth);
			l.binds.push_back(b);
		}
		if (p.chords && l.type != Layer::COMPOSITE && (i == 0 || !l.builtin)) {
			int n = s.draw(p.chords + 1);
			for (int k = 0; k < n && c.pool.size() >= 2; k++) {
				Binding b;
				size_t sz = 2 + (p.wide ? s.weighted({30, 20, 15, 15, 5, 5, 10}) : s.weighted({60, 30, 10}));
				if (sz > c.pool.size()) sz = c.pool.size();
				while (b.keys.size() < sz) {
					int code = c.pool[s.draw(c.pool.size())];
					if (std::find(b.keys.begin(), b.keys.end(), code) == b.keys.end()) b.keys.push_back(code);
				}
				b.a = gen_action(s, p, c, i == 0 || p.w2.empty() ? p.w : p.w2, p.depth);
				l.binds.push_back(b);
			}
		}
	}
	collect_thresholds(c);
	return c;
}

int gen_dt(Src &s, const Case &c)
{
	switch (s.weighted({40, 25, c.thresholds.empty() ? 0 : 30, 5})) {
	case 0: return s.range(0, 3);
	case 1: return s.range(0, 60);
	case 2: {
		int t = c.thresholds[s.draw(c.thresholds.size())];
		int d = t + (int)s.draw(3) - 1;
		if (s.chance(15)) d = t / 2;
		return d < 0 ? 0 : d;
	}
	default: return s.range(0, 1500);
	}
}

std::vector<In> gen_history(Src &s, const Profile &p0, const Case &c, bool release_all)
{
	Profile p = p0;
	if (c.wide) {
		p.max_events = p.max_events * 2;
		p.max_held = std::max(p.max_held, std::min(p.max_held + 6, 15));
	}
	std::vector<const Binding *> chords;
	for (auto &l : c.cfg.layers) for (auto &b : l.binds) {
		bool ok = b.keys.size() > 1;
		for (int k : b.keys) if (std::find(c.pool.begin(), c.pool.end(), k) == c.pool.end()) ok = false;
		if (ok) chords.push_back(&b);
	}
	std::vector<In> h;
	std::vector<int> held;
	long t = 70000 + s.range(0, 1000);   // later than any timeout after boot
	for (int i = 0; i < p.max_events; i++) {
		// uniform length, and the simplest choice is to stop
		if (i && s.draw(p.max_events - i + 1) == 0) break;
		t += gen_dt(s, c);
		bool can_press = (int)held.size() < p.max_held && held.size() < c.pool.size();
		if (p.p_dup && s.chance(p.p_dup)) {
			// a press of a key already down, or a release of a key already up
			int code = c.pool[s.draw(c.pool.size())];
			bool down = std::find(held.begin(), held.end(), code) != held.end();
			h.push_back({code, down, t});
			continue;
		}
		if (p.p_extmouse && s.chance(p.p_extmouse)) {
			h.push_back({K_EXTMOUSE, 1, t});
			h.push_back({K_EXTMOUSE, 0, t});
			continue;
		}
		if (chords.size() && s.chance(c.wide ? 15 : 6)) {
			// all keys of some chord which are up, in any order
			std::vector<int> ks;
			for (int k : chords[s.draw(chords.size())]->keys) if (std::find(held.begin(), held.end(), k) == held.end()) ks.push_back(k);
			if ((int)(held.size() + ks.size()) > p.max_held) continue;
			for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[s.draw(i)]);
			int max = s.chance(70) ? 3 : c.cfg.o.chord_timeout;
			for (int k : ks) {
				h.push_back({k, 1, t});
				held.push_back(k);
				if (k != ks.back()) t += s.range(0, max);
			}
			continue;
		}
		bool press = held.empty() || (can_press && s.chance(50));
		if (press && can_press) {
			std::vector<int> up;
			for (int k : c.pool) if (std::find(held.begin(), held.end(), k) == held.end()) up.push_back(k);
			int code = up[s.draw(up.size())];
			h.push_back({code, 1, t});
			held.push_back(code);
		} else if (!held.empty()) {
			// mostly the last pressed key (taps), sometimes an older one (rollover)
			size_t i = s.chance(50) ? s.draw(held.size()) : held.size() - 1;
			h.push_back({held[i], 0, t});
			held.erase(held.begin() + i);
		}
	}
	if (release_all)
		while (!held.empty()) {
			t += gen_dt(s, c);
			size_t i = s.draw(held.size());
			h.push_back({held[i], 0, t});
			held.erase(held.begin() + i);
		}
	return h;
}

std::string show_history(const std::vector<In> &h)
{
	std::string o;
	for (auto &e : h) o += sfmt("%ld: %s %s\n", e.t, e.code ? kname(e.code).c_str() : "(wake)", e.code ? (e.pressed ? "down" : "up") : "");
	return o;
}

// ---------------------------------------------------------------- driver

static Real *g_cur;
static void cb_key(int code, int st) { if (g_cur) g_cur->out.push_back({Ev::KEY, g_cur->wall, code, st, ""}); }
static void cb_layer(const char *n, int st) { if (g_cur) g_cur->out.push_back({Ev::LAYER, g_cur->wall, 0, st ? 1 : 0, n}); }
static void cb_nap(unsigned us) { if (g_cur) g_cur->out.push_back({Ev::SLEEP, g_cur->wall, (int)us, 0, ""}); }
static void cb_cmd(const char *cmd) { if (g_cur) { g_cur->ncommands++; (void)cmd; g_cur->out.push_back({Ev::CMD, g_cur->wall, 0, 0, ""}); } }

Real::~Real() { if (g_cur == this) g_cur = nullptr; sh_free(e_); }

std::string write_cfg(const std::string &text, const std::string &name)
{
	std::string path = pbt::scratch() + "/" + name;
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); _Exit(3); }
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
	return path;
}

bool Real::load_path(const std::string &path)
{
	if (want_log) sh_log_begin();
	e_ = sh_load(path.c_str());
	if (want_log) log = sh_log_end();
	return e_ != nullptr;
}

bool Real::load(const std::string &text, const std::string &name)
{
	return load_path(write_cfg(text, name.empty() ? "c.conf" : name));
}

void Real::start() { g_cur = this; sh_cb.key = cb_key; sh_cb.layer = cb_layer; sh_cb.nap = cb_nap; sh_cb.command = cb_cmd; sh_start(e_); wall = 0; due = 0; }
void Real::restart() { out.clear(); g_cur = this; sh_restart(e_); wall = 0; due = 0; ticks_ = 0; }

void Real::call(int code, int pressed, long t)
{
	g_cur = this;
	sh_cb.key = cb_key; sh_cb.layer = cb_layer; sh_cb.nap = cb_nap; sh_cb.command = cb_cmd;
	sh_ev e = {code, pressed, t};
	long to = sh_events(e_, &e, 1);
	due = to > 0 ? t + to : 0;
}

void Real::advance(long t)
{
	while (due && due <= t) {
		if (++ticks_ > 200000) throw pbt::Fail{"timer-loop", "the engine keeps asking for timers"};
		long d = due;
		wall = d;
		call(0, 0, d);
	}
	wall = t;
}

void Real::key(int code, bool pressed, long t) { advance(t); call(code, pressed, t); }
void Real::wake(long t) { advance(t); call(0, 0, t); }

void Real::batch(const std::vector<In> &h, size_t from, size_t to)
{
	std::vector<sh_ev> v;
	for (size_t i = from; i < to; i++) v.push_back({h[i].code, h[i].pressed, h[i].t});
	if (v.empty()) return;
	advance(v[0].t);
	g_cur = this;
	long r = sh_events(e_, v.data(), v.size());
	wall = v.back().t;
	due = r > 0 ? wall + r : 0;
}

std::string diff_traces(const std::vector<Ev> &want, const std::vector<Ev> &got, const char *a, const char *b)
{
	size_t i = 0;
	while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
	if (i == want.size() && i == got.size()) return "";
	size_t from = i > 6 ? i - 6 : 0;
	return sfmt("first difference at output event %zu (shown from %zu)\n%s: %s\n%s: %s", i, from,
		a, show(want, from, 24).c_str(), b, show(got, from, 24).c_str());
}
