// Engine properties which need no reference model: invariants over histories and relations
// between runs of the real engine.
#include "props.h"
#include <algorithm>
#include <cstring>

using namespace spec;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;

static const int CLEAR_KEY = 67, PROBE_KEY = 68;      // f9, f10: in no pool

// ---------------------------------------------------------------- C01
// Nothing stuck.  The only knowledge used: layer notifications and key events.
static std::string stuck(const std::vector<Ev> &out, const Cfg &cfg)
{
	std::map<int, int> down;
	std::map<std::string, int> lay;
	for (auto &e : out) {
		if (e.k == Ev::KEY) { if (e.state) down[e.code] = 1; else down.erase(e.code); }
		if (e.k == Ev::LAYER) {
			int i = cfg.find(e.name);
			if (i >= 0 && cfg.layers[i].type != Layer::LAYOUT) lay[e.name] += e.state ? 1 : -1;
		}
	}
	for (auto &d : down) return "key still down: " + kname(d.first);
	for (auto &l : lay) if (l.second) return sfmt("layer %s has been activated %d time(s) too %s", l.first.c_str(), std::abs(l.second), l.second > 0 ? "often" : "rarely");
	return "";
}

static void c01(Ctx &c, const Profile &p0)
{
	Profile p = p0;
	p.clear_key = true;
	Case k = gen_case(c.src, p);
	std::string text = render(k.cfg);
	auto h = gen_history(c.src, p, k);
	c.doc(text + "---\n" + show_history(h) + "... timers run out, then f9 (clear) is tapped\n");
	if (!lines_ok(text)) c.discard("line too long");
	Real r;
	if (!r.load(text)) c.fail("refused", "keyd refused a valid configuration");
	r.start();
	for (auto &e : h) r.key(e.code, e.pressed, e.t);
	long t = h.back().t + (k.wide ? 70000 : 5000);
	r.advance(t);
	size_t n = r.out.size();
	bool before = !stuck(r.out, k.cfg).empty();
	r.key(CLEAR_KEY, 1, t + 1); r.key(CLEAR_KEY, 0, t + 2);
	r.advance(t + 10000);
	std::string s = stuck(r.out, k.cfg);
	if (!s.empty()) c.fail("stuck", s + "\n" + show(r.out, n > 60 ? n - 60 : 0, 100));
	if (before) c.label("something was on before clear");
	int layers = 0, keys = 0;
	for (auto &e : r.out) { layers += e.k == Ev::LAYER; keys += e.k == Ev::KEY; }
	if (layers) c.label("layer activity");
	c.nontrivial(layers >= 4 && keys >= 4);
}
static pbt::Reg r1({"C01", "stuck", "random configurations with every action nested up to 3 deep and histories with up to 6 held keys; non-trivial: at least 4 layer changes and 4 key events", 50000, 2000000, false,
	[](Ctx &c) { Profile p = prof_all(); p.chords = 2; c01(c, p); }, nullptr});
static pbt::Reg r1b({"C01", "stuck-many", "the same with up to 16 held keys; non-trivial: as above", 15000, 500000, false,
	[](Ctx &c) { Profile p = prof_all(); p.chords = 2; p.pool_lo = 16; p.pool_hi = 30; p.max_held = 16; p.max_events = 80; c01(c, p); }, nullptr});

// ---------------------------------------------------------------- C02
static std::string malformed(const std::vector<Ev> &out)
{
	bool down[256] = {};
	for (auto &e : out) {
		if (e.k != Ev::KEY) continue;
		if (e.code >= 195 && e.code <= 199) return sfmt("internal code %d was emitted at %ld", e.code, e.t);
		if (e.code <= 0 || e.code > 255) return sfmt("code %d was emitted", e.code);
		if (down[e.code] == (e.state != 0)) return sfmt("%s %s twice in a row at %ld", kname(e.code).c_str(), e.state ? "pressed" : "released", e.t);
		down[e.code] = e.state;
	}
	return "";
}

static const std::vector<int> MACRO_KEYS = {183, 184, 185, 186, 187, 188, 189, 190, 191, 192};   // f13..f22: bound to and in no pool

static void plain_macros(Src &s, Action &a)
{
	if (!a.macro.toks.empty()) {
		size_t n = a.macro.toks.size();
		a.macro.toks.clear();
		bool bare = a.macro.bare;
		for (size_t i = 0; i < n; i++) {
			Tok t; t.code = MACRO_KEYS[s.draw(MACRO_KEYS.size())];
			if (!bare && s.chance(12)) t.code = K_NOOP;
			if (!bare && s.chance(25)) {
				t.k = Tok::GROUP;
				size_t g = 2 + s.draw(3);
				while (t.group.size() < g) { int x = MACRO_KEYS[s.draw(MACRO_KEYS.size())]; if (std::find(t.group.begin(), t.group.end(), x) == t.group.end()) t.group.push_back(x); }
			}
			a.macro.toks.push_back(t);
		}
	}
	if (a.code >= 183 && a.code <= 192) a.code = 30;
	for (auto &x : a.sub) plain_macros(s, x);
}

static pbt::Reg r2({"C02", "alternate", "random configurations, macros restricted to keys no binding emits; non-trivial: at least 10 key events and at least one re-pressed, chorded, timed or macro key", 60000, 2000000, false,
	[](Ctx &c) {
		Profile p = prof_all(); p.chords = 2; p.p_noop = 15; p.p_extmouse = 3; p.p_dup = 3;
		Case k = gen_case(c.src, p);
		for (auto &x : k.pool) if (x >= 183 && x <= 192) x = 30;
		for (auto &l : k.cfg.layers) for (auto &b : l.binds) {
			plain_macros(c.src, b.a);
			for (auto &x : b.keys) if (x >= 183 && x <= 192) x = 30;
			if (b.keys.size() > 1) { std::set<int> u(b.keys.begin(), b.keys.end()); if (u.size() != b.keys.size()) c.discard("duplicate chord key"); }
		}
		std::sort(k.pool.begin(), k.pool.end()); k.pool.erase(std::unique(k.pool.begin(), k.pool.end()), k.pool.end());
		std::string text = render(k.cfg);
		auto h = gen_history(c.src, p, k);
		c.doc(text + "---\n" + show_history(h));
		if (!lines_ok(text)) c.discard("line too long");
		Real r;
		if (!r.load(text)) c.fail("refused", "keyd refused a valid configuration");
		r.start();
		for (auto &e : h) r.key(e.code, e.pressed, e.t);
		r.advance(h.back().t + (k.wide ? 70000 : 5000));
		std::string s = malformed(r.out);
		if (!s.empty()) c.fail("stream", s + "\n" + show(r.out));
		int keys = 0; bool mac = false;
		for (auto &e : r.out) if (e.k == Ev::KEY) { keys++; mac |= e.code >= 183 && e.code <= 192; }
		if (mac) c.label("macro keys emitted");
		c.nontrivial(keys >= 10);
	}, nullptr});

// ---------------------------------------------------------------- C05
// Releases undo their own press although bindings, layers and layouts move; redundant events are inert.
static pbt::Reg r5({"C05", "rebinding", "histories with run-time rebinding (including reset) while keys are held, against the model; non-trivial: a binding was replaced while its key was held", 40000, 1500000, false,
	[](Ctx &c) {
		Profile p = prof_layers(); p.w[OVERLOAD] = 10; p.w2 = p.w; p.w[SETLAYOUT] = 4; p.nested[KEY] = 10; p.w[OVERLOADT] = 6; p.w[MACRO] = 6; p.w[TIMEOUT] = 4; p.p_tap_timeout = 20;
		Case k = gen_case(c.src, p);
		std::string text = render(k.cfg);
		auto h = gen_history(c.src, p, k);
		if (!lines_ok(text)) c.discard("line too long");
		Model m(k.cfg);
		Real r;
		c.doc(text + "---\n");
		bool ok = r.load(text);
		if (!ok) c.fail("refused", "keyd refused a valid configuration");
		r.start();
		std::set<int> held;
		bool moved = false;
		for (auto &e : h) {
			m.key(e.code, e.pressed, e.t);
			r.key(e.code, e.pressed, e.t);
			if (e.pressed) held.insert(e.code); else held.erase(e.code);
			c.docf("%ld: %s %s\n", e.t, kname(e.code).c_str(), e.pressed ? "down" : "up");
			while (c.src.chance(20)) {
				if (c.src.chance(20)) {
					c.doc("bind reset\n");
					m.reset_bindings();
					if (r.bind("reset")) c.fail("reset", "reset refused");
					if (!held.empty()) { moved = true; c.label("reset while held"); }
					continue;
				}
				Binding b;
				b.keys = {k.pool[c.src.draw(k.pool.size())]};
				int l = c.src.draw(k.cfg.layers.size());
				b.a = gen_action(c.src, p, k, p.w, 2);
				std::string line = k.cfg.layers[l].name + "." + render_binding(k.cfg, b);
				if (line.size() > 240) continue;
				c.doc("bind " + line + "\n");
				if (r.bind(line)) c.fail("bind-refused", std::string("refused: ") + sh_err());
				m.rebind(l, b.keys[0], b.a);
				if (held.count(b.keys[0])) { moved = true; c.label("rebound while held"); }
			}
		}
		long end = h.back().t + 3000;
		m.advance(end); r.advance(end);
		if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
		c.nontrivial(moved);
		std::string d = diff_traces(m.trace(), r.out);
		if (!d.empty()) c.fail("trace", d);
	}, nullptr});

static pbt::Reg r5b({"C05", "redundant", "the same history with and without extra presses of keys already down and releases of keys already up (as from a second device); non-trivial: at least 3 redundant events", 20000, 800000, false,
	[](Ctx &c) {
		Profile p = prof_all(); p.chords = 2;
		Case k = gen_case(c.src, p);
		std::string text = render(k.cfg);
		auto h = gen_history(c.src, p, k);
		if (!lines_ok(text)) c.discard("line too long");
		// insert redundant events at the times of existing ones, right after them
		std::vector<In> h2;
		std::set<int> held;
		int n = 0;
		for (auto &e : h) {
			h2.push_back(e);
			if (e.pressed) held.insert(e.code); else held.erase(e.code);
			while (c.src.chance(25)) {
				int code = k.pool[c.src.draw(k.pool.size())];
				h2.push_back({code, held.count(code) > 0, e.t});
				n++;
			}
		}
		c.doc(text + "---\n" + show_history(h2));
		Model m(k.cfg);
		for (auto &e : h) m.key(e.code, e.pressed, e.t);
		long end = h.back().t + 3000;
		m.advance(end);
		if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
		if (ST("edge")) c.discard("deadline reached while it was set");
		c.nontrivial(n >= 3);
		Real a, b;
		if (!a.load(text)) c.fail("refused", "keyd refused a valid configuration");
		a.start();
		for (auto &e : h) a.key(e.code, e.pressed, e.t);
		a.advance(end);
		b.load(text); b.start();
		for (auto &e : h2) b.key(e.code, e.pressed, e.t);
		b.advance(end);
		std::string d = diff_traces(a.out, b.out, "without", "with   ");
		if (!d.empty()) c.fail("redundant", d);
	}, nullptr});

// ---------------------------------------------------------------- C13
static std::vector<Ev> untimed(const std::vector<Ev> &v) { auto o = v; for (auto &e : o) e.t = 0; return o; }

static pbt::Reg r13({"C13", "relations", "the same history event by event, in random batches, shifted in time, with spurious wake-ups, and repeated on a fresh keyboard; non-trivial: some timed decision, chord, oneshot expiry or macro repetition took place", 24000, 800000, false,
	[](Ctx &c) {
		Profile p = prof_all(); p.chords = 2;
		Case k = gen_case(c.src, p);
		std::string text = render(k.cfg);
		auto h = gen_history(c.src, p, k);
		if (!lines_ok(text)) c.discard("line too long");
		c.doc(text + "---\n" + show_history(h));
		long end = h.back().t + 3000;
		Model m(k.cfg);                       // only used to classify the case
		for (auto &e : h) m.key(e.code, e.pressed, e.t);
		m.advance(end);
		if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
		c.nontrivial(ST("timed") || ST("chord-fired") || ST("chord-aborted") || ST("oneshot-expired") || ST("macro-repeat"));
		Real a;
		if (!a.load(text)) c.fail("refused", "keyd refused a valid configuration");
		a.start();
		for (auto &e : h) a.key(e.code, e.pressed, e.t);
		a.advance(end);
		std::vector<Ev> ref = a.out;
		std::string d;

		// again
		a.restart();
		for (auto &e : h) a.key(e.code, e.pressed, e.t);
		a.advance(end);
		d = diff_traces(ref, a.out, "first run ", "second run");
		if (!d.empty()) c.fail("repeat", d);

		// shifted in time
		long shift = c.src.chance(50) ? c.src.range(1, 1000000) : (1l << c.src.range(20, 40)) + c.src.range(0, 1000);
		a.restart();
		for (auto &e : h) a.key(e.code, e.pressed, e.t + shift);
		a.advance(end + shift);
		auto sh = a.out;
		for (auto &e : sh) e.t -= shift;
		d = diff_traces(ref, sh, "original", "shifted ");
		if (!d.empty()) { c.docf("shifted by %ld ms\n", shift); c.fail("shift", d); }

		// in batches
		a.restart();
		std::string cuts;
		for (size_t i = 0; i < h.size();) {
			size_t j = i + 1 + c.src.draw(6);
			if (j > h.size()) j = h.size();
			a.batch(h, i, j);
			cuts += sfmt(" %zu", j - i);
			i = j;
		}
		a.advance(end);
		d = diff_traces(untimed(ref), untimed(a.out), "singly ", "batched");
		if (!d.empty()) { c.doc("batches of" + cuts + "\n"); c.fail("batch", d); }

		// with wake-ups nobody asked for (a deadline which is reached while it is being set is
		// acted upon at the next opportunity: there, a wake-up may rightly make a difference)
		if (ST("edge")) { c.label("no wake-ups: deadline reached while set"); return; }
		a.restart();
		std::string wakes;
		long prev = h[0].t;
		for (auto &e : h) {
			for (int i = 0; i < 2; i++)
				if (c.src.chance(40)) {
					long w = prev + (e.t > prev ? c.src.draw(e.t - prev + 1) : 0);
					if (w < a.wall) w = a.wall;
					a.wake(w);
					wakes += sfmt(" %ld", w);
				}
			a.key(e.code, e.pressed, e.t);
			prev = e.t;
		}
		a.advance(end);
		d = diff_traces(ref, a.out, "plain", "woken");
		if (!d.empty()) { c.doc("wake-ups at" + wakes + "\n"); c.fail("wake", d); }
	}, nullptr});

// ---------------------------------------------------------------- C14
static void c14(Ctx &c, const Profile &p0)
{
	Profile p = p0;
	p.clear_key = true;
	Case k = gen_case(c.src, p);
	std::string text = render(k.cfg);
	bool calm = c.src.chance(70);                 // otherwise: completely arbitrary events
	std::vector<In> h;
	if (calm) h = gen_history(c.src, p, k);
	else {
		long t = c.src.range(1, 1000);
		int n = c.src.range(1, p.max_events);
		for (int i = 0; i < n; i++) {
			t += c.src.chance(60) ? 0 : gen_dt(c.src, k);
			int code = c.src.chance(90) ? k.pool[c.src.draw(k.pool.size())] : 1 + c.src.draw(255);
			if (code == CLEAR_KEY || code == PROBE_KEY || (code >= 195 && code <= 199)) code = 30;
			h.push_back({code, (int)c.src.draw(2), t});
		}
		std::set<int> down;
		for (auto &e : h) if (e.pressed) down.insert(e.code); else down.erase(e.code);
		for (int d : down) h.push_back({d, 0, t += gen_dt(c.src, k)});
		c.label("arbitrary events");
	}
	c.doc(text + "---\n" + show_history(h) + "... timers run out, then f10 (unbound) is tapped\n");
	if (!lines_ok(text)) c.discard("line too long");
	Real r;
	if (!r.load(text)) c.fail("refused", "keyd refused a valid configuration");
	r.start();
	std::set<int> down; size_t most = 0;
	for (auto &e : h) { r.key(e.code, e.pressed, e.t); if (e.pressed) down.insert(e.code); else down.erase(e.code); most = std::max(most, down.size()); }
	long t = h.back().t + (k.wide ? 70000 : 5000);
	r.advance(t);
	size_t n = r.out.size();
	r.key(PROBE_KEY, 1, t + 1); r.advance(t + 1000);
	r.key(PROBE_KEY, 0, t + 1001); r.advance(t + 2000);
	int ups = 0, downs = 0;
	for (size_t i = n; i < r.out.size(); i++) if (r.out[i].k == Ev::KEY && r.out[i].code == PROBE_KEY) { if (r.out[i].state) downs++; else ups++; }
	if (downs != 1 || ups != 1) c.fail("wedged", sfmt("an unbound key pressed afterwards was emitted %d time(s) down and %d time(s) up\n", downs, ups) + show(r.out, n > 30 ? n - 30 : 0, 60));
	if (most > 16) c.label("more than 16 keys held");
	if (r.due) c.fail("timer", "a timer is still pending long after the last event");
	c.nontrivial(h.size() >= 20);
}
static pbt::Reg r14({"C14", "abuse", "random configurations with every action; duplicated, orphaned and arbitrary events; non-trivial: at least 20 events", 30000, 1200000, false,
	[](Ctx &c) { Profile p = prof_all(); p.chords = 3; p.p_dup = 10; p.p_extmouse = 3; p.max_events = 90; c14(c, p); }, nullptr});
static pbt::Reg r14b({"C14", "many-keys", "the same with up to 60 keys held at once; non-trivial: as above", 12000, 400000, false,
	[](Ctx &c) { Profile p = prof_all(); p.chords = 3; p.pool_lo = 20; p.pool_hi = 80; p.max_held = 60; p.max_events = 250; p.p_dup = 3; c14(c, p); }, nullptr});
static pbt::Reg r14c({"C14", "timed-flood", "timed actions and chords with floods of events inside their windows; non-trivial: as above", 12000, 400000, false,
	[](Ctx &c) {
		Profile p = prof_all(); p.chords = 4; p.times = {200, 500, 1000}; p.pool_lo = 4; p.pool_hi = 40; p.max_held = 30; p.max_events = 200; p.p_chord_opts = 60;
		for (Kind x : {OVERLOADT, OVERLOADT2, TIMEOUT, OVERLOADI, LETTERMOD}) p.w[x] = 20;
		c14(c, p);
	}, nullptr});
