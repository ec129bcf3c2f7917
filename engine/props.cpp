// Engine properties decided against the reference model and by model-free invariants.
#include "props.h"
#include <algorithm>

using namespace spec;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;

bool lines_ok(const std::string &text)
{
	size_t p = 0;
	while (p < text.size()) {
		size_t e = text.find('\n', p);
		if (e == std::string::npos) e = text.size();
		if (e - p > 250) return false;
		p = e + 1;
	}
	return true;
}

bool st(const Model &m, const char *k) { auto it = m.stat.find(k); return it != m.stat.end() && it->second > 0; }

// The differential check: same configuration and history through keyd and through the model.
void differential(Ctx &c, Profile p, const NT &nt)
{
	// whatever is looked at meets everything else now and then
	if (c.src.chance(20)) {
		if (p.w2.empty()) p.w2 = p.w;
		for (auto *w : {&p.w, &p.w2, &p.nested}) {
			int sum = 0;
			for (int x : *w) sum += x;
			for (int &x : *w) x = std::max(x, 1 + sum / 60);
		}
		p.p_layout = std::max(p.p_layout, 8); p.p_composite = std::max(p.p_composite, 8); p.p_default_layout = std::max(p.p_default_layout, 10);
		for (int *o : {&p.p_oneshot_timeout, &p.p_tap_timeout, &p.p_chord_opts, &p.p_macro_opts}) *o = std::max(*o, 25);
		if (c.src.chance(40)) p.chords = std::max(p.chords, 2);
		c.label("everything");
	}
	Case k = gen_case(c.src, p);
	std::string text = render(k.cfg);
	auto h = gen_history(c.src, p, k);
	c.doc(text + "---\n" + show_history(h));
	if (!lines_ok(text)) c.discard("line too long");

	Model m(k.cfg);
	for (auto &e : h) m.key(e.code, e.pressed, e.t);
	long end = h.back().t + 3000;
	m.advance(end);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
	for (auto &s : m.stat) c.label(s.first);
	c.nontrivial(nt(m));

	Real r;
	if (!r.load(text)) c.fail("refused", "keyd refused a valid configuration");
	r.start();
	for (auto &e : h) r.key(e.code, e.pressed, e.t);
	r.advance(end);
	std::string d = diff_traces(m.trace(), r.out);
	if (!d.empty()) c.fail("trace", d);
}

// ---------------------------------------------------------------- profiles

void weigh(std::vector<int> &w, std::initializer_list<std::pair<Kind, int>> l) { for (auto &x : l) w[x.first] = x.second; }

void everything(std::vector<int> &w, int n)
{
	for (int i = 0; i < NKINDS; i++) w[i] = n;
	w[KEY] = 6 * n; w[LAYER] = 3 * n;
}

Profile prof_all()
{
	Profile p;
	everything(p.w);
	everything(p.nested);
	p.nested[KEY] = 40;
	p.depth = 3;
	p.max_layers = 5; p.p_layout = 12; p.p_composite = 12; p.p_default_layout = 20;
	p.p_oneshot_timeout = 25; p.p_tap_timeout = 25; p.p_chord_opts = 30; p.p_macro_opts = 20;
	return p;
}

Profile prof_layers()
{
	Profile p;
	p.w[KEY] = 40; p.w[LAYER] = 40; p.w[TOGGLE] = 8; p.w[ONESHOT] = 8; p.w[SETLAYOUT] = 10;
	p.w2 = p.w; p.w2[KEY] = 70; p.w2[LAYER] = 15;
	p.max_layers = 6; p.min_layers = 2; p.p_layout = 20; p.p_composite = 25; p.p_default_layout = 30;
	return p;
}

static Profile prof_mods()
{
	Profile p = prof_layers();
	weigh(p.w, {{KEY, 60}, {LAYER, 40}, {ONESHOT, 12}, {TOGGLE, 8}, {OVERLOAD, 10}, {LAYERM, 4}, {MACRO, 4}, {SETLAYOUT, 2}});
	weigh(p.nested, {{KEY, 30}, {MACRO, 5}});
	p.w2 = p.w;
	p.p_keymods = 50; p.p_modset = 85; p.p_modkeys = 50; p.p_layout = 5;
	return p;
}

static Profile prof_oneshot()
{
	Profile p;
	weigh(p.w, {{KEY, 40}, {ONESHOT, 50}, {ONESHOTM, 12}, {LAYER, 12}, {TOGGLE, 6}, {MACRO, 8}, {OVERLOAD, 8}, {SWAP, 4}, {CLEAR, 2}});
	p.w2 = p.w; p.w2[ONESHOT] = 12; p.w2[ONESHOTM] = 4;
	weigh(p.nested, {{KEY, 20}, {ONESHOT, 20}, {MACRO, 4}});
	p.p_oneshot_timeout = 55; p.max_held = 4;
	return p;
}

static Profile prof_switching()
{
	Profile p;
	weigh(p.w, {{KEY, 30}, {LAYER, 15}, {TOGGLE, 20}, {TOGGLEM, 8}, {SWAP, 8}, {SWAPM, 6}, {CLEAR, 8}, {CLEARM, 6}, {SETLAYOUT, 12}, {ONESHOT, 10}, {LAYERM, 6}, {ONESHOTM, 4}, {OVERLOAD, 4}});
	p.w2 = p.w; p.w2[SWAP] = 30; p.w2[SWAPM] = 15;
	weigh(p.nested, {{KEY, 20}, {TOGGLE, 10}, {SWAP, 10}, {SETLAYOUT, 5}, {CLEAR, 5}});
	p.p_layout = 25; p.p_default_layout = 30; p.max_layers = 5; p.min_layers = 2;
	return p;
}

static Profile prof_overload()
{
	Profile p;
	weigh(p.w, {{KEY, 40}, {OVERLOAD, 60}, {LAYER, 8}});
	weigh(p.w2, {});
	everything(p.nested, 3);
	p.nested[KEY] = 40;
	p.p_tap_timeout = 50; p.p_bind_main = 85; p.depth = 3; p.p_oneshot_timeout = 10;
	return p;
}

static Profile prof_timed()
{
	Profile p;
	weigh(p.w, {{KEY, 45}, {OVERLOADT, 14}, {OVERLOADT2, 14}, {TIMEOUT, 14}, {OVERLOADI, 14}, {LETTERMOD, 14}, {LAYER, 8}, {ONESHOT, 3}});
	p.w2 = p.w;
	weigh(p.nested, {{KEY, 50}, {LAYER, 15}, {ONESHOT, 5}, {TOGGLE, 5}, {OVERLOAD, 5}, {OVERLOADT, 5}, {OVERLOADT2, 5}, {TIMEOUT, 5}, {OVERLOADI, 5}, {MACRO, 4}, {LETTERMOD, 4}});
	p.p_bind_main = 80; p.max_held = 5;
	return p;
}

static Profile prof_chords()
{
	Profile p;
	weigh(p.w, {{KEY, 50}, {LAYER, 15}, {ONESHOT, 5}, {OVERLOAD, 5}, {TOGGLE, 4}, {OVERLOADT, 5}, {TIMEOUT, 5}, {OVERLOADT2, 4}, {MACRO, 4}});
	p.w2 = p.w;
	weigh(p.nested, {{KEY, 40}, {LAYER, 10}});
	p.chords = 4; p.pool_lo = 3; p.pool_hi = 6; p.p_modkeys = 10; p.p_chord_opts = 45; p.max_layers = 3;
	return p;
}

static Profile prof_macros()
{
	Profile p;
	weigh(p.w, {{KEY, 30}, {MACRO, 40}, {MACRO2, 25}, {LAYER, 15}, {LAYERM, 5}, {ONESHOTM, 4}, {TOGGLEM, 4}, {CLEARM, 3}, {ONESHOT, 4}, {OVERLOAD, 5}});
	p.w2 = p.w;
	weigh(p.nested, {{MACRO, 30}, {MACRO2, 10}, {KEY, 20}});
	p.p_macro_opts = 40; p.long_delays = true; p.p_macro_delay = 20; p.p_macro_group = 30; p.max_held = 4;
	return p;
}

static Profile prof_guard()
{
	Profile p;
	weigh(p.w, {{KEY, 30}, {LAYER, 40}, {LAYERM, 4}, {ONESHOT, 15}, {TOGGLE, 12}, {OVERLOAD, 15}, {SWAP, 3}, {CLEAR, 4}});
	p.w2 = p.w;
	weigh(p.nested, {{KEY, 30}, {TOGGLE, 4}});
	p.p_modset = 95; p.p_modkeys = 65; p.p_guard_off = 15; p.p_noop = 12; p.max_held = 4;
	return p;
}

static pbt::Reg r3({"C03", "lookup", "random layers, layouts, composites and key histories against the model; non-trivial: some press is resolved by a layer above main", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_layers(), [](const Model &m) { return ST("upper-layer-hit"); }); }, nullptr});
static pbt::Reg r4({"C04", "modifiers", "layers with modifiers and keys with written modifiers against the model; non-trivial: a key was pressed while a layer with modifiers was held and its modifiers were excluded or added", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_mods(), [](const Model &m) { return ST("mods-excluded"); }); }, nullptr});
static pbt::Reg r6({"C06", "oneshot", "oneshot-heavy configurations against the model; non-trivial: a oneshot was tapped and then consumed or expired", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_oneshot(), [](const Model &m) { return ST("oneshot-consumed") || ST("oneshot-expired"); }); }, nullptr});
static pbt::Reg r7({"C07", "switching", "toggle/swap/clear/setlayout-heavy configurations against the model; non-trivial: at least two different kinds of switching took place", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_switching(), [](const Model &m) {
		int n = 0;
		for (auto k : {"toggle", "togglem", "swap-toggled", "swap-held", "swap-oneshot", "clear", "clearm", "setlayout"}) n += ST(k);
		return n >= 2; }); }, nullptr});
static pbt::Reg r8({"C08", "overload", "overload-heavy configurations with nested actions against the model; non-trivial: an overload was tapped", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_overload(), [](const Model &m) { return ST("overload-tap"); }); }, nullptr});
static pbt::Reg r9({"C09", "timed", "timed actions with durations around their thresholds against the model; non-trivial: a decision was opened and resolved with other keys queued, or at a deadline", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_timed(), [](const Model &m) { return ST("flushed-keys") || ST("held-until-deadline"); }); }, nullptr});
static pbt::Reg r9b({"C09", "mixed", "timed actions mixed with every other action and chords, against the model; non-trivial: as for timed", 30000, 1500000, false,
	[](Ctx &c) { Profile p = prof_all(); p.chords = 2; for (Kind x : {OVERLOADT, OVERLOADT2, TIMEOUT, OVERLOADI, LETTERMOD}) p.w[x] = 10;
		differential(c, p, [](const Model &m) { return ST("flushed-keys") || ST("held-until-deadline"); }); }, nullptr});
static pbt::Reg r10({"C10", "chords", "chords over a small key pool against the model; non-trivial: a chord fired or was aborted", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_chords(), [](const Model &m) { return ST("chord-fired") || ST("chord-aborted"); }); }, nullptr});
static pbt::Reg r11({"C11", "macros", "macros of every token kind with repetition against the model; non-trivial: a macro with at least one token was typed", 40000, 1500000, false,
	[](Ctx &c) { differential(c, prof_macros(), [](const Model &m) { return ST("macro") || ST("macro2"); }); }, nullptr});
static pbt::Reg r12({"C12", "guard", "layers with meta/alt/altgr against the model; non-trivial: a modifier which would be seen as a lone tap was released", 60000, 2000000, false,
	[](Ctx &c) { differential(c, prof_guard(), [](const Model &m) { return ST("guard") || ST("guard-real-tap") || ST("guard-disabled") || ST("guard-ctrl-down"); }); }, nullptr});

int main(int argc, char **argv) { return pbt::main(argc, argv); }
