#include "spec.h"
#include "../lib/pbt.h"
#include <algorithm>
#include <cstring>

namespace spec {

using pbt::sfmt;

// ---------------------------------------------------------------- keys

const std::vector<KeyRow> &keytab()
{
	static const std::vector<KeyRow> t = {
#include "keytab.inc"
	};
	return t;
}

const KeyRow *key_by_code(int code)
{
	static const KeyRow *idx[256];
	static bool init = false;
	if (!init) { for (auto &r : keytab()) idx[r.code] = &r; init = true; }
	return code >= 0 && code < 256 ? idx[code] : nullptr;
}

std::string kname(int code)
{
	const KeyRow *r = key_by_code(code);
	return r ? r->name : sfmt("#%d", code);
}

const std::vector<ModRow> &modtab()
{
	static const std::vector<ModRow> m = {
		{ALT, K_LALT, 'A'}, {ALTGR, K_RALT, 'G'}, {SHIFT, K_LSHIFT, 'S'}, {META, K_LMETA, 'M'}, {CTRL, K_LCTRL, 'C'},
	};
	return m;
}
bool is_mod_code(int code) { for (auto &m : modtab()) if (m.code == code) return true; return false; }
std::string mods_str(int mods) { std::string s; for (auto &m : modtab()) if (mods & m.mask) { s += m.letter; s += '-'; } return s; }
std::string modset_str(int mods) { std::string s = mods_str(mods); if (!s.empty()) s.pop_back(); return s; }

// ---------------------------------------------------------------- macros

// The key sequence for one ASCII character, as a US keyboard types it.
static bool char_key(char c, int &code, int &mods)
{
	for (auto &r : keytab()) {
		if (r.name[0] == c && !r.name[1]) { code = r.code; mods = 0; return true; }
		if (r.shifted && r.shifted[0] == c && !r.shifted[1]) { code = r.code; mods = SHIFT; return true; }
	}
	return false;
}

std::vector<MacroOp> lower(const Macro &m)
{
	std::vector<MacroOp> v;
	for (auto &t : m.toks) {
		switch (t.k) {
		case Tok::KEY: { MacroOp o; o.k = MacroOp::TAP; o.code = t.code; o.mods = t.mods; v.push_back(o); break; }
		case Tok::TEXT:
			for (char c : t.text) {
				MacroOp o; o.k = MacroOp::TAP;
				if (char_key(c, o.code, o.mods)) v.push_back(o);
			}
			break;
		case Tok::GROUP: {
			MacroOp up; up.k = MacroOp::UPALL;
			for (int g : t.group) {
				MacroOp o;
				if (g < 0) { o.k = MacroOp::DELAY; o.ms = -g; }
				else { o.k = MacroOp::DOWN; o.code = g; up.codes.push_back(g); }
				v.push_back(o);
			}
			v.push_back(up);
			break;
		}
		case Tok::DELAY: { MacroOp o; o.k = MacroOp::DELAY; o.ms = t.ms; v.push_back(o); break; }
		}
	}
	return v;
}

// ---------------------------------------------------------------- config

const char *kind_name(Kind k)
{
	static const char *n[] = {"key", "layer", "oneshot", "toggle", "swap", "clear", "layerm", "oneshotm", "togglem", "swapm", "clearm",
		"setlayout", "overload", "overloadt", "overloadt2", "overloadi", "timeout", "macro", "macro2", "lettermod", "command"};
	return n[k];
}

int Cfg::find(const std::string &n) const
{
	for (size_t i = 0; i < layers.size(); i++) if (layers[i].name == n) return (int)i;
	return -1;
}

Cfg base_cfg()
{
	Cfg c;
	struct { const char *n; Layer::T t; int m; } b[] = {
		{"main", Layer::LAYOUT, 0}, {"control", Layer::NORMAL, CTRL}, {"shift", Layer::NORMAL, SHIFT},
		{"meta", Layer::NORMAL, META}, {"alt", Layer::NORMAL, ALT}, {"altgr", Layer::NORMAL, ALTGR}};
	for (auto &x : b) { Layer l; l.name = x.n; l.type = x.t; l.mods = x.m; l.builtin = true; c.layers.push_back(l); }
	return c;
}

// ---------------------------------------------------------------- rendering

const Style *g_style;
static unsigned alt(unsigned n) { return g_style ? g_style->rnd(n) : 0; }
static std::string spaces(unsigned n) { return std::string(n, ' '); }
static std::string comma() { return "," + spaces(g_style ? alt(4) : 1); }

// Names which have a meaning of their own in some position are written out.
std::string render_key(int code)
{
	switch (code) {
	case 12: case 13: case 26: case 27: case 43: case 51: return key_by_code(code)->alt;
	}
	const KeyRow *r = key_by_code(code);
	if (r && r->alt && alt(2)) return r->alt;
	return kname(code);
}

// The modifiers and key of an action or macro token: any order of prefixes, shifted names.
static std::string render_seq(int mods, int code)
{
	if (!g_style) return mods_str(mods) + render_key(code);
	std::vector<char> v;
	const KeyRow *r = key_by_code(code);
	std::string key = render_key(code);
	if ((mods & SHIFT) && r && r->shifted && alt(2)) {
		std::string sh = r->shifted;
		static const std::string avoid = "()\\,+=#[";
		if (sh.size() == 1 && avoid.find(sh[0]) == std::string::npos) { key = sh; if (alt(2)) mods &= ~SHIFT; }
	}
	for (auto &m : modtab()) if (mods & m.mask) v.push_back(m.letter);
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[alt(i)]);
	std::string s;
	for (char x : v) s += std::string(1, x) + "-";
	return s + key;
}

static std::string esc(const std::string &s)
{
	std::string o;
	for (char c : s) { if (c == '(' || c == ')' || c == '\\') o += '\\'; o += c; }
	return o;
}

std::string render_macro(const Macro &m)
{
	std::string s;
	for (auto &t : m.toks) {
		std::string x;
		switch (t.k) {
		case Tok::KEY: x = render_seq(t.mods, t.code); break;
		case Tok::TEXT: x = t.text; break;
		case Tok::GROUP:
			for (size_t i = 0; i < t.group.size(); i++) {
				if (i) x += "+";
				x += t.group[i] < 0 ? sfmt("%dms", -t.group[i]) : render_key(t.group[i]);
			}
			break;
		case Tok::DELAY: x = sfmt("%dms", t.ms); break;
		}
		if (!s.empty()) s += " ";
		s += x;
	}
	if (m.bare) return s;
	return "macro(" + esc(s) + ")";
}

std::string render_action(const Cfg &c, const Action &a)
{
	auto L = [&](int i) { return i >= 0 ? c.layers[i].name : std::string("?"); };
	auto S = [&](int i) { return render_action(c, a.sub[i]); };
	const char *n = kind_name(a.k);
	auto F = [&](const char *fn, std::initializer_list<std::string> args) {
		std::string o = std::string(fn) + "(" + spaces(alt(3));
		bool first = true;
		for (auto &x : args) { if (!first) o += comma(); first = false; o += x; }
		return o + ")";
	};
	auto N = [&](int i) { return std::to_string(i); };
	switch (a.k) {
	case KEY: return render_seq(a.mods, a.code);
	case LAYER: case ONESHOT: case TOGGLE: case SWAP: return F(n, {L(a.layer)});
	case SETLAYOUT: return F("setlayout", {L(a.layer)});
	case CLEAR: return "clear()";
	case TOGGLEM: return F(alt(2) ? "toggle2" : n, {L(a.layer), render_macro(a.macro)});
	case SWAPM: return F(alt(2) ? "swap2" : n, {L(a.layer), render_macro(a.macro)});
	case LAYERM: case ONESHOTM: return F(n, {L(a.layer), render_macro(a.macro)});
	case CLEARM: return F(n, {render_macro(a.macro)});
	case OVERLOAD: return F("overload", {L(a.layer), S(0)});
	case OVERLOADT: return F(alt(2) ? "overload2" : n, {L(a.layer), S(0), N(a.t1)});
	case OVERLOADT2: return F(alt(2) ? "overload3" : n, {L(a.layer), S(0), N(a.t1)});
	case OVERLOADI: return F(n, {S(0), S(1), N(a.t1)});
	case TIMEOUT: return F(n, {S(0), N(a.t1), S(1)});
	case MACRO: return render_macro(a.macro);
	case COMMAND: return "command(" + a.cmd_text + ")";
	case MACRO2: return F(n, {N(a.t1), N(a.t2), render_macro(a.macro)});
	case LETTERMOD:
		if (alt(2)) return F("overloadi", {S(0), F(alt(2) ? "overload3" : "overloadt2", {L(a.layer), S(0), N(a.t2)}), N(a.t1)});
		return F(n, {L(a.layer), S(0), N(a.t1), N(a.t2)});
	default: return "?";
	}
}

std::string render_lhs(const Binding &b)
{
	std::string s;
	for (size_t i = 0; i < b.keys.size(); i++) { if (i) s += "+"; s += render_key(b.keys[i]); }
	return s;
}

std::string render_binding(const Cfg &c, const Binding &b) { return render_lhs(b) + " = " + render_action(c, b.a); }

std::string layer_heading(const Cfg &c, int i)
{
	const Layer &l = c.layers[i];
	std::string s = "[" + l.name;
	if (!l.builtin) {
		if (l.type == Layer::LAYOUT) s += ":layout";
		else if (l.type == Layer::NORMAL && l.mods) s += ":" + modset_str(l.mods);
	}
	return s + "]";
}

std::string render_opts(const Opts &o)
{
	Opts d;
	std::string s;
	auto put = [&](const char *n, int v, int dv) { if (v != dv) s += sfmt("%s = %d\n", n, v); };
	put("macro_timeout", o.macro_timeout, d.macro_timeout);
	put("macro_repeat_timeout", o.macro_repeat_timeout, d.macro_repeat_timeout);
	put("macro_sequence_timeout", o.macro_sequence_timeout, d.macro_sequence_timeout);
	put("oneshot_timeout", o.oneshot_timeout, d.oneshot_timeout);
	put("overload_tap_timeout", o.overload_tap_timeout, d.overload_tap_timeout);
	put("chord_timeout", o.chord_timeout, d.chord_timeout);
	put("chord_hold_timeout", o.chord_hold_timeout, d.chord_hold_timeout);
	put("disable_modifier_guard", o.disable_modifier_guard, d.disable_modifier_guard);
	put("layer_indicator", o.layer_indicator, d.layer_indicator);
	if (!o.default_layout.empty()) s += "default_layout = " + o.default_layout + "\n";
	return s;
}

std::string render(const Cfg &c)
{
	std::string s = "[ids]\n*\n";
	std::string g = render_opts(c.o);
	if (!g.empty()) s += "[global]\n" + g;
	for (size_t i = 0; i < c.layers.size(); i++) {
		if (c.layers[i].builtin && c.layers[i].binds.empty()) continue;
		s += layer_heading(c, (int)i) + "\n";
		for (auto &b : c.layers[i].binds) s += render_binding(c, b) + "\n";
	}
	return s;
}

std::string show(const Ev &e)
{
	switch (e.k) {
	case Ev::KEY: return sfmt("%ld:%s%s", e.t, e.state ? "+" : "-", kname(e.code).c_str());
	case Ev::LAYER: return sfmt("%ld:<%s%s>", e.t, e.state ? "+" : "-", e.name.c_str());
	case Ev::CMD: return sfmt("%ld:command(%s)", e.t, e.name.c_str());
	default: return sfmt("%ld:sleep(%dus)", e.t, e.code);
	}
}
std::string show(const std::vector<Ev> &v, size_t from, size_t n)
{
	std::string s;
	for (size_t i = from; i < v.size() && i < from + n; i++) s += (s.empty() ? "" : " ") + show(v[i]);
	return s;
}

// ---------------------------------------------------------------- the model

static Action mk_layer(int l) { Action a; a.k = LAYER; a.layer = l; return a; }

static Action expand(const Action &a)
{
	if (a.k == LETTERMOD) {
		Action in; in.k = OVERLOADT2; in.layer = a.layer; in.t1 = a.t2; in.sub.push_back(a.sub[0]);
		Action o; o.k = OVERLOADI; o.t1 = a.t1; o.sub = {a.sub[0], in};
		return o;
	}
	return a;
}

void Model::reset_bindings()
{
	km_.assign(c_.layers.size(), {});
	chords_.assign(c_.layers.size(), {});
	auto mod = [&](int code, const char *n) { km_[0][code] = std::make_shared<Action>(mk_layer(c_.find(n))); };
	mod(K_LSHIFT, "shift"); mod(K_RSHIFT, "shift"); mod(K_LALT, "alt"); mod(K_RALT, "altgr");
	mod(K_LMETA, "meta"); mod(K_RMETA, "meta"); mod(K_LCTRL, "control"); mod(K_RCTRL, "control");
	for (size_t i = 0; i < c_.layers.size(); i++)
		for (auto &b : c_.layers[i].binds) {
			if (b.keys.size() == 1) rebind((int)i, b.keys[0], b.a);
			else rebind_chord((int)i, b.keys, b.a);
		}
}

void Model::rebind_chord(int layer, const std::vector<int> &keys, const Action &a)
{
	std::set<int> s(keys.begin(), keys.end());
	for (auto &ch : chords_[layer])
		if (std::set<int>(ch.keys.begin(), ch.keys.end()) == s) { ch.a = std::make_shared<Action>(a); return; }
	chords_[layer].push_back({keys, std::make_shared<Action>(a)});
}

Model::Model(const Cfg &c) : c_(c)
{
	reset_bindings();
	L.resize(c.layers.size());
	L[0].count = 1; L[0].seq = -1;
	if (!c.o.default_layout.empty()) {
		int i = c.find(c.o.default_layout);
		if (i >= 0 && c.layers[i].type == Layer::LAYOUT) { L[i].count = 1; L[i].seq = 0; }
	}
}

void Model::set_key(int code, bool down)
{
	if (code == K_NOOP || code == K_EXTMOUSE) return;
	if (down) last_out_ = code;
	if (ks_[code] != down) { ks_[code] = down; emit_key(code, down); }
}

// A modifier which would look like a lone tap is released inside a control tap.
void Model::drop_mod(int code)
{
	bool lone = last_out_ == code && (code == K_LMETA || code == K_LALT || code == K_RALT);
	if (lone && !guard_off_ && !c_.o.disable_modifier_guard && !ks_[K_LCTRL]) {
		stat["guard"]++;
		set_key(K_LCTRL, true);
		set_key(code, false);
		set_key(K_LCTRL, false);
	} else {
		if (lone) stat[guard_off_ ? "guard-real-tap" : c_.o.disable_modifier_guard ? "guard-disabled" : "guard-ctrl-down"]++;
		set_key(code, false);
	}
}

void Model::set_mods(int mods)
{
	for (auto &m : modtab()) {
		if (mods & m.mask) { if (!ks_[m.code]) set_key(m.code, true); }
		else if (ks_[m.code]) drop_mod(m.code);
	}
}

// Modifiers of all active layers except `ex` (and, for a composite, its constituents), plus `extra`.
void Model::mods_for(int ex, int extra)
{
	int m = extra;
	for (size_t i = 0; i < L.size(); i++) {
		if (!L[i].count) continue;
		bool skip = (int)i == ex;
		if (ex >= 0 && c_.layers[ex].type == Layer::COMPOSITE)
			for (int p : c_.layers[ex].parts) if (p == (int)i) skip = true;
		if (skip) { if (c_.layers[i].mods) stat["mods-excluded"]++; }
		else m |= c_.layers[i].mods;
	}
	set_mods(m);
}

void Model::on(int l)
{
	L[l].count++;
	L[l].seq = seq_++;
	if (L[l].count == 1) out_.push_back({Ev::LAYER, wall_, 0, 1, c_.layers[l].name});
}
void Model::off(int l)
{
	if (L[l].count <= 0) { ambiguous("layer deactivated below zero"); return; }
	L[l].count--;
	if (!L[l].count) out_.push_back({Ev::LAYER, wall_, 0, 0, c_.layers[l].name});
}

void Model::consume_oneshots()
{
	for (size_t i = 0; i < L.size(); i++)
		while (L[i].oneshot) { L[i].oneshot--; off((int)i); stat["oneshot-consumed"]++; }
	latch_.clear();
	oneshot_due_ = 0;
}

void Model::clear_all()
{
	consume_oneshots();
	for (size_t i = 1; i < L.size(); i++)
		if (c_.layers[i].type != Layer::LAYOUT && L[i].toggled) { L[i].toggled = false; off((int)i); }
	mac_ = nullptr;
	for (int i = 0; i < 256; i++) if (ks_[i]) { ks_[i] = false; emit_key(i, 0); }
}

void Model::type_macro(int dl, const std::vector<MacroOp> &ops)
{
	if (ops.size() == 1 && ops[0].k == MacroOp::TAP) {
		mods_for(dl, ops[0].mods);
		set_key(ops[0].code, true);
		set_key(ops[0].code, false);
		return;
	}
	mods_for(dl, 0);
	int gap = c_.o.macro_sequence_timeout;
	auto nap = [&](int us) { out_.push_back({Ev::SLEEP, wall_, us, 0, ""}); };
	for (auto &o : ops) {
		switch (o.k) {
		case MacroOp::TAP:
			for (auto &m : modtab()) if (o.mods & m.mask) emit_key(m.code, 1);
			if (o.mods && gap) nap(gap);
			if (o.code != K_NOOP) { emit_key(o.code, 1); emit_key(o.code, 0); }
			for (auto &m : modtab()) if (o.mods & m.mask) emit_key(m.code, 0);
			break;
		case MacroOp::DOWN: if (o.code != K_NOOP) emit_key(o.code, 1); break;
		case MacroOp::UPALL: for (int c : o.codes) if (c != K_NOOP) emit_key(c, 0); break;
		case MacroOp::DELAY: nap(o.ms * 1000); break;
		case MacroOp::UNICODE: break;
		}
		if (gap) nap(gap);
	}
}

Model::Held *Model::find(int code)
{
	for (auto &h : held_) if (h.code == code) return &h;
	return nullptr;
}

Model::AP Model::lookup(int code, int &dl)
{
	if (code >= K_CHORD1 && code <= K_CHORDMAX) { dl = live_[code - K_CHORD1].dl; return live_[code - K_CHORD1].a; }
	AP best; long seq = -2;
	for (size_t i = 0; i < L.size(); i++) {
		if (!L[i].count) continue;
		auto it = km_[i].find(code);
		if (it != km_[i].end() && L[i].seq > seq) { best = it->second; seq = L[i].seq; dl = (int)i; }
	}
	size_t most = 0;
	for (size_t i = 0; i < L.size(); i++) {
		const Layer &l = c_.layers[i];
		if (l.type != Layer::COMPOSITE) continue;
		bool all = true;
		for (int p : l.parts) all &= L[p].count > 0;
		auto it = km_[i].find(code);
		if (all && it != km_[i].end() && l.parts.size() > most) { best = it->second; dl = (int)i; most = l.parts.size(); stat["composite-hit"]++; }
	}
	if (!best) {
		Action a; a.k = KEY; a.code = code;
		dl = 0;
		stat["self"]++;
		return std::make_shared<Action>(a);
	}
	if (dl != 0) stat["upper-layer-hit"]++;
	return best;
}

void Model::start_timed(int code, AP tap, AP hold, int dl, long due, Kind k)
{
	if (pend_.open) { ambiguous("second undecided key"); return; }
	pend_.open = true; pend_.code = code; pend_.dl = dl; pend_.due = due; pend_.tap = tap; pend_.hold = hold; pend_.k = k; pend_.q.clear();
	stat["timed"]++;
}

void Model::press(int code, AP a0, int dl, long t)
{
	AP a = a0->k == LETTERMOD ? std::make_shared<Action>(expand(*a0)) : a0;
	auto sub = [&](int i) { return std::make_shared<Action>(a->sub[i]); };
	stat[kind_name(a->k)]++;

	switch (a->k) {
	case KEY:
		if (ks_[a->code]) { set_key(a->code, false); stat["repress"]++; }
		mods_for(dl, a->mods);
		set_key(a->code, true);
		consume_oneshots();
		if (!a->mods || a->mods == SHIFT) last_sym_ = t;
		break;
	case LAYERM: type_macro(dl, lower(a->macro)); /* fall through */
	case LAYER:
		on(a->layer);
		if (Held *h = find(code)) h->layer = a->layer;
		guard_off_ = last_code_ == code;
		mods_for(-1, 0);
		guard_off_ = false;
		break;
	case ONESHOTM: type_macro(dl, lower(a->macro)); /* fall through */
	case ONESHOT:
		on(a->layer);
		if (Held *h = find(code)) h->layer = a->layer;
		mods_for(dl, 0);
		latch_.insert(code);
		break;
	case TOGGLEM: type_macro(dl, lower(a->macro)); /* fall through */
	case TOGGLE:
		L[a->layer].toggled = !L[a->layer].toggled;
		if (L[a->layer].toggled) on(a->layer); else off(a->layer);
		mods_for(-1, 0);
		consume_oneshots();
		break;
	case CLEAR: clear_all(); break;
	case CLEARM: clear_all(); type_macro(dl, lower(a->macro)); mods_for(-1, 0); break;
	case SETLAYOUT:
		clear_all();
		for (size_t i = 1; i < L.size(); i++) if (c_.layers[i].type == Layer::LAYOUT) L[i].count = 0;
		if (a->layer) { L[a->layer].count = 1; L[a->layer].seq = 0; }
		out_.push_back({Ev::LAYER, wall_, 0, 1, c_.layers[a->layer].name});
		break;
	case SWAP: case SWAPM: {
		int to = a->layer;
		if (L[dl].toggled) {
			off(dl); L[dl].toggled = false;
			if (!L[to].toggled) { on(to); L[to].toggled = true; } else stat["swap-onto-toggled"]++;
			mods_for(-1, 0);
			stat["swap-toggled"]++;
		} else if (L[dl].oneshot) {
			off(dl); L[dl].oneshot--;
			on(to); L[to].oneshot++;
			mods_for(-1, 0);
			stat["swap-oneshot"]++;
		} else {
			int n = 0; Held *who = nullptr;
			for (auto &h : held_) if (h.layer == dl && dl != 0 && c_.layers[dl].type == Layer::NORMAL) { n++; who = &h; }
			if (n > 1) ambiguous("swap with two holders");
			if (who) {
				who->a = std::make_shared<Action>(mk_layer(to));
				who->layer = to;
				off(dl); on(to);
				mods_for(-1, 0);
				stat["swap-held"]++;
			}
		}
		if (a->k == SWAPM) type_macro(dl, lower(a->macro));
		break;
	}
	case OVERLOAD:
		ov_start_ = t;
		on(a->layer);
		if (Held *h = find(code)) h->layer = a->layer;
		mods_for(-1, 0);
		break;
	case OVERLOADT: case OVERLOADT2:
		start_timed(code, sub(0), std::make_shared<Action>(mk_layer(a->layer)), dl, t + a->t1, a->k);
		break;
	case TIMEOUT:
		start_timed(code, sub(0), sub(1), dl, t + a->t1, TIMEOUT);
		break;
	case OVERLOADI: {
		bool idle = t - last_sym_ >= a->t1;
		stat[idle ? "idle" : "not-idle"]++;
		AP ch = sub(idle ? 1 : 0);
		if (Held *h = find(code)) h->a = ch;
		press(code, ch, dl, t);
		break;
	}
	case MACRO: case MACRO2: {
		consume_oneshots();
		auto ops = std::make_shared<std::vector<MacroOp>>(lower(a->macro));
		type_macro(dl, *ops);
		mac_ = ops; mac_dl_ = dl;
		int first = a->k == MACRO ? c_.o.macro_timeout : a->t1;
		mac_every_ = a->k == MACRO ? c_.o.macro_repeat_timeout : a->t2;
		mac_due_ = first ? t + first : 0;
		break;
	}
	case COMMAND:
		out_.push_back({Ev::CMD, wall_, 0, 0, a->cmd});
		consume_oneshots();
		mods_for(-1, 0);
		break;
	default: break;
	}
	last_code_ = code;
}

void Model::release(int code, AP a, int dl, long t)
{
	switch (a->k) {
	case KEY:
		set_key(a->code, false);
		mods_for(-1, 0);
		if (!a->mods || a->mods == SHIFT) last_sym_ = t;
		break;
	case LAYER: case LAYERM:
		off(a->layer);
		guard_off_ = last_code_ == code;
		mods_for(-1, 0);
		guard_off_ = false;
		break;
	case ONESHOT: case ONESHOTM:
		if (latch_.count(code)) {
			L[a->layer].oneshot++;
			stat["oneshot-tapped"]++;
			if (c_.o.oneshot_timeout) oneshot_due_ = t + c_.o.oneshot_timeout;
		} else {
			off(a->layer);
			mods_for(-1, 0);
			stat["oneshot-held"]++;
		}
		break;
	case OVERLOAD: {
		off(a->layer);
		mods_for(-1, 0);
		bool tap = last_code_ == code && (!c_.o.overload_tap_timeout || t - ov_start_ < c_.o.overload_tap_timeout);
		stat[tap ? "overload-tap" : "overload-hold"]++;
		if (tap && a->sub[0].k == MACRO) {
			// typed once; layer modifiers it took away return with the next key event
			stat["overload-macro"]++;
			consume_oneshots();
			type_macro(dl, lower(a->sub[0].macro));
			mods_for(dl, 0);
		} else if (tap) {
			AP sub = std::make_shared<Action>(a->sub[0]);
			if (held_.size() < 16) held_.push_back({code, sub, dl, 0});
			press(code, sub, dl, t);
			step(code, false, t);
		}
		break;
	}
	case SWAPM: {
		auto ops = lower(a->macro);
		if (ops.size() == 1 && ops[0].k == MacroOp::TAP) { set_key(ops[0].code, false); mods_for(-1, 0); }
		break;
	}
	default: break;
	}
}

// Keys reach this point with every chord and timed decision already taken.
void Model::core(int code, bool pressed, long t)
{
	if (oneshot_due_ && t >= oneshot_due_) { consume_oneshots(); mods_for(-1, 0); stat["oneshot-expired"]++; }
	if (mac_) {
		if (code) { mac_ = nullptr; mods_for(-1, 0); }
		else if (mac_due_ && t >= mac_due_) {
			auto ops = mac_;
			type_macro(mac_dl_, *ops);
			mac_due_ = mac_every_ ? t + mac_every_ : 0;
			stat["macro-repeat"]++;
		}
	}
	if (!code) return;
	if (pressed) {
		if (find(code)) { stat["dup-press"]++; return; }
		int dl = 0;
		AP a = lookup(code, dl);
		if (held_.size() >= 16) { stat["too-many"]++; return; }
		held_.push_back({code, a, dl, 0});
		press(code, a, dl, t);
	} else {
		if (code >= K_CHORD1 && code <= K_CHORDMAX) live_[code - K_CHORD1].ending = false;
		for (size_t i = 0; i < held_.size(); i++)
			if (held_[i].code == code) {
				Held h = held_[i];
				held_.erase(held_.begin() + i);
				release(code, h.a, h.dl, t);
				return;
			}
		stat["orphan-release"]++;
	}
}

bool Model::timed(int code, bool pressed, long t)
{
	if (!pend_.open) return false;
	if (oneshot_due_ && t >= oneshot_due_) ambiguous("oneshot expires while a timed key is undecided");
	bool in_queue = false;
	if (code) {
		for (auto &e : pend_.q) if (e.code == code) in_queue = true;
		if (!pressed && !in_queue && code != pend_.code) { stat["early-release-passes"]++; return false; }
		if (code == pend_.code && pressed) ambiguous("the undecided key pressed again");
		pend_.q.push_back({code, pressed, t});
		if (pend_.q.size() > 30) ambiguous("event flood while undecided");
	}
	AP act;
	bool waiting = chord_ == CH_WAIT || chord_ == CH_HOLD;      // keys struck since, which may yet form a chord
	if (t >= pend_.due && pend_.k == TIMEOUT && waiting && chq_[0].t < pend_.due) { act = pend_.tap; stat["interrupted-by-chord-key"]++; }
	else if (t >= pend_.due) { act = pend_.hold; stat["held-until-deadline"]++; }
	else if (code == pend_.code) { act = pend_.tap; stat["released-before-deadline"]++; }
	else if (code && pressed && pend_.k == TIMEOUT) { act = pend_.tap; stat["interrupted"]++; }
	else if (code && !pressed && in_queue && pend_.k == OVERLOADT2) { act = pend_.hold; stat["tap-inside"]++; }
	if (!act) return true;

	auto q = pend_.q;
	int who = pend_.code, dl = pend_.dl;
	pend_.open = false; pend_.q.clear();
	if (waiting) { q.insert(q.end(), chq_.begin(), chq_.end()); chord_ = CH_NONE; stat["chord-keys-redelivered"]++; }
	if (q.size() > 1) stat["flushed-keys"]++;
	Held *h = find(who);
	if (h) { h->a = act; h->dl = dl; h->layer = 0; }
	else held_.push_back({who, act, dl, 0});
	press(who, act, dl, t);
	run(q, 0);
	overdue(t);
	return true;
}

// How the presses in q match the chords of the active layers: 0 no, 1 partially, 2 exactly one way, 3 exactly but may go on.
int Model::match(const std::vector<In> &q, bool &)
{
	bool full = false, part = false;
	long seq = -2;
	for (size_t i = 0; i < L.size(); i++) {
		if (!L[i].count) continue;
		for (auto &ch : chords_[i]) {
			size_t n = 0; bool ok = true;
			for (auto &e : q) if (e.pressed) {
				if (std::find(ch.keys.begin(), ch.keys.end(), e.code) == ch.keys.end()) ok = false;
				n++;
			}
			if (!ok || !n) continue;
			if (n == ch.keys.size()) {
				if (L[i].seq >= seq) { seq = L[i].seq; ch_best_ = ch; ch_layer_ = (int)i; ch_match_ = true; full = true; }
			} else part = true;
		}
	}
	return full ? (part ? 3 : 2) : part ? 1 : 0;
}

void Model::resolve(bool with)
{
	chord_ = CH_RESOLVING;
	size_t off = 0;
	if (with) {
		int slot = -1;
		for (int i = 0; i < 3; i++) if (!live_[i].on && !live_[i].ending) { slot = i; break; }
		if (slot >= 0) {
			live_[slot].on = true; live_[slot].left = ch_best_.keys; live_[slot].a = ch_best_.a; live_[slot].dl = ch_layer_;
			off = ch_best_.keys.size();
			stat["chord-fired"]++;
			step(K_CHORD1 + slot, true, ch_last_);
		} else { stat["chord-slots-full"]++; }
	} else if (chq_.size()) stat["chord-aborted"]++;
	auto q = chq_;
	run(q, off);
	chord_ = CH_NONE;
}

bool Model::chord(int code, bool pressed, long t)
{
	// is the press this release belongs to still waiting, or was it delivered on its own?
	auto waits = [&](const std::vector<In> &q) { for (size_t i = q.size(); i--;) if (q[i].code == code) return q[i].pressed != 0; return false; };
	bool own = find(code) || ((chord_ == CH_WAIT || chord_ == CH_HOLD) && waits(chq_)) || (pend_.open && waits(pend_.q));
	if (code && !pressed && !own)
		for (int i = 0; i < 3; i++) {
			if (!live_[i].on) continue;
			auto it = std::find(live_[i].left.begin(), live_[i].left.end(), code);
			if (it == live_[i].left.end()) continue;
			live_[i].left.erase(it);
			if (live_[i].left.empty()) { live_[i].on = false; live_[i].ending = true; step(K_CHORD1 + i, false, t); }
			return true;
		}
	bool dummy;
	int gap = c_.o.chord_timeout, hold = c_.o.chord_hold_timeout;
	auto fire = [&] { resolve(ch_match_); overdue(t); };
	auto judge = [&](int r) {
		if (r == 1 || r == 3) { ch_last_ = t; chord_ = CH_WAIT; return true; }
		ch_last_ = t;
		if (hold) chord_ = CH_HOLD; else fire();
		return true;
	};
	switch (chord_) {
	case CH_RESOLVING: return false;
	case CH_NONE: {
		chq_.clear(); ch_match_ = false;
		if (!code) return false;
		chq_.push_back({code, pressed, t});
		int r = match(chq_, dummy);
		if (!r) return false;
		return judge(r);
	}
	case CH_WAIT: {
		if (!code) {
			if (t - ch_last_ < gap) return false;
			if (ch_match_ && hold > gap) { chord_ = CH_HOLD; return false; }
			fire();
			return true;
		}
		chq_.push_back({code, pressed, t});
		if (!pressed) { ch_match_ = false; fire(); return true; }
		int r = match(chq_, dummy);
		if (!r) { ch_match_ = false; fire(); return true; }
		return judge(r);
	}
	case CH_HOLD:
		if (!code) {
			if (t - ch_last_ < hold) return false;
			fire();
			return true;
		}
		chq_.push_back({code, pressed, t});
		if (chq_.size() > 30) ambiguous("event flood while a chord is held");
		if (!pressed && std::find(ch_best_.keys.begin(), ch_best_.keys.end(), code) != ch_best_.keys.end()) { ch_match_ = false; fire(); }
		return true;
	}
	return false;
}

void Model::step(int code, bool pressed, long t)
{
	if (!chord(code, pressed, t) && !timed(code, pressed, t)) core(code, pressed, t);
	now_ = t;
	long d = deadline();
	if (d && d <= now_) stat["edge"]++;
}

// Deadlines of keys that had to wait take effect as soon as the keys are delivered.
void Model::overdue(long t)
{
	long d = deadline();
	if (d && d < t) { stat["overdue"]++; step(0, false, t); }
}

long Model::deadline() const
{
	long d = 0;
	auto min = [&](long x) { if (x && (!d || x < d)) d = x; };
	if (chord_ == CH_WAIT) min(ch_last_ + c_.o.chord_timeout);
	if (chord_ == CH_HOLD) min(ch_last_ + c_.o.chord_hold_timeout);
	if (pend_.open) min(pend_.due);
	else {
		if (mac_) min(mac_due_);
		min(oneshot_due_);
	}
	return d;
}

// A deadline that is reached at the very moment it is set gives way to the events which follow immediately.
long Model::next_due() const
{
	long d = deadline();
	return d && d <= now_ ? now_ + 2 : d;
}

void Model::run(const std::vector<In> &evs, size_t from)
{
	for (size_t i = from; i < evs.size(); i++) {
		if (i > from)
			for (long d; (d = next_due()) && d <= evs[i].t;) step(0, false, d);
		step(evs[i].code, evs[i].pressed, evs[i].t);
	}
}

void Model::advance(long t)
{
	for (long d; (d = next_due()) && d <= t && !ambiguous();) {
		if (d > wall_) wall_ = d;
		fired.push_back(wall_);
		step(0, false, wall_);
	}
	wall_ = t;
}

void Model::key(int code, bool pressed, long t)
{
	advance(t);
	if (code && phys_[code] == pressed) { stat["redundant"]++; code = 0; }
	if (code) phys_[code] = pressed;
	step(code, code && pressed, t);
}

} // namespace spec
