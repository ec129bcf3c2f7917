// C42: what pointing devices keyd does not handle do to pending keys.
#include "world.h"
#include <algorithm>
#include <memory>

using namespace spec;
using namespace world;
using ks::Dev;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;

namespace {

Profile prof_pending()
{
	Profile p = prof_daemon();
	for (Kind x : {OVERLOAD, OVERLOADT, OVERLOADT2, TIMEOUT, OVERLOADI, LETTERMOD, ONESHOT, ONESHOTM, SWAP, MACRO}) p.w[x] = 14;
	p.w2 = p.w;
	p.p_oneshot_timeout = 25;
	p.times = {20, 50, 100, 200, 400};
	p.pool_lo = 4; p.pool_hi = 6;
	p.max_events = 16;
	p.max_layers = 3;
	p.p_macro_group = 0;
	return p;
}

enum Kind_ { MOUSE, TABLET, COMBO, PLAIN, BUTTONS, NKIND };

struct Other {                                  // a device keyd does not handle
	int kind;
	Dev *d;
	std::set<int> down;
};

Dev other(int kind, int n)
{
	Dev d = kind == MOUSE ? mouse(sfmt("mouse%d", n), 0x50 + n) : keyboard(sfmt("other%d", n), 0x50 + n);
	switch (kind) {
	case TABLET:
		d.keys = {BTN_LEFT, BTN_RIGHT, BTN_TOUCH};
		d.abs = {ABS_X, ABS_Y};
		d.range[ABS_X] = d.range[ABS_Y] = {0, 1000};
		break;
	case COMBO: d.rel = {REL_X, REL_Y, REL_WHEEL, REL_HWHEEL}; for (int i = BTN_LEFT; i <= BTN_TASK; i++) d.keys.insert(i); break;
	case BUTTONS: d.keys = {BTN_LEFT, BTN_SIDE, KEY_VOLUMEUP}; d.rel = {REL_X, REL_Y}; break;
	}
	return d;
}

struct Unit {
	Case k;
	std::string text;
	std::unique_ptr<Model> m, idle;         // idle: the same without the pointing devices
	Dev *kb = nullptr, *ms = nullptr;
	size_t seen = 0, iseen = 0;
};

void c42(Ctx &c)
{
	enter();
	Src &s = c.src;
	Profile p = prof_pending();
	int nu = 1 + s.weighted({50, 40, 10});
	std::vector<Unit> u(nu);
	// keys of handled keyboards may press mouse buttons: keyd's own devices are no foreign mice
	bool buttons = s.chance(25);
	for (int i = 0; i < nu; i++) {
		u[i].k = gen_case(s, p);
		for (int x : u[i].k.pool) if (linux_codes(x).empty()) c.discard("no such key on real devices");
		if (buttons) {
			auto &l = u[i].k.cfg.layers[0];
			int key = u[i].k.pool[s.draw(u[i].k.pool.size())];
			bool taken = false;
			for (auto &b : l.binds) if (std::find(b.keys.begin(), b.keys.end(), key) != b.keys.end()) taken = true;
			if (!taken) { Binding b; b.keys = {key}; b.a.code = s.chance(50) ? 249 : 251; l.binds.push_back(b); }
		}
		u[i].text = render(u[i].k.cfg);
		if (!lines_ok(u[i].text)) c.discard("line too long");
	}
	int no = 1 + s.draw(3);
	std::vector<Other> o;
	for (int i = 0; i < no; i++) o.push_back({(int)s.weighted({50, 15, 15, 12, 8}), nullptr, {}});
	bool wild = s.chance(30);
	std::vector<std::function<void()>> plugs;
	for (int i = 0; i < nu; i++) {
		std::string ids = sfmt("1234:%04x\n1234:%04x\n", 0x10 + i, 0x20 + i);
		if (wild && i == 0) { ids += "*\n"; for (int j = 0; j < no; j++) if (o[j].kind != MOUSE && o[j].kind != TABLET) ids += sfmt("-1234:%04x\n", 0x50 + j); }
		conf(sfmt("c%d.conf", i), with_ids(u[i].text, ids));
		c.docf("=== configuration %d\n%s\n", i, u[i].text.c_str());
		u[i].m = std::make_unique<Model>(u[i].k.cfg);
		u[i].idle = std::make_unique<Model>(u[i].k.cfg);
		plugs.push_back([&u, i] { u[i].kb = ks::plug(keyboard(sfmt("kbd%d", i), 0x10 + i)); });
		if (s.chance(40)) plugs.push_back([&u, i] { u[i].ms = ks::plug(mouse(sfmt("handled%d", i), 0x20 + i)); });
	}
	for (int i = 0; i < no; i++) plugs.push_back([&o, i] { o[i].d = ks::plug(other(o[i].kind, i)); });
	for (size_t i = plugs.size(); i > 1; i--) std::swap(plugs[i - 1], plugs[s.draw(i)]);
	for (auto &f : plugs) f();

	std::vector<std::vector<Ev>> all(nu);           // what each configuration types
	std::vector<std::vector<Ev>> base(nu);
	int active = -1, hits = 0;
	long lt = -1; int sub = 0;
	auto slot = [&](long t) { if (t != lt) { lt = t; sub = 0; } return us(t) + 10 * sub++; };
	auto strike = [&](int code, int v, long t, int i) { u[i].m->key(code, v, t); u[i].idle->key(code, v, t); };
	// something happens on a device keyd does not handle
	auto foreign = [&](long t) {
		Other &x = o[s.draw(no)];
		Dev *d = x.d;
		int n = 0;                              // keystrokes it counts as
		static const char *names[] = {"mouse", "tablet", "keyboard with a pointer", "keyboard", "buttons"};
		int what = s.weighted({50, 25, 15, 10});
		std::string doc;
		if (what == 0 || (what == 1 && x.kind == TABLET)) {     // a button
			std::vector<int> b;
			if (x.kind == PLAIN) b = {KEY_Q, KEY_LEFTSHIFT};
			else if (x.kind == COMBO) b = {BTN_LEFT, KEY_Q, KEY_LEFTCTRL};
			else if (x.kind == BUTTONS) b = {BTN_LEFT, BTN_SIDE, KEY_VOLUMEUP};
			else b = {BTN_LEFT, BTN_RIGHT};
			int code = b[s.draw(b.size())];
			bool both = s.chance(50), down = !x.down.count(code);
			long at = slot(t);
			ks::at(at, [d, code, down] { ks::key(d, code, down); });
			n = 1;
			if (down) x.down.insert(code); else x.down.erase(code);
			if (both && down) { ks::at(at + 3, [d, code] { ks::key(d, code, 0); }); n = 2; x.down.erase(code); }
			doc = n == 2 ? "clicked" : down ? "button down" : "button up";
			if (x.kind == PLAIN) n = 0;
		} else if (what == 1) {
			if (x.kind == PLAIN || x.kind == BUTTONS) return;
			int val = s.chance(80) ? 1 : 3; if (s.chance(50)) val = -val;
			int code = s.chance(70) ? REL_WHEEL : REL_HWHEEL;
			ks::at(slot(t), [d, code, val] { ks::input(d, EV_REL, code, val); ks::syn(d); });
			n = 1; doc = "wheel";
		} else if (what == 2) {
			if (x.kind == PLAIN) return;
			int val = 1 + s.draw(20);
			bool tb = x.kind == TABLET;
			ks::at(slot(t), [d, val, tb] { ks::input(d, tb ? EV_ABS : EV_REL, tb ? (int)ABS_X : (int)REL_X, val); ks::input(d, tb ? EV_ABS : EV_REL, tb ? (int)ABS_Y : (int)REL_Y, val); ks::syn(d); });
			doc = "motion";
		} else {                                // things of no meaning
			bool rep = x.kind == COMBO || x.kind == PLAIN;
			if (!rep && x.kind != TABLET) return;
			ks::at(slot(t), [d, rep] { if (rep) { if (d->down.size()) ks::key(d, *d->down.begin(), 2); } else { ks::key(d, BTN_TOUCH, 1); ks::key(d, BTN_TOUCH, 0); } });
			doc = rep ? "repeat" : "touch";
		}
		c.docf("%ld: %s %d: %s\n", t, names[x.kind], (int)(&x - &o[0]), doc.c_str());
		for (int i = 0; i < n && active >= 0; i++) {
			u[active].m->key(K_EXTMOUSE, 1, t); u[active].m->key(K_EXTMOUSE, 0, t);
			hits++;
		}
	};
	auto collect = [&] {
		for (int i = 0; i < nu; i++) {
			all[i].insert(all[i].end(), u[i].m->trace().begin() + u[i].seen, u[i].m->trace().end());
			u[i].seen = u[i].m->trace().size();
			base[i].insert(base[i].end(), u[i].idle->trace().begin() + u[i].iseen, u[i].idle->trace().end());
			u[i].iseen = u[i].idle->trace().size();
		}
	};
	auto settle = [&](long t) { for (int i = 0; i < nu; i++) { u[i].m->advance(t); u[i].idle->advance(t); if (u[i].m->ambiguous()) c.discard("outside the specified domain: " + u[i].m->why()); } };
	long T = 70000;
	int phases = nu + s.draw(4);
	for (int ph = 0; ph < phases; ph++) {
		int i = ph < nu ? ph : s.draw(nu);
		if (ph && s.chance(12)) {               // a reload in a quiet moment
			settle(T);
			bool quiet = true;
			for (auto &x : u) if (!x.m->down().empty()) quiet = false;
			if (quiet) {
				c.docf("%ld: reload\n", T);
				collect();
				ks::at(us(T) + 500, [] { send_msg(ks::connect(), IPC_RELOAD_, ""); });
				for (auto &x : u) { x.m = std::make_unique<Model>(x.k.cfg); x.idle = std::make_unique<Model>(x.k.cfg); x.seen = x.iseen = 0; }
				active = -1;
				T += 50;
			}
		}
		auto h = gen_history(s, p, u[i].k);
		long d = T + 20 - h[0].t;
		for (auto &e : h) e.t += d;
		c.docf("keyboard %d\n", i);
		for (int n = s.draw(3), q = 0; q < n; q++) foreign(T + 5 + 2 * q);
		for (size_t q = 0; q < h.size(); q++) {
			auto &e = h[q];
			strike(e.code, e.pressed, e.t, i);
			active = i;
			c.docf("%ld: %s %s\n", e.t, kname(e.code).c_str(), e.pressed ? "down" : "up");
			int lc = linux_codes(e.code)[0], v = e.pressed;
			Dev *dv = u[i].kb;
			ks::at(slot(e.t), [dv, lc, v] { ks::key(dv, lc, v); });
			// the pointer of another configuration moves
			if (s.chance(6)) {
				int j = s.draw(nu);
				if (Dev *ms = u[j].ms) { ks::at(slot(e.t), [ms] { ks::input(ms, EV_REL, REL_X, 3); ks::syn(ms); }); active = j; c.docf("%ld: handled mouse %d moves\n", e.t, j); }
			}
			if (s.chance(30)) {
				long gap = q + 1 < h.size() ? h[q + 1].t - e.t : 400;
				long t = e.t + (gap > 1 && s.chance(70) ? (long)s.draw((unsigned)std::min(gap, 500L)) : 0);
				foreign(t);
			}
		}
		T = h.back().t + (s.chance(70) ? 3000 : 500);
		settle(T - 1);
	}
	for (int i = 0; i < 1 + (int)s.draw(2); i++) foreign(T);
	T += 3000;
	settle(T);
	collect();
	// two configurations typing within one millisecond: the order is not determined here
	std::vector<Ev> merged = all[0];
	for (int i = 1; i < nu; i++) {
		for (auto &a : merged) for (auto &b : all[i]) if (a.t == b.t) c.discard("two keyboards in one millisecond");
		std::vector<Ev> n;
		std::merge(merged.begin(), merged.end(), all[i].begin(), all[i].end(), std::back_inserter(n), [](const Ev &a, const Ev &b) { return a.t < b.t; });
		merged = n;
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(T)));
	auto got = observed();
	got.erase(std::remove_if(got.begin(), got.end(), [](const Exp &e) { return e.e.type == EV_REL && (e.e.code == REL_X || e.e.code == REL_Y); }), got.end());
	std::string df = diff(expect(merged), got);
	if (!df.empty()) c.fail("events", df);
	if (!ks::refused.empty()) c.fail("refused", ks::show(ks::refused[0]));
	bool differs = false;
	for (int i = 0; i < nu; i++) {
		auto a = expect(all[i]), b = expect(base[i]);
		if (!diff(a, b).empty()) differs = true;
	}
	if (nu > 1) c.label("several configurations");
	if (hits) c.label("clicks which count");
	c.nontrivial(differs);
}

} // namespace
static pbt::Reg r42({"C42", "settle", "1-3 configurations full of pending actions and chords, on keyboards and mice of their own; 1-4 devices keyd does not handle (mice, tablets, keyboards with a pointer, plain keyboards) clicking, turning wheels and moving in between, sometimes a reload; non-trivial: the clicks change what is typed", 12000, 400000, true, c42, nullptr});
