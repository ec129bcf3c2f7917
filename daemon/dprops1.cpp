// C21, C22, C26: device events through the whole daemon.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <linux/input.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

// A profile whose traces the model gives to the millisecond in the daemon too: no typing delays.
Profile prof_daemon()
{
	Profile p = prof_all();
	p.p_macro_delay = 0; p.p_macro_opts = 0;
	p.max_layers = 4; p.max_events = 30; p.depth = 2;
	p.chords = 1;
	return p;
}

// Plays a history on several devices sharing one configuration: which device strikes which key.
struct Play {
	std::vector<Dev *> devs;
	std::map<std::pair<int, int>, std::pair<int, int>> held;      // key -> device, code
	std::map<int, std::pair<int, int>> on;
	long last_ms = -1; int sub = 0;
	long slot(long ms) { if (ms != last_ms) { last_ms = ms; sub = 0; } return us(ms) + 7 * sub++; }
};

// ---------------------------------------------------------------- C21
static void c21(Ctx &c)
{
	enter();
	Profile p = prof_daemon();
	p.p_odd_codes = 40;
	Case k = gen_case(c.src, p);
	// any physical key may occur, also those without a binding
	for (int i = c.src.draw(4); i > 0; i--) {
		const KeyRow &r = keytab()[c.src.draw(keytab().size())];
		if (linux_codes(r.code).size() && !is_mod_code(r.code) && std::find(k.pool.begin(), k.pool.end(), r.code) == k.pool.end()) k.pool.push_back(r.code);
	}
	for (auto it = k.pool.begin(); it != k.pool.end();) it = linux_codes(*it).empty() ? k.pool.erase(it) : it + 1;
	if (k.pool.empty()) c.discard("no key of the pool exists on real devices");
	std::string text = render(k.cfg);
	if (!lines_ok(text)) c.discard("line too long");
	auto h = gen_history(c.src, p, k);
	Model m(k.cfg);
	for (auto &e : h) m.key(e.code, e.pressed, e.t);
	long end = h.back().t + 3000;
	m.advance(end);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());

	conf("a.conf", with_ids(text, "1234\n"));
	int n = 1 + c.src.draw(3);
	std::vector<Dev *> devs;
	for (int i = 0; i < n; i++) { Dev d = keyboard(sfmt("kbd%d", i), 1 + i); for (int r : {REL_X, 11}) if (c.src.chance(30)) d.rel.insert(r); devs.push_back(ks::plug(d)); }
	Dev other = keyboard("other", 9); other.vendor = 0x4321;        // not managed
	Dev *od = ks::plug(other);
	c.doc(text + "---\n" + show_history(h) + sfmt("on %d devices\n", n));

	std::map<int, std::pair<Dev *, int>> on;        // keyd code -> device and its own code
	long last = -1; int sub = 0, noise = 0, batched = 0;
	long prev_at = 0; Dev *prev_dev = nullptr;
	for (auto &e : h) {
		if (e.t != last) { last = e.t; sub = 0; }
		long when = us(e.t) + 10 * sub++;
		Dev *d; int lc;
		if (e.pressed) {
			d = devs[c.src.draw(n)];
			const auto &lcs = linux_codes(e.code);
			lc = lcs[c.src.draw(lcs.size())];
			on[e.code] = {d, lc};
		} else { d = on[e.code].first; lc = on[e.code].second; on.erase(e.code); }
		// events of one device in the same millisecond may be read in one go
		if (prev_dev == d && prev_at / 1000 == when / 1000 && c.src.chance(50)) { when = prev_at; batched++; }
		prev_dev = d; prev_at = when;
		int v = e.pressed;
		ks::at(when, [d, lc, v] { ks::input(d, EV_MSC, 4, lc); ks::key(d, lc, v); });
		if (c.src.chance(25)) {
			noise++;
			switch (c.src.draw(7)) {
			case 0: {
				// a key repeats until the next event (the last one pressed, on a real keyboard)
				size_t nx = &e - &h[0] + 1;
				long till = nx < h.size() ? us(h[nx].t) : when + 600000, step = c.src.chance(50) ? 33000 : 1000 * c.src.range(5, 60);
				Dev *rd = d; int rc = lc;
				if (!e.pressed && on.size()) { rd = on.begin()->second.first; rc = on.begin()->second.second; }
				int reps = 0;
				for (long q = when + (c.src.chance(50) ? 1000 : step); q < till && reps < 20; q += step, reps++) ks::at(q, [rd, rc] { ks::key(rd, rc, 2); });
				ks::at(when + 3, [rd, rc] { ks::key(rd, rc, 2); });
				c.docf("%ld: autorepeat of %d\n", e.t, rc); break; }
			case 8: ks::at(when + 3, [d, lc] { ks::key(d, lc, 2); }); c.docf("%ld: autorepeat of %d\n", e.t, lc); break;
			case 1: { static const int bad[] = {0x161, 0x14a, 0x145, 0x140, 0x14f, 0x2c0, 177, 178, 222, 195, 196, 199, 249, 253, 254, 255, 0x1d1 + 20, 0x220, 0x120, 0x130};
				int b = bad[c.src.draw(sizeof bad / sizeof *bad)];
				if (from_linux(b)) break;
				c.docf("%ld: unknown key %d\n", e.t, b);
				ks::at(when + 3, [d, b] { ks::key(d, b, 1); ks::key(d, b, 0); }); break; }
			case 2: { int b = 1 + c.src.draw(250); c.docf("%ld: the other device strikes %d\n", e.t, b); ks::at(when + 3, [od, b] { ks::key(od, b, 1); ks::key(od, b, 0); }); break; }
			case 3: ks::at(when + 3, [d] { ks::input(d, EV_REL, 11, 120); ks::syn(d); }); break;
			case 4: { int l = c.src.draw(11), v = c.src.draw(2); ks::at(when + 3, [d, l, v] { ks::input(d, EV_LED, l, v); ks::syn(d); }); break; }
			case 5: ks::at(when + 3, [d] { ks::syn(d); }); break;
			case 6: ks::at(when + 3, [d] { ks::input(d, EV_MSC, 3, 5); ks::syn(d); }); break;
			}
		}
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	auto got = observed();
	std::string df = diff(expect(m.trace()), got);
	if (!df.empty()) c.fail("events", df);
	if (!ks::refused.empty()) c.fail("unknown-code", "the virtual device cannot send " + ks::show(ks::refused[0]));
	std::string s = sync_errors();
	if (!s.empty()) c.fail("sync", s);
	if (ks::keyd_has(od, true)) c.fail("grabbed", "a device which is not listed was grabbed");
	bool ptr = false, odd = false;
	for (auto &e : got) { ptr |= e.e.dev == ks::VPTR; odd |= e.e.code > 255; }
	if (ptr) c.label("pointer output");
	if (batched) c.label("batched");
	if (noise) c.label("noise");
	if (odd) c.label("code above 255");
	c.nontrivial(got.size() >= 6);
}
static pbt::Reg r21({"C21", "through", "random configurations; histories on 1-3 grabbed devices with autorepeat, unknown codes, LED and scan-code events in between, and an unmanaged device; non-trivial: at least 6 output events", 12000, 400000, true, c21, nullptr});

// every Linux key code, alone
static pbt::Reg r21b({"C21", "every-code", "every Linux key code pressed on a device with an empty configuration; non-trivial: always", 0, 0, true,
	[](Ctx &c) {
		enter();
		int lc = 1 + c.src.draw(KEY_MAX - 1);
		conf("a.conf", "[ids]\n1234\n");
		Dev *d = ks::plug(keyboard());
		c.docf("key code %d\n", lc);
		c.nontrivial();
		ks::at(us(1000), [d, lc] { ks::key(d, lc, 1); });
		ks::at(us(1300), [d, lc] { ks::key(d, lc, 2); });
		ks::at(us(1500), [d, lc] { ks::key(d, lc, 0); });
		ks::free_naps = true;
		must_finish(c, ks::run(us(3000)));
		std::vector<Exp> want;
		if (int k = from_linux(lc)) {
			for (auto &l : to_linux(k, 1)) want.push_back({1000, l});
			for (auto &l : to_linux(k, 0)) want.push_back({1500, l});
			c.label("known");
		} else c.label("unknown");
		// modifiers are guarded when struck alone only inside layers; an empty configuration passes all through
		auto got = observed();
		if (is_mod_code(from_linux(lc))) {
			std::vector<Exp> f;
			for (auto &e : got) if (e.e.code != KEY_LEFTCTRL || lc == KEY_LEFTCTRL) f.push_back(e);
			if (got.size() != f.size()) { got = f; }
			// the right-hand keys act through the layers of the same name
		}
		if (from_linux(lc) && !is_mod_code(from_linux(lc)) && lc != 54 && lc != 97 && lc != 126) {
			std::string df = diff(want, got);
			if (!df.empty()) c.fail("events", df);
		} else if (!from_linux(lc) && !got.empty()) c.fail("invented", show(got[0]));
		else if (from_linux(lc) && got.size() < 2) c.fail("lost", "no event");
		if (!ks::refused.empty()) c.fail("unknown-code", "the virtual device cannot send " + ks::show(ks::refused[0]));
		std::string s = sync_errors();
		if (!s.empty()) c.fail("sync", s);
	}, [] { return (long)KEY_MAX - 1; }});

// ---------------------------------------------------------------- C26
// The configuration's deadlines are met to the millisecond while unrelated things keep happening.
static Profile prof_timers()
{
	Profile p = prof_daemon();
	for (Kind x : {OVERLOADT, OVERLOADT2, TIMEOUT, OVERLOADI, LETTERMOD, ONESHOT, MACRO, MACRO2}) p.w[x] = 12;
	p.w2 = p.w;
	p.p_oneshot_timeout = 50;
	p.times = {20, 50, 100, 200, 400};
	p.pool_lo = 4; p.pool_hi = 6;
	p.max_events = 16;
	p.p_macro_group = 0;
	p.p_odd_codes = 0;
	return p;
}

struct Unit { Case k; std::vector<In> h; std::string text; Dev *kbd = nullptr, *ms = nullptr; };

void send_msg(ks::Conn *c, int type, const std::string &data)
{
	struct { int type; uint32_t timeout; char data[4096]; size_t sz; } m;
	memset(&m, 0, sizeof m);
	m.type = type;
	memcpy(m.data, data.data(), std::min(data.size(), sizeof m.data));
	m.sz = data.size();
	ks::send(c, std::string((char *)&m, sizeof m));
}

static void c26(Ctx &c)
{
	enter();
	int nu = c.src.chance(45) ? 2 : 1;
	std::vector<Unit> u(nu);
	long end = 0, first = 1000000000;
	for (int i = 0; i < nu; i++) {
		Profile p = prof_timers();
		u[i].k = gen_case(c.src, p);
		for (int &x : u[i].k.pool) if (linux_codes(x).empty()) c.discard("no such key on real devices");
		u[i].text = render(u[i].k.cfg);
		if (!lines_ok(u[i].text)) c.discard("line too long");
		u[i].h = gen_history(c.src, p, u[i].k);
		end = std::max(end, u[i].h.back().t);
		first = std::min(first, u[i].h[0].t);
		c.doc(u[i].text + "---\n" + show_history(u[i].h));
	}
	// a pause, in which keyd may be kept from a deadline
	long pause = -1;
	if (c.src.chance(25)) {
		const Unit &x = u[c.src.draw(nu)];
		pause = x.h[c.src.draw(x.h.size())].t;
		for (auto &y : u) for (auto &e : y.h) if (e.t > pause) e.t += 3000;
		end += 3000;
		c.docf("(events after %ld come 3000 ms later)\n", pause);
	}
	end += 3000;
	int frac = c.src.draw(1000);
	for (int i = 0; i < nu; i++) {
		conf(sfmt("c%d.conf", i), with_ids(u[i].text, sfmt("1234:%04x\n1234:%04x\n", 0x10 + i, 0x20 + i)));
		u[i].kbd = ks::plug(keyboard(sfmt("kbd%d", i), 0x10 + i));
		u[i].ms = ks::plug(mouse(sfmt("mouse%d", i), 0x20 + i));
	}
	Dev *stray_ms = nullptr, *stray_kb = nullptr;
	if (c.src.chance(50)) { Dev d = mouse("stray mouse", 0x30); d.vendor = 0x99; stray_ms = ks::plug(d); }
	if (c.src.chance(50)) { Dev d = keyboard("stray keyboard", 0x31); d.vendor = 0x99; stray_kb = ks::plug(d); }

	// 0: key of unit a; 1..: noise.  All within a millisecond keep their order.
	struct Act { long t; int kind, unit, idx; };
	std::vector<Act> acts;
	for (int i = 0; i < nu; i++) for (size_t j = 0; j < u[i].h.size(); j++) acts.push_back({u[i].h[j].t, 0, i, (int)j});
	int noise = c.src.range(0, 60);
	int mode = c.src.draw(3);
	for (int i = 0; i < noise; i++) {
		long t;
		const Unit &x = u[c.src.draw(nu)];
		if (mode == 0) t = first - 50 + c.src.draw(end - first);
		else {
			// near the keys' deadlines
			const In &e = x.h[c.src.draw(x.h.size())];
			int th = x.k.thresholds.empty() ? 50 : x.k.thresholds[c.src.draw(x.k.thresholds.size())];
			t = e.t + th + c.src.range(-3, 3);
			if (mode == 2) t = e.t + c.src.draw(th + 2);
		}
		acts.push_back({t, 1 + (int)c.src.draw(9), (int)c.src.draw(nu), 0});
	}
	std::stable_sort(acts.begin(), acts.end(), [](const Act &a, const Act &b) { return a.t < b.t; });

	std::vector<std::unique_ptr<Model>> m;
	for (auto &x : u) m.emplace_back(new Model(x.k.cfg));
	long last = -1; int sub = 0, plugged = 0;
	std::string desc;
	for (auto &a : acts) {
		if (a.t != last) { last = a.t; sub = 0; }
		// times of day have a fraction of a millisecond; it must not matter
		long when = us(a.t) + std::min(999, frac + sub * 2);
		sub++;
		Dev *kd = u[a.unit].kbd, *md = u[a.unit].ms;
		switch (a.kind) {
		case 0: {
			const In &e = u[a.unit].h[a.idx];
			m[a.unit]->key(e.code, e.pressed, e.t);
			int lc = linux_codes(e.code)[0], v = e.pressed;
			ks::at(when, [kd, lc, v] { ks::key(kd, lc, v); });
			break; }
		case 1: case 2: { int d = 1 + c.src.draw(20); ks::at(when, [md, d] { ks::input(md, EV_REL, REL_X, d); ks::syn(md); }); desc += sfmt("%ld: mouse %d moves\n", a.t, a.unit); break; }
		case 3: if (stray_ms) { ks::at(when, [stray_ms] { ks::input(stray_ms, EV_REL, REL_Y, 1); ks::syn(stray_ms); }); desc += sfmt("%ld: stray mouse moves\n", a.t); } break;
		case 4: if (stray_kb) { ks::at(when, [stray_kb] { ks::key(stray_kb, KEY_Z, 1); ks::key(stray_kb, KEY_Z, 0); }); desc += sfmt("%ld: stray keyboard\n", a.t); } break;
		case 5: { int l = c.src.draw(3), v = c.src.draw(2); ks::at(when, [l, v] { ks::system_led(l, v); }); desc += sfmt("%ld: system LED\n", a.t); break; }
		case 6: { ks::at(when, [] { ks::Conn *k = ks::connect(); send_msg(k, 2, "nosuchkey = a"); }); desc += sfmt("%ld: client\n", a.t); break; }
		case 7: if (plugged++ < 8) { ks::at(when, [plugged] { ks::Dev d = keyboard("late", 0x40 + plugged); d.vendor = 0x99; ks::plug(d); }); desc += sfmt("%ld: hotplug\n", a.t); } break;
		case 8: { ks::at(when, [kd] { ks::input(kd, EV_MSC, 4, 1); ks::syn(kd); }); desc += sfmt("%ld: scan code on keyboard %d\n", a.t, a.unit); break; }
		case 9: { int l = c.src.draw(3), v = c.src.draw(2); ks::at(when, [kd, l, v] { ks::input(kd, EV_LED, l, v); ks::syn(kd); }); desc += sfmt("%ld: LED event on keyboard %d\n", a.t, a.unit); break; }
		}
	}
	c.doc(desc);
	for (auto &x : m) { x->advance(end); if (x->ambiguous()) c.discard("outside the specified domain: " + x->why()); }
	// clients which keep keyd busy while nothing else is due
	int stalls = 0;
	for (int i = c.src.draw(4); i > 0; i--) {
		const Unit &x = u[c.src.draw(nu)];
		long t = x.h[c.src.draw(x.h.size())].t + 1 + c.src.draw(60), d = 1 + c.src.draw(150);
		bool clear = true;
		auto busy = [&](long e) { if (e >= t - 1 && e <= t + d + 2) clear = false; };
		for (int q = 0; q < nu; q++) { for (auto &e : u[q].h) busy(e.t); for (long e : m[q]->fired) busy(e); }
		for (auto &a : acts) if (a.kind == 6) busy(a.t);        // another client would wait for this one
		if (!clear) continue;
		c.docf("%ld: a client takes %ld ms to send its request\n", t, d);
		ks::at(us(t), [d] { ks::Conn *k = ks::connect(); ks::send(k, "incomplete"); ks::at(ks::now() + 1000 * d, [k] { ks::close_client(k); }); });
		stalls++;
	}
	// a client which keeps it busy when something is due: it is late, but takes place
	long late_f = -1, late_at = -1; int late_u = 0;
	if (pause >= 0 && !stalls) {
		for (int q = 0; q < nu; q++) for (long f : m[q]->fired) if (f > pause + 2 && f < pause + 1600 && (late_f < 0 || f < late_f)) late_f = f, late_u = q;
		if (late_f >= 0) {
			long t = late_f - 1 - (long)c.src.draw(std::min(100L, late_f - pause - 2)), d = late_f - t + 1 + c.src.draw(60);
			bool clear = true;
			// (idle times are taken from when it really happens)
			for (int q = 0; q < nu; q++) for (const char *x : {"overloadi(", "lettermod("}) if (render(u[q].k.cfg).find(x) != std::string::npos) clear = false;
			auto busy = [&](long e) { if (e >= t - 1 && e <= t + d + 2) clear = false; };
			int n = 0;
			for (int q = 0; q < nu; q++) { for (auto &e : u[q].h) busy(e.t); for (long f : m[q]->fired) if (f == late_f) n++; else busy(f); }
			for (auto &a : acts) if (a.kind == 6) busy(a.t);
			// nothing else must depend on when it takes place
			Model r(u[late_u].k.cfg);
			for (auto &e : u[late_u].h) if (e.t <= pause) r.key(e.code, e.pressed, e.t);
			r.advance(late_f);
			if (clear && n == 1 && !r.waiting()) {
				late_at = t + d;
				c.docf("%ld: a client takes %ld ms to send its request, something is due at %ld\n", t, d, late_f);
				ks::at(us(t), [d] { ks::Conn *k = ks::connect(); ks::send(k, "incomplete"); ks::at(ks::now() + 1000 * d, [k] { ks::close_client(k); }); });
				c.label("late");
			}
		}
	}
	bool quiet = true;
	for (auto &x : m) quiet &= !x->waiting();
	static long polls; polls = 0;
	long over = std::max(end, acts.back().t) + 500;
	ks::at(us(over), [] { polls = ks::polls; });
	ks::free_naps = true;
	must_finish(c, ks::run(us(quiet ? over + 10000 : end)));
	if (quiet && ks::polls - polls > 8) c.failf("awake", "in 10 s in which nothing happens keyd wakes up %ld times", ks::polls - polls);
	if (stalls) c.label("busy with a client");
	if (quiet) c.label("idle in the end");
	std::vector<Exp> got;
	for (auto &e : observed(true)) if (!(e.e.dev == ks::VPTR && e.e.type == EV_REL && (e.e.code == REL_X || e.e.code == REL_Y))) got.push_back(e);
	auto wanted = [&](int q) {
		auto w = expect(m[q]->trace(), true);
		if (late_at >= 0 && q == late_u) for (auto &x : w) if (x.t == late_f) x.t = late_at;
		return w;
	};
	std::vector<Exp> w0 = wanted(0);
	std::string d = nu == 1 ? diff(w0, got) : diff2(w0, wanted(1), got);
	if (!d.empty()) c.fail("time", d);
	bool deadline = false;
	for (auto &x : m) for (auto k : {"held-until-deadline", "oneshot-expired", "macro-repeated"}) { auto it = x->stat.find(k); if (it != x->stat.end()) { deadline = true; c.label(k); } }
	if (nu == 2) c.label("two configurations");
	c.nontrivial(deadline && desc.size());
}
static pbt::Reg r26({"C26", "deadlines", "timer-heavy configurations (one or two at once) with unrelated events in between, many of them around the deadlines; non-trivial: a deadline passed with unrelated events around", 10000, 300000, true, c26, nullptr});

// ---------------------------------------------------------------- C22
// Everything that happens to pointing devices, step by step; each step is over before the next.
struct Ptr { long x = 0, y = 0, wheel = 0, hwheel = 0; int ax = 0, ay = 0; };
static std::string show(const Ptr &p) { return sfmt("x %ld y %ld wheel %ld hwheel %ld abs %d,%d", p.x, p.y, p.wheel, p.hwheel, p.ax, p.ay); }
static Ptr pointer_at(long t)
{
	Ptr p;
	for (auto &o : ks::out) {
		if (o.dev != ks::VPTR || o.t > t) continue;
		if (o.type == EV_REL && o.code == REL_X) p.x += o.value;
		if (o.type == EV_REL && o.code == REL_Y) p.y += o.value;
		if (o.type == EV_REL && o.code == REL_WHEEL) p.wheel += o.value;
		if (o.type == EV_REL && o.code == REL_HWHEEL) p.hwheel += o.value;
		if (o.type == EV_ABS && o.code == ABS_X) p.ax = o.value;
		if (o.type == EV_ABS && o.code == ABS_Y) p.ay = o.value;
	}
	return p;
}
static std::string compare(const Ptr &w, const Ptr &g)
{
	// rounding of absolute positions is free
	bool ok = w.x == g.x && w.y == g.y && w.wheel == g.wheel && w.hwheel == g.hwheel && std::abs(w.ax - g.ax) <= 1 && std::abs(w.ay - g.ay) <= 1;
	return ok ? "" : "expected " + show(w) + "\ngot      " + show(g);
}
static int magnitude(pbt::Src &s)
{
	int v = s.chance(70) ? 1 + s.draw(10) : s.chance(80) ? 1 + s.draw(600) : 1 + s.draw(40000);
	return s.chance(50) ? -v : v;
}
static Dev tablet(int product, int minx, int maxx, int miny, int maxy)
{
	Dev d;
	d.name = "tablet"; d.product = product;
	d.keys = {BTN_LEFT, 0x14a};
	d.abs = {ABS_X, ABS_Y, 0x18, 0x35, 0x36};
	d.range[ABS_X] = {minx, maxx};
	d.range[ABS_Y] = {miny, maxy};
	return d;
}
static int scaled(int v, int lo, int hi)
{
	if (hi <= lo) return 0;
	return (int)(((long)v - lo) * 1024 / ((long)hi - lo));
}

static void c22(Ctx &c)
{
	enter();
	int sens = 1 + c.src.draw(30);
	conf("a.conf", sfmt("[ids]\n1234\n[main]\nf13 = scroll(%d)\nf14 = scrollt(%d)\n", sens, sens));
	Dev *kb = ks::plug(keyboard("kbd", 1));
	Dev *ms[2] = {ks::plug(mouse("mouse0", 2)), ks::plug(mouse("mouse1", 3))};
	int range[4];
	for (int i = 0; i < 4; i += 2) {
		static const int lows[] = {0, 0, 100, -1000, 1, -100000, 5000};
		static const int spans[] = {1024, 32767, 4000, 65535, 1, 2000000, 100000000, 1023, 3};
		range[i] = lows[c.src.draw(7)];
		range[i + 1] = range[i] + spans[c.src.draw(9)];
		if (c.src.chance(5)) range[i + 1] = range[i];
	}
	Dev td = tablet(4, range[0], range[1], range[2], range[3]);
	if (c.src.chance(30)) for (int a : {REL_X, REL_Y, REL_WHEEL}) td.rel.insert(a);     // a pointer of both kinds
	Dev *tb = ks::plug(td);
	Dev sd = mouse("stray", 5); sd.vendor = 0x99;
	Dev *stray = ks::plug(sd);
	c.docf("sensitivity %d, ranges %d..%d %d..%d\n", sens, range[0], range[1], range[2], range[3]);

	int n = c.src.range(1, 25);
	Ptr w;
	bool hold = false, active = false;
	long rx = 0, ry = 0, t = 1000;
	int kinds = 0;
	std::vector<std::pair<long, Ptr>> want;
	for (int i = 0; i < n; i++) {
		t += 1 + c.src.draw(50);
		long when = us(t);
		Dev *d = ms[c.src.draw(2)];
		int k = c.src.draw(8);
		kinds |= 1 << k;
		switch (k) {
		case 0: case 1: {                       // motion, one or two axes in a report, maybe several reports at once
			int reps = 1 + (c.src.chance(30) ? c.src.draw(4) : 0);
			std::vector<std::pair<int, int>> r;
			for (int j = 0; j < reps; j++) {
				int a = c.src.draw(3);
				r.push_back({a != 1 ? magnitude(c.src) : 0, a != 0 ? magnitude(c.src) : 0});
				c.docf("%ld: move %d %d\n", t, r.back().first, r.back().second);
				if (active) {
					rx += r.back().first; ry += r.back().second;
					w.wheel += -(ry / sens) + rx / sens;
					rx %= sens; ry %= sens;
				} else { w.x += r.back().first; w.y += r.back().second; }
			}
			bool noise = c.src.chance(20);
			ks::at(when, [d, r, noise] { for (auto &m : r) { ks::input(d, EV_REL, REL_X, m.first); if (noise) ks::input(d, EV_REL, 11, 120); ks::input(d, EV_REL, REL_Y, m.second); ks::syn(d); } });
			break; }
		case 2: { int v = c.src.chance(70) ? 1 : 1 + c.src.draw(5); if (c.src.chance(50)) v = -v; w.wheel += v; c.docf("%ld: wheel %d\n", t, v);
			ks::at(when, [d, v] { ks::input(d, EV_REL, REL_WHEEL, v); ks::input(d, EV_REL, 11, 120 * v); ks::syn(d); }); break; }
		case 3: { int v = c.src.chance(70) ? 1 : 1 + c.src.draw(5); if (c.src.chance(50)) v = -v; w.hwheel += v; c.docf("%ld: hwheel %d\n", t, v);
			ks::at(when, [d, v] { ks::input(d, EV_REL, REL_HWHEEL, v); ks::syn(d); }); break; }
		case 4: case 5: {                       // an absolute position
			bool bx = c.src.chance(70), by = !bx || c.src.chance(70), pr = c.src.chance(30);
			auto pos = [&](int lo, int hi) { if (hi <= lo || c.src.chance(25)) return lo; if (c.src.chance(15)) return hi; return lo + (int)c.src.draw((unsigned)(hi - lo) + 1); };
			int x = pos(range[0], range[1]), y = pos(range[2], range[3]);
			c.docf("%ld: position %s %s%s\n", t, bx ? sfmt("x=%d", x).c_str() : "", by ? sfmt("y=%d", y).c_str() : "", pr ? " with pressure" : "");
			ks::at(when, [=] { if (pr) ks::input(tb, EV_ABS, 0x18, x & 255); if (bx) ks::input(tb, EV_ABS, ABS_X, x); if (pr) ks::input(tb, EV_KEY, 0x14a, (x ^ y) & 1); if (by) ks::input(tb, EV_ABS, ABS_Y, y); if (pr) ks::input(tb, EV_ABS, 0x18, (x & 255) ^ 1); ks::syn(tb); });
			if (bx) w.ax = scaled(x, range[0], range[1]);
			if (by) w.ay = scaled(y, range[2], range[3]);
			break; }
		case 6: { int m = magnitude(c.src); c.docf("%ld: stray mouse\n", t); ks::at(when, [stray, m] { ks::input(stray, EV_REL, REL_X, m); ks::input(stray, EV_REL, REL_WHEEL, 1); ks::key(stray, BTN_LEFT, 1); ks::key(stray, BTN_LEFT, 0); ks::syn(stray); }); break; }
		case 7: {
			if (hold) { ks::at(when, [kb] { ks::key(kb, KEY_F13, 0); }); hold = active = false; c.docf("%ld: scroll key up\n", t); }
			else if (c.src.chance(50)) { ks::at(when, [kb] { ks::key(kb, KEY_F13, 1); }); hold = active = true; c.docf("%ld: scroll key down\n", t); }
			else { ks::at(when, [kb] { ks::key(kb, KEY_F14, 1); ks::key(kb, KEY_F14, 0); }); active = !active; c.docf("%ld: scroll toggled\n", t); }
			break; }
		}
		want.push_back({us(t + 1) - 1, w});
	}
	ks::free_naps = true;
	static int ranges[4];
	ks::at(us(t + 90), [] {
		Dev *v = ks::virtual_dev(ks::VPTR);
		int k = 0;
		for (int a : {ABS_X, ABS_Y}) { ranges[k++] = v && v->abs.count(a) ? v->range[a].first : -1; ranges[k++] = v && v->abs.count(a) ? v->range[a].second : -1; }
	});
	must_finish(c, ks::run(us(t + 100)));
	if (ranges[0] || ranges[1] != 1024 || ranges[2] || ranges[3] != 1024) c.failf("range", "the virtual pointer's positions range from %d to %d and %d to %d", ranges[0], ranges[1], ranges[2], ranges[3]);
	for (auto &x : want) {
		std::string d = compare(x.second, pointer_at(x.first));
		if (!d.empty()) c.fail("pointer", sfmt("after %ld ms:\n", (x.first - ks::start_time) / 1000) + d + "\n" + ks::show(ks::out));
	}
	for (auto &o : ks::out) {
		if (o.dev == ks::VKBD && o.type != EV_SYN) c.fail("invented", ks::show(o));
		if (o.type == EV_KEY) c.fail("invented", ks::show(o));
		if (o.type == EV_ABS && (o.value < 0 || o.value > 1024)) c.fail("range", ks::show(o));
		if (o.type == EV_REL && (o.code == REL_WHEEL || o.code == REL_HWHEEL) && !active && !hold && std::abs(o.value) > 5 && false) c.fail("wheel", ks::show(o));
	}
	if (!ks::refused.empty()) c.fail("refused", ks::show(ks::refused[0]));
	std::string s = sync_errors();
	if (!s.empty()) c.fail("sync", s);
	if (active) c.label("scroll mode");
	if (w.ax || w.ay) c.label("absolute");
	c.nontrivial(__builtin_popcount(kinds) >= 3);
}
static pbt::Reg r22({"C22", "pointer", "motion, positions, wheel steps and scroll() on several pointing devices; non-trivial: at least three kinds of events", 16000, 500000, true, c22, nullptr});

// wheel steps as keys, against the model
static pbt::Reg r22b({"C22", "wheel-keys", "wheel steps remapped like keys, mixed with key presses, against the model; non-trivial: a wheel step met a binding", 8000, 300000, true,
	[](Ctx &c) {
		enter();
		Profile p = prof_daemon();
		p.chords = 0; p.p_odd_codes = 0; p.max_events = 20;
		Case k = gen_case(c.src, p);
		static const int wheel[] = {148, 149, 202, 203};
		for (int x : k.pool) for (int q : wheel) if (x == q) c.discard("wheel key in the pool");
		std::map<int, int> bound;
		for (auto &l : k.cfg.layers)
			for (int q : wheel)
				if (l.type != Layer::COMPOSITE && c.src.chance(30)) {
					Profile pa; pa.w[KEY] = 30; pa.w[MACRO] = 8; pa.w[ONESHOT] = 5; pa.w[TOGGLE] = 5; pa.p_odd_codes = 0; pa.p_macro_delay = 0; pa.p_macro_group = 0; pa.p_keymods = 40;
					l.binds.push_back({{q}, gen_action(c.src, pa, k, pa.w, 1)});
					bound[q]++;
				}
		std::string text = render(k.cfg);
		if (!lines_ok(text)) c.discard("line too long");
		auto h = gen_history(c.src, p, k);
		conf("a.conf", with_ids(text, "1234\n"));
		Dev *kb = ks::plug(keyboard("kbd", 1)), *ms = ks::plug(mouse("mouse", 2));
		c.doc(text + "---\n" + show_history(h));
		Model m(k.cfg);
		long last = -1; int sub = 0, steps = 0;
		for (auto &e : h) {
			if (e.t != last) { last = e.t; sub = 0; }
			long when = us(e.t) + 10 * sub++;
			m.key(e.code, e.pressed, e.t);
			if (linux_codes(e.code).empty()) c.discard("no such key on real devices");
			int lc = linux_codes(e.code)[0], v = e.pressed;
			ks::at(when, [kb, lc, v] { ks::key(kb, lc, v); });
			if (c.src.chance(40)) {
				int dir = c.src.draw(4), cnt = c.src.chance(80) ? 1 : 1 + c.src.draw(4);
				steps += cnt && bound[wheel[dir]];
				c.docf("%ld: %s %d\n", e.t, kname(wheel[dir]).c_str(), cnt);
				for (int i = 0; i < cnt; i++) { m.key(wheel[dir], 1, e.t); m.key(wheel[dir], 0, e.t); }
				int val = dir == 1 || dir == 3 ? cnt : -cnt, code = dir < 2 ? REL_WHEEL : REL_HWHEEL;
				ks::at(when + 4, [ms, code, val] { ks::input(ms, EV_REL, code, val); ks::syn(ms); });
			}
		}
		long end = h.back().t + 3000;
		m.advance(end);
		if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
		ks::free_naps = true;
		must_finish(c, ks::run(us(end)));
		std::string d = diff(expect(m.trace()), observed());
		if (!d.empty()) c.fail("events", d);
		c.nontrivial(steps);
	}, nullptr});
int reply_type(ks::Conn *c) { int t = -1; if (c->out.size() >= sizeof t) memcpy(&t, c->out.data(), sizeof t); return t; }
std::string reply_text(ks::Conn *c)
{
	struct M { int type; uint32_t timeout; char data[4096]; size_t sz; };
	if (c->out.size() < sizeof(M)) return "";
	M m;
	memcpy(&m, c->out.data(), sizeof m);
	return std::string(m.data, std::min(m.sz, sizeof m.data));
}
