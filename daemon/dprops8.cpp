// C39: taking over a device.
#include "world.h"
#include <algorithm>
#include <linux/input.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

struct TDev {
	Dev proto; Dev *d = nullptr;
	bool kb = true, gone = false;
	std::vector<int> keys;
	std::map<int, int> want, slack;         // presses keyd has to handle / may handle, by key
};

static void c39(Ctx &c)
{
	enter();
	int n = 1 + c.src.draw(3);
	static std::vector<TDev> v;
	v.assign(n, TDev());
	static std::string err;
	err.clear();
	static int at_wait, at_busy, direct;
	// may the panic sequence have been down?  keyd sees events of different devices in one wake-up in any order
	static bool panic; static std::set<int> recent; static long recent_t;
	panic = false; recent.clear(); recent_t = -1;
	at_wait = at_busy = direct = 0;
	// each key belongs to one device; the three of the panic sequence are among them
	std::vector<int> pool = {KEY_ESC, KEY_BACKSPACE, KEY_ENTER, KEY_A, KEY_S, KEY_LEFTSHIFT, KEY_SPACE, KEY_1, KEY_F1};
	static const char *nm[] = {"esc", "backspace", "enter", "a", "s", "leftshift", "space", "1", "f1"};
	static const int low[] = {BTN_LEFT, BTN_MIDDLE, BTN_SIDE};
	static const char *lown[] = {"leftmouse", "middlemouse", "mouse1"};
	static std::map<int, int> image;        // device key -> what it types
	image.clear();
	std::string map = "[main]\n";
	for (int i = 0; i < 9; i++) { image[pool[i]] = KEY_F13 + i; map += sfmt("%s = f%d\n", nm[i], 13 + i); }
	for (int i = 0; i < 3; i++) { image[low[i]] = KEY_F22 + i; map += sfmt("%s = f%d\n", lown[i], 22 + i); }
	int mouse_at = n > 1 && c.src.chance(30) ? (int)c.src.draw(n) : -1;
	for (size_t a = pool.size(); a > 1; a--) std::swap(pool[a - 1], pool[c.src.draw(a)]);
	size_t next = 0;
	for (int i = 0; i < n; i++) {
		TDev &x = v[i];
		if (i == mouse_at) { x.kb = false; x.keys = {BTN_LEFT, BTN_MIDDLE, BTN_SIDE}; }
		else for (int j = 0; j < 3; j++) x.keys.push_back(pool[next++]);
		x.proto = x.kb ? keyboard(sfmt("T%d", i), i + 1) : mouse(sfmt("T%d", i), i + 1);
	}
	auto ids = [&](int mask) { std::string s = "[ids]\n"; for (int i = 0; i < n; i++) if (mask >> i & 1) s += sfmt("1234:%04x\n", i + 1); return s + map; };
	int mask = c.src.draw(1 << n);
	if (c.src.chance(50)) mask = (1 << n) - 1;
	conf("a.conf", ids(mask));

	// key events: strictly alternating per key, everything up in the end
	long horizon = 200 + c.src.draw(1500);
	struct KE { long t; int dev, key, val; };
	std::vector<KE> ev;
	std::vector<std::pair<int, int>> held0;
	for (int i = 0; i < n; i++)
		for (int k : v[i].keys) {
			long t = 1 + c.src.draw(80);
			bool dn = false;
			if (c.src.chance(25)) { held0.push_back({i, k}); dn = true; }
			int m = c.src.draw(10);
			for (int j = 0; j < m && t < horizon; j++) {
				ev.push_back({t, i, k, !dn}); dn = !dn;
				t += c.src.chance(30) ? 1 + c.src.draw(5) : 1 + c.src.draw(300);
			}
			if (dn) ev.push_back({t, i, k, 0});
		}
	std::stable_sort(ev.begin(), ev.end(), [](const KE &a, const KE &b) { return a.t < b.t; });
	long last = horizon;
	for (auto &e : ev) last = std::max(last, e.t);

	auto plug = [](int i) { v[i].d = ks::plug(v[i].proto, v[i].d ? v[i].d->num + 1 : 10 + i * 30); v[i].gone = false; };
	for (int i = 0; i < n; i++) {
		// some arrive later
		if (c.src.chance(25)) { long t = 1 + c.src.draw(horizon); v[i].gone = true; c.docf("device %d plugged at %ld\n", i, t); ks::at(us(t), [i, plug] { if (v[i].gone) plug(i); }); }
		else plug(i);
		if (c.src.chance(20)) { v[i].proto.busy = true; if (v[i].d) v[i].d->busy = true; c.docf("device %d grabbed by someone else from the start\n", i); }
	}
	for (auto &h : held0) if (!v[h.first].gone) { ks::key(v[h.first].d, h.second, 1); c.docf("device %d key %d held at the start\n", h.first, h.second); }
	struct Op { long t; int what, dev, mask; };
	std::vector<Op> ops;
	int nops = c.src.draw(8);
	for (int i = 0; i < nops; i++) {
		Op o{1 + (long)c.src.draw(horizon), (int)c.src.draw(4), (int)c.src.draw(n), (int)c.src.draw(1 << n)};
		if (o.what == 0 || c.src.chance(40)) o.what = 0;
		if (o.what == 0 && !ev.empty() && c.src.chance(50)) o.t = ev[c.src.draw(ev.size())].t;
		ops.push_back(o);
		static const char *wn[] = {"reload", "unplug and plug", "grabbed by someone else", "left by them"};
		c.docf("%ld: %s (device %d, listed %x)\n", o.t, wn[o.what], o.dev, o.mask);
	}
	for (auto &e : ev) c.docf("%ld: device %d key %d %s\n", e.t, e.dev, e.key, e.val ? "down" : "up");

	for (auto &e : ev)
		ks::at(us(e.t), [e] {
			TDev &x = v[e.dev];
			if (x.gone || x.d->down.count(e.key) == (size_t)e.val) return;
			bool mine = ks::keyd_has(x.d, true);
			if (e.t != recent_t && !ks::awaiting_release) { recent.clear(); for (auto &y : v) if (y.d && !y.gone) recent.insert(y.d->down.begin(), y.d->down.end()); }
			recent_t = e.t;
			if (e.val) recent.insert(e.key);
			if (recent.count(KEY_ESC) && recent.count(KEY_BACKSPACE) && recent.count(KEY_ENTER)) panic = true;
			if (e.val) {
				if (ks::awaiting_release) { at_wait++; if (mine) x.slack[e.key]++; }
				else if (mine) x.want[e.key]++;
				if (!mine && !x.d->busy) direct++;
			}
			ks::key(x.d, e.key, e.val);
		});
	for (auto &o : ops)
		ks::at(us(o.t) + 500, [o, ids, plug] {
			TDev &x = v[o.dev];
			switch (o.what) {
			case 0: conf("a.conf", ids(o.mask)); send_msg(ks::connect(), IPC_RELOAD_, ""); break;
			case 1: if (!x.gone) { ks::unplug(x.d); x.gone = true; } ks::at(ks::now() + 20000, [o, plug] { if (v[o.dev].gone) plug(o.dev); }); break;
			case 2: x.proto.busy = true; if (!x.gone && x.d->down.empty() && !ks::keyd_has(x.d, true)) { x.d->busy = true; at_busy++; } break;  // as keyd, they wait until nothing is held
			case 3: x.proto.busy = false; if (!x.gone) x.d->busy = false; break;
			}
		});
	// in the end nothing is held and nobody is in the way: each listed device must be taken, and no other
	int fin = c.src.draw(1 << n);
	long tf = last + 200;
	ks::at(us(tf), [fin, ids, plug, n] {
		for (int i = 0; i < n; i++) { v[i].proto.busy = false; if (v[i].gone) plug(i); else v[i].d->busy = false; }
		conf("a.conf", ids(fin)); send_msg(ks::connect(), IPC_RELOAD_, "");
	});
	for (int i = 0; i < n; i++)
		for (int k = 0; k < (int)v[i].keys.size(); k++) {
			long t = tf + 100 + i * 100 + k * 20;
			ks::at(us(t), [=] {
				if (ks::keyd_has(v[i].d, true) != (fin >> i & 1) && err.empty()) err = sfmt("device %d is %s in the end although it is %slisted", i, fin >> i & 1 ? "not taken" : "taken", fin >> i & 1 ? "" : "not ");
				ks::key(v[i].d, v[i].keys[k], 1);
				if (fin >> i & 1) v[i].want[v[i].keys[k]]++;
			});
			ks::at(us(t + 10), [=] { ks::key(v[i].d, v[i].keys[k], 0); });
		}
	ks::free_naps = true;
	ks::End how = ks::run(us(tf + 100 + n * 100 + 100));
	if (how == ks::EXITED && panic) c.discard("panic sequence");
	must_finish(c, how);
	if (!err.empty()) c.fail("taken", err + "\n" + ks::log());
	int grabs = 0;
	std::map<int, int> got;
	for (auto &o : ks::out) if (o.type == EV_KEY && o.value == 1) got[o.code]++;
	for (int i = 0; i < n; i++) {
		TDev &x = v[i];
		for (int k : x.d->down_at_grab) c.failf("held", "device %d was taken while its key %d was down: applications never see it come up", i, k);
		grabs += x.d->grabs;
		for (int k : x.keys) {
			int g = got[image[k]], w = x.want[k];
			got.erase(image[k]);
			if (g < w || g > w + x.slack[k]) c.failf("counted", "key %d of device %d was pressed %d times while keyd had the device (and %d times while it waited), the virtual keyboard typed it %d times\n%s", k, i, w, x.slack[k], g, ks::show(ks::out).c_str());
		}
	}
	for (auto &x : got) if (x.first != 0) c.failf("extra", "code %d typed %d times out of nothing", x.first, x.second);
	for (int x : ks::virtual_down()) c.failf("stuck", "key %d is still down on the virtual keyboard", x);
	if (at_wait) c.label("pressed during the wait");
	if (at_busy) c.label("busy");
	if (direct) c.label("pressed before being taken");
	c.nontrivial(grabs > 0 && (at_wait || at_busy || direct || !held0.empty()));
}
static pbt::Reg r39({"C39", "takeover", "1-3 keyboards and mice with keys held or struck while keyd starts, reloads, or the device is plugged in, some grabbed by another program for a while; non-trivial: a device was taken and a key was held, pressed beforehand or during the wait, or a device was busy", 9000, 300000, true, c39, nullptr});
