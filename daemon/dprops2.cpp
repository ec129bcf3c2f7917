// C20, C24, C25, C27, C30: many devices, many configurations, listeners, LEDs.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <linux/input.h>
#include <sys/stat.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

// ---------------------------------------------------------------- C20
struct IdDev {
	Dev proto; Dev *d = nullptr;
	bool kb = false, ms = false;
	int key = 0;            // struck to find out who manages the device
	std::string id;         // opaque, learnt from keyd
	std::string shrt() const { return sfmt("%04x:%04x", proto.vendor, proto.product); }
};
struct Entry { int sign, dev; bool full; std::string other; char pre; };     // sign -1: excluded

static std::string learn_id(const std::string &log, const std::string &name, size_t from = 0)
{
	// the last line which mentions the device
	std::string id;
	size_t p = from;
	while ((p = log.find(name, p)) != std::string::npos) {
		size_t b = log.rfind('\n', p), e = log.find('\n', p);
		b = b == std::string::npos ? 0 : b + 1;
		std::string line = log.substr(b, e - b);
		for (size_t i = 0; i + 9 <= line.size(); i++) {
			auto hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); };
			size_t j = i;
			auto run = [&](size_t n) { size_t k = 0; while (k < n && j < line.size() && hex(line[j])) { j++; k++; } return k == n; };
			if (!run(4) || j >= line.size() || line[j] != ':') continue;
			j++;
			if (!run(4)) continue;
			while (j < line.size() && (hex(line[j]) || line[j] == ':')) j++;
			id = line.substr(i, j - i);
			break;
		}
		p += name.size();
	}
	return id;
}

// The id of a device: configurations which list it are to match it for ever.
static std::string full_id(const Dev &d)
{
	uint32_t h = 5183;
	auto mix = [&h](uint32_t v) { h = h * 33 + v; };
	uint32_t n = 0, axes[2] = {0, 0};
	for (int k : d.keys) if (k < 288) n++;
	for (int a : d.abs) if (a < 8) axes[0] |= 1u << a;
	for (int r : d.rel) if (r < 8) axes[1] |= 1u << r;
	for (int sh = 24; sh >= 0; sh -= 8) mix(n >> sh & 255);
	mix(axes[0]); mix(axes[1]);
	for (char c : d.name.substr(0, 63)) mix((uint32_t)(int)(signed char)c);
	return sfmt("%04x:%04x:%08x", d.vendor, d.product, h);
}

static int many_ids = 15;
static void c20(Ctx &c)
{
	enter();
	int n = 1 + c.src.draw(5);
	std::vector<IdDev> v(n);
	for (int i = 0; i < n; i++) {
		IdDev &x = v[i];
		Dev &d = x.proto;
		int kind = c.src.draw(8);
		switch (kind) {
		default: d = keyboard(); x.kb = true; x.key = KEY_A; break;
		case 1: d = mouse(); x.ms = true; x.key = BTN_LEFT; break;
		case 2: d = keyboard(); for (int r : {REL_X, REL_Y}) d.rel.insert(r); x.kb = x.ms = true; x.key = KEY_A; break;
		case 3: d.keys = {KEY_VOLUMEUP, KEY_VOLUMEDOWN}; x.kb = true; x.key = KEY_VOLUMEUP; break;
		case 4: d.keys = {KEY_BRIGHTNESSUP}; x.kb = true; x.key = KEY_BRIGHTNESSUP; break;
		case 5: d.keys = {KEY_POWER, KEY_SLEEP}; x.key = KEY_POWER; break;      // neither
		case 6: d.keys = {BTN_LEFT, BTN_RIGHT}; d.abs = {ABS_X, ABS_Y}; d.range[ABS_X] = d.range[ABS_Y] = {0, 1000}; x.ms = true; x.key = BTN_LEFT; break;
		case 7: d.keys = {KEY_A}; for (int k = KEY_1; k <= KEY_0; k++) d.keys.insert(k); for (int k = KEY_Q; k <= KEY_Y; k++) if (k != KEY_R) d.keys.insert(k); x.key = KEY_A; break;     // nearly a keyboard
		}
		// the same with other keys and axes
		if (c.src.chance(30)) {
			static const int ks[] = {KEY_F24, 255, BTN_0, BTN_TASK, 0x11f, 0x120, KEY_FN, 0x2ff};
			for (int q : ks) if (c.src.chance(30)) d.keys.insert(q);
			static const int rs[] = {REL_X, REL_Y, REL_Z, REL_HWHEEL, 7, REL_WHEEL, 11};
			if (x.ms) for (int q : rs) if (c.src.chance(40)) { if (kind != 6) d.rel.insert(q); else if (q > 7) d.rel.insert(q); }
			if (kind == 6) for (int q : {2, 3, 7, 8, 0x18}) if (c.src.chance(40)) { d.abs.insert(q); d.range[q] = {0, 255}; }
		}
		static const int vend[] = {0x1234, 0x1234, 0x046d, 0x0001, 0x0fad}, prod[] = {0x5678, 0x5679, 0x5688, 0xb01d, 0xffff, 0x0001};
		d.vendor = vend[c.src.draw(5)];
		d.product = prod[c.src.draw(6)];
		d.name = sfmt("Q%dQ", i);
		if (c.src.chance(30)) { int len = c.src.draw(120); for (int j = 0; j < len; j++) d.name += 'a' + j % 26; }
		if (c.src.chance(10)) d.name += "\xc3\xa9";
		c.docf("device %d: %s %s, keyboard %d mouse %d\n", i, d.name.c_str(), x.shrt().c_str(), x.kb, x.ms);
		x.d = ks::plug(d, 10 + i * 7);
	}
	int rounds = 1 + c.src.draw(2);
	static std::vector<std::vector<Entry>> files;   // of the current round
	static std::vector<char> wild, present;
	long T = 1000;
	struct Check { int round, dev; long t0, t1; };
	auto key_names = [](int f) { std::string s = "[main]\n"; for (const char *k : {"a", "leftmouse", "volumeup", "brightnessup", "power"}) s += sfmt("%s = f%d\n", k, 13 + f); return s; };
	int nontriv = 0;
	static std::string err;
	err.clear();
	for (int r = 0; r < rounds; r++) {
		int nf = 1 + c.src.draw(4);
		std::vector<std::vector<Entry>> fs(nf);
		std::vector<char> wl(nf);
		std::vector<std::string> extra(nf);
		for (int f = 0; f < nf; f++) {
			wl[f] = c.src.chance(40);
			for (int i = 0; i < n; i++) {
				if (!c.src.chance(45)) continue;
				Entry e{c.src.chance(wl[f] ? 60 : 20) ? -1 : 1, i, c.src.chance(50), "", 0};
				if (e.sign > 0 && c.src.chance(35)) e.pre = c.src.chance(50) ? 'k' : 'm';
				fs[f].push_back(e);
			}
			if (c.src.chance(30)) {
				static const char *others[] = {"1234:567a", "046d:5678:00000000", "1234:5678:deadbeef", "ffff:ffff", "0fac:0ade", "0fac:1ade", "5678:1234", "-0001:0002", "k:0fac:0ade"};
				fs[f].push_back({1, -1, false, others[c.src.draw(9)], 0});
			}
			// as many others as there is room for
			if (c.src.chance(many_ids)) {
				int fill = c.src.chance(50) ? 64 - (int)fs[f].size() : c.src.draw(64 - fs[f].size());
				for (int j = 0; j < fill; j++) {
					static const char *pre[] = {"", "", "k:", "m:", "-"};
					fs[f].push_back({1, -1, false, sfmt("%s%04x:%04x%s", pre[c.src.draw(5)], 0xa000 + c.src.draw(8), c.src.draw(65536), c.src.chance(30) ? ":0badc0de" : ""), 0});
				}
				c.label("many ids");
			}
			// order within the file
			for (size_t a = fs[f].size(); a > 1; a--) std::swap(fs[f][a - 1], fs[f][c.src.draw(a)]);
		}
		bool decoy = c.src.chance(20);
		auto render_file = [&v, key_names](const std::vector<Entry> &es, bool w, int f, bool wfirst) {
			std::string s = "[ids]\n";
			if (w && wfirst) s += "*\n";
			for (auto &e : es) {
				if (e.dev < 0) { s += e.other + "\n"; continue; }
				if (e.sign < 0) s += "-";
				if (e.pre) s += std::string(1, e.pre) + ":";
				s += (e.full && !v[e.dev].id.empty() ? v[e.dev].id : v[e.dev].shrt()) + "\n";
			}
			if (w && !wfirst) s += "*\n";
			return s + "\n" + key_names(f);
		};
		bool wfirst = c.src.chance(70);
		c.docf("round %d:\n", r);
		for (int f = 0; f < nf; f++) {
			c.docf(" file %d:%s", f, wl[f] ? " *" : "");
			for (auto &e : fs[f]) c.docf(" %s%s%s%s", e.sign < 0 ? "-" : "", e.pre ? e.pre == 'k' ? "k:" : "m:" : "", e.dev < 0 ? e.other.c_str() : sfmt("dev%d", e.dev).c_str(), e.dev >= 0 && e.full ? " (full id)" : "");
			c.docf("\n");
		}
		// configurations in place and reloaded
		ks::at(us(T), [=, &v] {
			std::string log = ks::log();
			for (auto &x : v) {
				std::string id = learn_id(log, x.proto.name.substr(0, 3));
				if (!id.empty() && !x.id.empty() && id != x.id && err.empty()) err = "the id of " + x.proto.name + " changed from " + x.id + " to " + id;
				if (!id.empty()) x.id = id;
			}
			for (int f = 0; f < 5; f++) unconf(sfmt("f%d.conf", f));
			for (int f = 0; f < nf; f++) conf(sfmt("f%d.conf", f), render_file(fs[f], wl[f], f, wfirst));
			unconf("x.conf.bak"); unconf("xconf");
			if (decoy) { conf("x.conf.bak", "[ids]\n*\n[main]\na = f24\n"); conf("xconf", "[ids]\n*\n[main]\na = f24\n"); mkdir("etc/d.conf", 0700); }
			send_msg(ks::connect(), IPC_RELOAD_, "");
		});
		bool replug = c.src.chance(40);
		if (replug) {
			c.docf(" every device is replugged\n");
			ks::at(us(T + 20), [&v] { for (auto &x : v) ks::unplug(x.d); });
			ks::at(us(T + 40), [&v] { for (auto &x : v) x.d = ks::plug(x.proto, x.d->num + 1); });
		}
		for (int i = 0; i < n; i++) {
			long t = T + 100 + 20 * i;
			ks::at(us(t), [&v, i] { ks::key(v[i].d, v[i].key, 1); });
			ks::at(us(t + 5), [&v, i] { ks::key(v[i].d, v[i].key, 0); });
			ks::at(us(t + 15), [&v, i, t, r, fs, wl, nf] {
				if (!err.empty()) return;
				IdDev &x = v[i];
				if (x.id.empty()) {
					if (x.kb || x.ms) err = "keyd never reported the id of " + x.proto.name;
					return;
				}
				if (x.id != full_id(x.proto)) { err = "the id of " + x.proto.name + " has always been " + full_id(x.proto) + ", it is " + x.id; return; }
				if (x.id.compare(0, 9, x.shrt())) { err = "id " + x.id + " of " + x.proto.name + " does not start with " + x.shrt(); return; }
				// which files may manage it
				int best = 0;
				std::vector<int> lo(nf), hi(nf);
				for (int f = 0; f < nf; f++) {
					bool ex = false, in = false;
					for (auto &e : fs[f]) {
						std::string id = e.dev < 0 ? e.other : e.full && !v[e.dev].id.empty() ? v[e.dev].id : v[e.dev].shrt();
						char pre = e.pre; int sign = e.sign;
						if (e.dev < 0) { if (id[0] == '-') { sign = -1; id = id.substr(1); } if (id[1] == ':') { pre = id[0]; id = id.substr(2); } }
						if (x.id != id && x.id.compare(0, id.size() + 1, id + ":")) continue;
						if (sign < 0) ex = true;
						else if (!pre || (pre == 'k' ? x.kb : x.ms)) in = true;
					}
					if (!x.kb && !x.ms) in = false;
					int w = wl[f] && x.kb ? 1 : 0;
					lo[f] = ex ? 0 : in ? 2 : w;
					hi[f] = in ? 2 : ex ? 0 : w;
					best = std::max(best, lo[f]);
				}
				std::set<int> may;
				for (int f = 0; f < nf; f++) if (hi[f] && hi[f] >= best) may.insert(f);
				bool none = best == 0;
				int got = -1; bool any = false;
				for (auto &o : ks::out)
					if (o.type == EV_KEY && o.value == 1 && o.t >= us(t)) { any = true; got = o.code - KEY_F13; }
				std::string where = sfmt("round %d, device %d (%s): ", r, i, x.id.c_str());
				bool grabbed = ks::keyd_has(x.d, true);
				std::string m; for (int f : may) m += sfmt(" %d", f);
				if (any != grabbed) err = where + (any ? "not grabbed but remapped" : "grabbed but its key has no effect");
				else if (any && !may.count(got)) err = where + sfmt("handled by file %d, expected%s", got, may.empty() ? " none" : m.c_str());
				else if (!any && !none) err = where + "not handled, expected file" + m;
			});
		}
		ks::at(us(T + 100 + 20 * n), [] {
			for (int w : {ks::VKBD, ks::VPTR}) if (Dev *d = ks::virtual_dev(w)) if (ks::keyd_has(d, true) && err.empty()) err = "keyd grabbed its own virtual device";
		});
		for (int f = 0; f < nf; f++) nontriv += !fs[f].empty();
		if (nf > 1) c.label("several files");
		if (replug) c.label("replugged");
		T += 200 + 20 * n;
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(T + 100)));
	if (!err.empty()) c.fail("configuration", err + "\n" + ks::log());
	c.nontrivial(nontriv > 0);
}
static pbt::Reg r20({"C20", "matching", "1-5 devices of 8 kinds (keyboard, mouse, both, media keys, neither, ...) and 1-4 files with listed, excluded, prefixed and wildcard ids, reloaded and replugged; non-trivial: some device is listed or excluded", 12000, 400000, true, c20, nullptr});
static void c40ids(Ctx &c) { many_ids = 80; c20(c); many_ids = 15; }
static pbt::Reg r40({"C40", "ids", "[ids] sections filled with up to 64 ids, those of the 1-5 devices among them; non-trivial: some device is listed or excluded", 1500, 60000, true, c40ids, nullptr});

// ---------------------------------------------------------------- C24
struct Replay {                         // what a listener believes
	std::string layout; std::set<std::string> on;
	std::string err; int lines = 0;
	bool feed(const std::string &line, bool dump)
	{
		lines++;
		if (line.size() < 2) { err = "malformed line \"" + line + "\""; return false; }
		std::string n = line.substr(1);
		switch (line[0]) {
		case '/': layout = n; return true;
		case '+': if (!on.insert(n).second) { err = "\"" + line + "\" although it was on"; return false; } return true;
		case '-': if (!on.erase(n)) { err = "\"" + line + "\" although it was off"; return false; } return true;
		}
		err = "malformed line \"" + line + "\"";
		return false;
	}
	std::string str() const { std::string s = "/" + layout; for (auto &x : on) s += " +" + x; return s; }
};
struct State { std::string layout; std::set<std::string> on; std::string str() const { std::string s = "/" + layout; for (auto &x : on) s += " +" + x; return s; } };

// The model's state after everything that happened up to and including each moment.
static std::map<long, State> timeline(const Cfg &cfg, const std::vector<Ev> &tr, State s, long from)
{
	std::map<long, State> tl;
	tl[from] = s;
	for (auto &e : tr) {
		if (e.k != Ev::LAYER) continue;
		int i = cfg.find(e.name);
		if (i >= 0 && cfg.layers[i].type == Layer::LAYOUT) s.layout = e.name;
		else if (e.state) s.on.insert(e.name);
		else s.on.erase(e.name);
		tl[e.t] = s;
	}
	return tl;
}
static State initial(const Cfg &cfg)
{
	State s;
	s.layout = "main";
	int d = cfg.find(cfg.o.default_layout);
	if (!cfg.o.default_layout.empty() && d >= 0 && cfg.layers[d].type == Layer::LAYOUT) s.layout = cfg.o.default_layout;
	return s;
}
static Profile prof_active()
{
	Profile p = prof_daemon();
	for (Kind x : {LAYER, ONESHOT, TOGGLE, SWAP, SETLAYOUT, OVERLOAD, CLEAR}) p.w[x] = 20;
	p.w2 = p.w;
	p.p_layout = 25; p.p_default_layout = 40; p.min_layers = 2; p.max_layers = 6; p.p_composite = 10;
	p.max_events = 40;
	return p;
}

// Plays a history on one keyboard, one wake-up per event.
static long play(const std::vector<In> &h, Dev *kb, size_t from, size_t to)
{
	long last = -1; int sub = 0;
	for (size_t i = from; i < to; i++) {
		const In &e = h[i];
		if (e.t != last) { last = e.t; sub = 0; }
		int lc = linux_codes(e.code)[0], v = e.pressed;
		ks::at(us(e.t) + 10 * sub++, [kb, lc, v] { ks::key(kb, lc, v); });
	}
	return last;
}
static bool on_devices(const Case &k) { for (int x : k.pool) if (linux_codes(x).empty()) return false; return true; }

static void c24(Ctx &c)
{
	enter();
	Profile p = prof_active();
	Case k = gen_case(c.src, p);
	if (!on_devices(k)) c.discard("no such key on real devices");
	std::string text = render(k.cfg);
	if (!lines_ok(text)) c.discard("line too long");
	auto h = gen_history(c.src, p, k);
	long end = h.back().t + 3000;
	conf("a.conf", with_ids(text, "1234\n"));
	Dev *kb = ks::plug(keyboard("kbd", 1));
	c.doc(text + "---\n" + show_history(h));

	// a reload may come in between
	size_t cut = h.size();
	long trl = -1;
	if (c.src.chance(35)) { cut = c.src.draw(h.size()); trl = cut ? h[cut - 1].t + 1 : h[0].t - 1; while (cut < h.size() && h[cut].t <= trl) cut++; c.docf("reload at %ld\n", trl); }
	auto m1 = std::make_unique<Model>(k.cfg), m2 = std::make_unique<Model>(k.cfg);
	for (size_t i = 0; i < cut; i++) m1->key(h[i].code, h[i].pressed, h[i].t);
	if (trl >= 0) m1->advance(trl); else m1->advance(end);
	if (m1->ambiguous()) c.discard(m1->why());
	std::map<long, State> tl = timeline(k.cfg, m1->trace(), initial(k.cfg), 0);
	if (trl >= 0) {
		for (size_t i = cut; i < h.size(); i++) m2->key(h[i].code, h[i].pressed, h[i].t);
		m2->advance(end);
		if (m2->ambiguous()) c.discard(m2->why());
		for (auto it = tl.upper_bound(trl - 1); it != tl.end();) it = tl.erase(it);
		auto t2 = timeline(k.cfg, m2->trace(), initial(k.cfg), trl);
		for (auto &x : t2) tl[x.first] = x.second;
		ks::at(us(trl) + 900, [] { send_msg(ks::connect(), IPC_RELOAD_, ""); });
	}
	play(h, kb, 0, h.size());

	struct L { ks::Conn *con = nullptr; long from, to; };
	static std::vector<L> ls;
	ls.clear();
	int nl = 1 + c.src.draw(4);
	for (int i = 0; i < nl; i++) {
		L l;
		l.from = c.src.chance(40) ? 5 + c.src.draw(40) : h[c.src.draw(h.size())].t + c.src.draw(3);
		l.to = c.src.chance(25) ? l.from + 1 + c.src.draw(2000) : end + 100;
		c.docf("listener %d from %ld to %ld\n", i, l.from, l.to);
		ls.push_back(l);
	}
	for (int i = 0; i < nl; i++) {
		ks::at(us(ls[i].from) + 500, [i] { ls[i].con = ks::connect(); send_msg(ls[i].con, IPC_LISTEN_, ""); });
		ks::at(us(ls[i].to) + 500, [i] { if (ls[i].con) ks::close_client(ls[i].con); });
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	int changes = 0;
	for (int i = 0; i < nl; i++) {
		ks::Conn *k2 = ls[i].con;
		if (!k2 || !k2->accepted) c.failf("refused", "listener %d was not accepted", i);
		long closed = k2->closed ? ls[i].to : end;
		if (!k2->closed && k2->srv_closed) c.failf("dropped", "listener %d was dropped", i);
		// lines with their times
		std::vector<std::pair<long, std::string>> lines;
		std::string part;
		for (auto &ch : k2->chunks)
			for (char b : ch.second) { if (b == '\n') { lines.push_back({(ch.first - ks::start_time) / 1000, part}); part.clear(); } else part += b; }
		if (!part.empty()) c.failf("partial", "listener %d got an incomplete line \"%s\"", i, part.c_str());
		Replay r;
		size_t j = 0;
		std::set<long> when;
		for (auto &x : tl) if (x.first >= ls[i].from && x.first < closed) when.insert(x.first);
		when.insert(ls[i].from);
		for (auto &x : lines) if (x.first < closed) when.insert(x.first);
		for (long t : when) {
			while (j < lines.size() && lines[j].first <= t) {
				if (!r.feed(lines[j].second, false)) c.failf("lines", "listener %d at %ld ms: %s", i, lines[j].first, r.err.c_str());
				j++; changes++;
			}
			// the reload comes late in its millisecond
			if (t == trl && ls[i].from == trl) continue;
			State w = std::prev(tl.upper_bound(t))->second;
			if (w.layout != r.layout || w.on != r.on) {
				std::string all;
				for (auto &x : lines) all += sfmt("%ld: %s\n", x.first, x.second.c_str());
				c.failf("state", "listener %d at %ld ms believes %s, true is %s\nall lines:\n%s", i, t, r.str().c_str(), w.str().c_str(), all.c_str());
			}
		}
	}
	if (trl >= 0) c.label("reload");
	c.nontrivial(changes >= 4);
}
static pbt::Reg r24({"C24", "replay", "layer-heavy configurations; 1-4 listeners joining and leaving at any moment, sometimes a reload; their replayed lines are compared with the model's active layers after every millisecond; non-trivial: at least 4 lines", 10000, 300000, true, c24, nullptr});

// Listeners which do not read, in a crowd.
static void c24_slow(Ctx &c)
{
	enter();
	// every key press changes a layer; nothing depends on time
	int nl = 1 + c.src.draw(4);
	std::string text = "[ids]\n*\n[main]\n";
	for (int i = 0; i < 4; i++) text += sfmt("%c = %s(l%d)\n", 'a' + i, i % 2 ? "layer" : "toggle", i);
	text += "z = setlayout(lay)\ny = setlayout(main)\n";
	for (int i = 0; i < 4; i++) { text += sfmt("[l%d", i); static const int pad[] = {0, 20, 40, 58, 61, 62}; for (int j = pad[c.src.draw(6)]; j > 0; j--) text += 'x'; text += "]\n"; }
	// names are given in full in the bindings
	std::vector<std::string> names;
	{ size_t p = 0; while ((p = text.find("\n[l", p)) != std::string::npos) { size_t e = text.find(']', p); names.push_back(text.substr(p + 2, e - p - 2)); p = e; } }
	for (int i = 0; i < 4; i++) { std::string k = sfmt("(l%d)", i); size_t p = text.find(k); text.replace(p, k.size(), "(" + names[i] + ")"); }
	text += "[lay:layout]\nm = n\n";
	conf("a.conf", text);
	Dev *kb = ks::plug(keyboard("kbd", 1));
	struct L { ks::Conn *con = nullptr; size_t cap; bool lazy; long reads; bool shut; };
	static std::vector<L> ls;
	ls.clear();
	for (int i = 0; i < nl; i++) {
		L l;
		l.lazy = c.src.chance(60);
		l.cap = 10 + c.src.draw(200);
		l.reads = c.src.chance(50) ? 0 : 20 + c.src.draw(3000);
		l.shut = false;
		ls.push_back(l);
		c.docf("listener %d: %s\n", i, l.lazy ? sfmt("lazy, buffer %zu, reads every %ld ms", l.cap, l.reads).c_str() : "greedy");
	}
	c.doc(text);
	int n = c.src.range(1, 60);
	long t = 500;
	for (int i = 0; i < nl; i++) ks::at(us(100 + i), [i] { ls[i].con = ks::connect(); if (ls[i].lazy) { ls[i].con->greedy = false; ls[i].con->cap = ls[i].cap; } send_msg(ls[i].con, IPC_LISTEN_, ""); });
	static const int codes[] = {KEY_A, KEY_B, KEY_C, KEY_D, KEY_Z, KEY_Y};
	int presses = 0;
	for (int i = 0; i < n; i++) {
		int k = codes[c.src.draw(6)];
		ks::at(us(t), [kb, k] { ks::key(kb, k, 1); });
		ks::at(us(t + 10), [kb, k] { ks::key(kb, k, 0); });
		ks::at(us(t + 20), [kb] { ks::key(kb, KEY_Q, 1); });
		ks::at(us(t + 25), [kb] { ks::key(kb, KEY_Q, 0); });
		presses++;
		t += 30 + c.src.draw(300);
	}
	long end = t + 3000;
	for (int i = 0; i < nl; i++) if (ls[i].lazy && ls[i].reads) for (long x = 200; x < end; x += ls[i].reads) ks::at(us(x), [i] { if (ls[i].con) ks::take(ls[i].con); });
	// one last, greedy listener knows everything
	static ks::Conn *ref; ref = nullptr;
	ks::at(us(90), [] { ref = ks::connect(); send_msg(ref, IPC_LISTEN_, ""); });
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	if (!ref || ref->srv_closed) c.fail("dropped", "a listener which reads everything was dropped");
	Replay r;
	std::string l;
	for (char b : ref->out) { if (b == '\n') { if (!r.feed(l, false)) c.fail("lines", r.err); l.clear(); } else l += b; }
	int dropped = 0;
	for (int i = 0; i < nl; i++) {
		ks::Conn *k = ls[i].con;
		if (k->out.size() > ref->out.size() || ref->out.compare(0, k->out.size(), k->out)) c.failf("prefix", "listener %d got\n%s\nwhich is no prefix of\n%s", i, k->out.c_str(), ref->out.c_str());
		if (k->srv_closed) dropped++;
		else if (k->out.size() != ref->out.size()) c.failf("gap", "listener %d is still connected but missed lines", i);
		if (k->srv_closed && !ls[i].lazy) c.failf("dropped", "listener %d, which reads everything, was dropped", i);
	}
	// keys got through, none waited long
	int q = 0; std::vector<long> qs;
	for (auto &o : ks::out) if (o.dev == ks::VKBD && o.type == EV_KEY && o.code == KEY_Q && o.value == 1) q++;
	if (q != presses) c.failf("keys", "%d presses of q, %d arrived", presses, q);
	if (ks::longest_block > 1000000) c.failf("blocked", "a listener blocked the daemon for %ld ms", ks::longest_block / 1000);
	if (dropped) c.label("listener dropped");
	c.nontrivial(dropped > 0 || n > 10);
}
static pbt::Reg r24b({"C24", "slow", "listeners which read late or never, next to one which reads everything; non-trivial: a listener was dropped, or more than 10 key presses", 4000, 100000, true, c24_slow, nullptr});

// More listeners than fit, coming and going.
static void c24_many(Ctx &c)
{
	enter();
	conf("a.conf", "[ids]\n*\n[main]\na = toggle(x)\nb = toggle(y)\n[x]\nm = n\n[y]\nm = o\n");
	Dev *kb = ks::plug(keyboard("kbd", 1));
	static std::vector<ks::Conn *> cs;
	static std::vector<int> alive;
	cs.clear(); alive.clear();
	int n = c.src.range(1, 50);
	long t = 100;
	static std::string err; err.clear();
	static bool x, y; x = y = false;
	int conns = 0;
	static int now_alive, peak; now_alive = peak = 0;
	for (int i = 0; i < n; i++) {
		t += 5;
		int k = c.src.weighted({60, 20, 20});
		if (k == 0) {
			int cnt = 1 + c.src.draw(20);
			c.docf("%d listeners connect\n", cnt);
			for (int j = 0; j < cnt; j++) {
				t += 2; conns++;
				ks::at(us(t), [] { ks::Conn *k = ks::connect(); cs.push_back(k); alive.push_back(1); send_msg(k, IPC_LISTEN_, ""); });
				ks::at(us(t) + 1000, [] {
					ks::Conn *k = cs.back();
					if (!err.empty()) return;
					std::string want = std::string("/main\n") + (x ? "+x\n" : "") + (y ? "+y\n" : "");
					if (k->srv_closed) {
						alive.back() = 0;
						if (now_alive < 32) err = sfmt("listener %zu was refused although only %d are connected", cs.size(), now_alive);
					} else if (k->out != want) err = sfmt("listener %zu was greeted with \"%s\", expected \"%s\"", cs.size(), k->out.c_str(), want.c_str());
					else now_alive++;
					peak = std::max(peak, now_alive);
				});
			}
		} else if (k == 1) {
			int share = c.src.range(1, 4);
			c.docf("every %d. listener disconnects\n", share);
			ks::at(us(t), [share] { int q = 0; for (size_t i = 0; i < cs.size(); i++) if (alive[i] && ++q % share == 0) { ks::close_client(cs[i]); alive[i] = 0; now_alive--; } });
		} else {
			int w = c.src.draw(2);
			c.docf("layer %c toggles\n", w ? 'y' : 'x');
			ks::at(us(t), [kb, w] { ks::key(kb, w ? KEY_B : KEY_A, 1); ks::key(kb, w ? KEY_B : KEY_A, 0); (w ? y : x) ^= 1; });
			t++;
			std::string line0 = w ? "y\n" : "x\n";
			ks::at(us(t), [line0, w] {
				std::string line = ((w ? y : x) ? "+" : "-") + line0;
				for (size_t i = 0; i < cs.size(); i++)
					if (alive[i] && err.empty()) {
						if (cs[i]->srv_closed) err = sfmt("listener %zu was dropped", i + 1);
						else if (cs[i]->out.size() < line.size() || cs[i]->out.compare(cs[i]->out.size() - line.size(), line.size(), line)) err = sfmt("listener %zu did not get %s", i + 1, line.c_str());
					}
			});
		}
	}
	must_finish(c, ks::run(us(t + 100)));
	if (!err.empty()) c.fail("listeners", err);
	if (peak >= 32) c.label("full");
	c.nontrivial(conns > 10);
}
static pbt::Reg r24c({"C24", "many", "up to several hundred listeners coming and going while layers toggle; non-trivial: more than 10 connections", 3000, 60000, true, c24_many, nullptr});

// ---------------------------------------------------------------- C30
static void c30(Ctx &c)
{
	enter();
	int nu = 1 + c.src.draw(2);
	struct U { Case k; std::string text; std::vector<In> h; std::vector<Dev *> devs; std::vector<long> since; std::map<long, State> tl; bool ind[2]; };
	static long trl; trl = -1;
	static std::vector<U> u;
	u.assign(nu, U());
	long end = 0;
	for (int i = 0; i < nu; i++) {
		Profile p = prof_active();
		p.max_events = 24;
		u[i].k = gen_case(c.src, p);
		u[i].k.cfg.o.layer_indicator = c.src.chance(75);
		if (!on_devices(u[i].k)) c.discard("no such key on real devices");
		u[i].text = render(u[i].k.cfg);
		if (!lines_ok(u[i].text)) c.discard("line too long");
		u[i].h = gen_history(c.src, p, u[i].k);
		c.doc(u[i].text + "---\n" + show_history(u[i].h));
		conf(sfmt("c%d.conf", i), with_ids(u[i].text, sfmt("1234:%04x\n", 0x10 + i)));
		u[i].ind[0] = u[i].ind[1] = u[i].k.cfg.o.layer_indicator;
		end = std::max(end, u[i].h.back().t);
	}
	end += 3000;
	if (c.src.chance(35)) {
		trl = u[0].h[c.src.draw(u[0].h.size())].t + c.src.draw(3);
		c.docf("reload at %ld\n", trl);
		for (int i = 0; i < nu; i++)
			if (c.src.chance(40)) {
				u[i].ind[1] = !u[i].ind[0];
				c.docf("configuration %d from then on %s the indicator\n", i, u[i].ind[1] ? "with" : "without");
			}
		ks::at(us(trl) + 900, [] {
			for (size_t i = 0; i < u.size(); i++) {
				Cfg cfg = u[i].k.cfg;
				cfg.o.layer_indicator = u[i].ind[1];
				conf(sfmt("c%zu.conf", i), with_ids(render(cfg), sfmt("1234:%04x\n", 0x10 + (int)i)));
			}
			send_msg(ks::connect(), IPC_RELOAD_, "");
		});
	}
	for (int i = 0; i < nu; i++) {
		auto m1 = std::make_unique<Model>(u[i].k.cfg), m2 = std::make_unique<Model>(u[i].k.cfg);
		for (auto &e : u[i].h) {
			if (trl < 0 || e.t <= trl) { m1->key(e.code, e.pressed, e.t); continue; }
			m2->key(e.code, e.pressed, e.t);
		}
		m1->advance(trl < 0 ? end : trl);
		if (m1->ambiguous()) c.discard(m1->why());
		u[i].tl = timeline(u[i].k.cfg, m1->trace(), initial(u[i].k.cfg), 0);
		if (trl >= 0) {
			m2->advance(end);
			if (m2->ambiguous()) c.discard(m2->why());
			for (auto it = u[i].tl.upper_bound(trl - 1); it != u[i].tl.end();) it = u[i].tl.erase(it);
			for (auto &x : timeline(u[i].k.cfg, m2->trace(), initial(u[i].k.cfg), trl)) u[i].tl[x.first] = x.second;
		}
		int nd = 1 + c.src.draw(3);
		for (int j = 0; j < nd; j++) {
			Dev d = keyboard(sfmt("kbd%d-%d", i, j), 0x10 + i);
			d.led = {0, 1, 2, 3, 4, 7, 8};
			u[i].devs.push_back(nullptr);
			if (j && c.src.chance(40)) {    // comes later
				long t = u[i].h[c.src.draw(u[i].h.size())].t + 1;
				c.docf("keyboard %d of configuration %d is plugged in at %ld\n", j, i, t);
				u[i].since.push_back(t);
				ks::at(us(t) + 300, [i, j, d] { u[i].devs[j] = ks::plug(d); });
			} else { u[i].devs[j] = ks::plug(d); u[i].since.push_back(0); }
		}
		play(u[i].h, u[i].devs[0], 0, u[i].h.size());
	}
	Dev od = keyboard("other", 0x99); od.vendor = 0x99;
	Dev *other = ks::plug(od);
	// the system's own LEDs (caps lock is left to the indicator where there is one)
	bool any = false;
	for (auto &x : u) any |= x.ind[0] || x.ind[1];
	struct Sys { long t; int code, value; };
	std::vector<Sys> sys;
	std::set<int> lit;
	int ns = c.src.draw(8);
	for (int i = 0; i < ns; i++) {
		static const int leds[] = {0, 2, 0, 2, 3, 4, 7, 8, 1, 1};
		Sys s{(long)(u[0].h[0].t + c.src.draw(2000)), leds[c.src.draw(any ? 8 : 10)], (int)c.src.draw(2)};
		sys.push_back(s);
	}
	std::stable_sort(sys.begin(), sys.end(), [](const Sys &a, const Sys &b) { return a.t < b.t; });
	for (auto &s : sys) { c.docf("system LED %d = %d at %ld\n", s.code, s.value, s.t); int code = s.code, v = s.value; ks::at(us(s.t) + 500, [code, v] { ks::system_led(code, v); }); }
	static std::string err; err.clear();
	for (long t = 50; t <= end; ) {
		// after every millisecond in which something may have happened
		long next = end + 1;
		for (auto &x : u) { auto it = x.tl.upper_bound(t); if (it != x.tl.end()) next = std::min(next, it->first); for (long s : x.since) if (s > t) next = std::min(next, s); }
		for (auto &s : sys) if (s.t > t) next = std::min(next, s.t);
		ks::at(us(t) + 950, [t, sys, other] {
			if (!err.empty()) return;
			for (size_t i = 0; i < u.size(); i++) {
				const State &s = std::prev(u[i].tl.upper_bound(t))->second;
				for (size_t j = 0; j < u[i].devs.size(); j++) {
					Dev *d = u[i].devs[j];
					if (!d || u[i].since[j] > t) continue;
					bool ind = u[i].ind[trl >= 0 && t >= trl];
					if ((u[i].ind[0] || u[i].ind[1]) && d->lit.count(1) != (size_t)(ind && !s.on.empty()))
						err = sfmt("at %ld ms the LED of %s is %s, active layers: %s", t, d->name.c_str(), d->lit.count(1) ? "on" : "off", s.str().c_str());
					std::map<int, int> want;
					for (auto &x : sys) if (x.t <= t && x.t >= u[i].since[j]) want[x.code] = x.value;
					for (auto &w : want)
						// the last system change which really was one decides
						if (d->lit.count(w.first) != (size_t)w.second) {
							// unchanged values never reach keyd
							int cur = 0; bool reached = false;
							for (auto &x : sys) if (x.t <= t && x.code == w.first) { if (x.value != cur && x.t >= u[i].since[j]) reached = true; cur = x.value; }
							if (reached) err = sfmt("at %ld ms LED %d of %s is %d, the system set it to %d", t, w.first, d->name.c_str(), (int)d->lit.count(w.first), w.second);
						}
					int nled = 0;
					for (auto &x : d->led_log) { bool ok = x.first == 1 && (u[i].ind[0] || u[i].ind[1]); for (auto &y : sys) ok |= y.code == x.first; nled += !ok; }
					if (nled) err = sfmt("keyd changed an LED of %s on its own", d->name.c_str());
				}
			}
			if (other->led_writes) err = "keyd changed an LED of a device it does not manage";
		});
		t = next;
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	if (!err.empty()) c.fail("led", err);
	int changes = 0; bool late = false;
	for (auto &x : u) { for (auto &s : x.tl) changes += !s.second.on.empty(); for (long s : x.since) late |= s > 0; }
	if (any) c.label("indicator");
	if (late) c.label("plugged in later");
	if (trl >= 0) c.label("reload");
	if (ns) c.label("system LEDs");
	c.nontrivial(changes > 2 && (any || ns));
}
static pbt::Reg r30({"C30", "leds", "1-2 layer-heavy configurations with and without indicator, 1-3 keyboards each (some plugged in later), LED changes by the system; LEDs compared with the model after every change; non-trivial: layers were active and an LED should change", 10000, 300000, true, c30, nullptr});

// ---------------------------------------------------------------- C27
static void c27(Ctx &c)
{
	enter();
	// keyd reads its own output too: where typing is delayed the keys may meet there
	bool immediate = c.src.chance(60);
	Profile p = immediate ? prof_layers() : prof_all();
	p.max_layers = 3; p.p_macro_group = 0; p.p_macro_delay = 0;
	p.max_events = 16;
	Case k = gen_case(c.src, p);
	std::string text = render(k.cfg);
	if (!lines_ok(text)) c.discard("line too long");
	// what keyd types must not contain the three keys (its own output is read back)
	for (const char *bad : {"backspace", "esc", "enter", "back\\", "\\n"}) if (text.find(bad) != std::string::npos) c.discard("a panic key is part of the configuration");
	text += "\n[global]\n";
	bool rebound = c.src.chance(50);
	std::set<int> ever;
	std::string bind;
	if (rebound) { static const char *t[] = {"[main]\nbackspace = a\nesc = b\nenter = c\n", "[main]\nbackspace = layer(shift)\nesc = overload(control, z)\nenter = noop\n", "[main]\nbackspace+enter = a\nesc = oneshot(alt)\n", "[main]\nbackspace = noop\nesc = noop\nenter = macro(a b)\n"}; bind = t[c.src.draw(4)]; if (bind.find('+') != std::string::npos || bind.find("overload") != std::string::npos) immediate = false; }
	text = text.substr(0, text.size() - std::string("\n[global]\n").size()) + "\n" + bind;
	conf("a.conf", with_ids(text, "1234\n"));
	c.doc(text);
	int nd = 1 + c.src.draw(3);
	static std::vector<Dev *> devs; devs.clear();
	for (int i = 0; i < nd; i++) devs.push_back(ks::plug(keyboard(sfmt("kbd%d", i), 1 + i)));
	Dev *ms = ks::plug(mouse("mouse", 9));
	bool stray_kb = c.src.chance(40);
	if (stray_kb) { Dev d = keyboard("ungrabbed", 1); d.vendor = 0x77; devs.push_back(ks::plug(d)); nd++; }

	static const int trio[] = {KEY_ENTER, KEY_BACKSPACE, KEY_ESC};
	std::vector<std::set<int>> down(nd);
	std::vector<char> gone(nd);
	long t = 1000, die_at = -1;
	int n = c.src.range(1, 60);
	static std::vector<std::set<int>> dummy;
	for (int i = 0; i < n && die_at < 0; i++) {
		t += 3 + c.src.draw(40);
		int d = c.src.draw(nd);
		int what = c.src.weighted({60, 25, 5, 4, 3, 3});
		if (what >= 2 || !gone[d]) switch (what) {
		case 0: {
			int q = trio[c.src.draw(3)];
			if (down[d].count(q)) down[d].erase(q);
			else {
				// usually hold back from the real thing
				std::set<int> all; for (auto &x : down) for (int y : x) if (y == KEY_ENTER || y == KEY_BACKSPACE || y == KEY_ESC) all.insert(y);
				all.insert(q);
				if (all.size() == 3 && c.src.chance(60)) break;
				down[d].insert(q);
				ever.insert(q);
				if (all.size() == 3) die_at = t;
			}
			int v = down[d].count(q);
			c.docf("%ld: device %d %s %d\n", t, d, v ? "presses" : "releases", q);
			Dev **pd = &devs[d];
			ks::at(us(t), [pd, q, v] { ks::key(*pd, q, v); });
			break; }
		case 1: {
			int q = k.pool[c.src.draw(k.pool.size())];
			if (linux_codes(q).empty()) break;
			q = linux_codes(q)[0];
			if (q == KEY_ENTER || q == KEY_BACKSPACE || q == KEY_ESC) break;
			int v = !down[d].count(q);
			if (v) down[d].insert(q); else down[d].erase(q);
			c.docf("%ld: device %d %s %d\n", t, d, v ? "presses" : "releases", q);
			Dev **pd = &devs[d];
			ks::at(us(t), [pd, q, v] { ks::key(*pd, q, v); });
			break; }
		case 2: {       // LED numbers coincide with nothing important
			c.docf("%ld: LEDs and motion\n", t);
			Dev **pd = &devs[d];
			ks::at(us(t), [pd, ms] { for (int l = 0; l < 3; l++) { ks::input(*pd, EV_LED, l, 1); ks::system_led(l, 1); } for (int l = 0; l < 3; l++) { ks::input(*pd, EV_LED, l, 0); ks::system_led(l, 0); } ks::input(ms, EV_REL, REL_X, 28); ks::input(ms, EV_REL, REL_Y, 14); ks::input(ms, EV_REL, REL_WHEEL, 1); ks::syn(ms); });
			break; }
		case 3: {
			c.docf("%ld: device %d is unplugged and comes back\n", t, d);
			down[d].clear();
			Dev **pd = &devs[d];
			ks::at(us(t), [pd] { ks::unplug(*pd); });
			ks::at(us(t) + 1000, [pd] { Dev n = **pd; n.down.clear(); *pd = ks::plug(n); });
			t += 2;
			break; }
		case 4: {
			c.docf("%ld: autorepeat\n", t);
			std::vector<int> ks_(down[d].begin(), down[d].end());
			Dev **pd = &devs[d];
			ks::at(us(t), [pd, ks_] { for (int r = 0; r < 3; r++) for (int q : ks_) ks::key(*pd, q, 2); });
			break; }
		case 5: { if (c.src.chance(50)) { c.docf("%ld: reload\n", t); ks::at(us(t), [] { send_msg(ks::connect(), IPC_RELOAD_, ""); }); } break; }
		}
	}
	ks::free_naps = true;
	ks::End e = ks::run(us(t + 2000));
	if (e == ks::BLOCKED) must_finish(c, e);
	std::set<int> all;
	if (die_at >= 0 && e != ks::EXITED) c.failf("ignored", "all three keys are held since %ld ms, keyd goes on", die_at);
	if (die_at < 0 && e == ks::EXITED && (immediate || ever.size() < 3)) c.fail("exited", "keyd exited although the three keys were never held together\n" + ks::log());
	if (die_at >= 0) {
		if (ks::now() > us(die_at + 20)) c.failf("late", "keyd exited %ld ms after the panic sequence", (ks::now() - us(die_at)) / 1000);
		c.label("panic");
	}
	if (!immediate) c.label("delaying configuration");
	c.nontrivial(n > 3);
}
static pbt::Reg r27({"C27", "sequence", "random configurations, up to three keyboards (one possibly ungrabbed) striking backspace, escape and enter among other keys, LEDs, motion, hot-plugging and reloads; non-trivial: more than 3 actions", 10000, 300000, true, c27, nullptr});

// ---------------------------------------------------------------- C25
static void c25(Ctx &c)
{
	enter();
	int ne = c.src.range(1, 3);
	struct Slot { Dev proto; Dev *d = nullptr; bool managed = false; std::map<int, int> held; };    // keyd code -> Linux code
	static std::vector<Slot> sl;
	int nd = 1 + c.src.draw(4);
	sl.assign(nd, Slot());
	for (int i = 0; i < nd; i++) { sl[i].proto = keyboard(sfmt("kbd%d", i), 1 + i); sl[i].d = ks::plug(sl[i].proto); }
	static std::string err; err.clear();

	std::vector<Case> ks_(ne);
	std::vector<std::unique_ptr<Model>> ms;
	std::vector<std::vector<Exp>> want(ne);
	std::vector<std::set<int>> downs(ne);
	std::vector<long> trl(ne, -1);
	bool pending = false, moved = false, gone_any = false, unplugged_held = false;
	long base = 0;
	for (int ep = 0; ep < ne; ep++) {
		bool last = ep == ne - 1;
		Profile p = prof_active();
		if (c.src.chance(50)) for (Kind x : {OVERLOADT, OVERLOADT2, TIMEOUT, OVERLOADI, MACRO, MACRO2}) p.w[x] = 15;
		p.p_odd_codes = 0; p.max_events = 24;
		Case &k = ks_[ep];
		k = gen_case(c.src, p);
		if (!on_devices(k)) c.discard("no such key on real devices");
		k.cfg.o.layer_indicator = c.src.chance(30);
		std::string text = render(k.cfg);
		if (!lines_ok(text)) c.discard("line too long");
		int mode = ep && c.src.chance(15) ? 1 + c.src.draw(2) : 0;      // 1: file removed, 2: unusable file
		std::vector<char> man(nd);
		std::string ids;
		for (int i = 0; i < nd; i++) { man[i] = mode == 0 && c.src.chance(80); if (man[i]) ids += sfmt("1234:%04x\n", 1 + i); }
		if (mode == 0 && ids.empty()) { man[0] = 1; ids = "1234:0001\n"; }
		std::string file = with_ids(text, ids);
		c.docf("======== configuration %d%s\n", ep, mode == 1 ? " (removed)" : mode == 2 ? " (unusable)" : "");
		c.doc(mode ? "" : file);
		auto write = [mode, file] {
			if (mode == 1) unconf("a.conf");
			else if (mode == 2) { std::string s = "[ids]\n*\n"; for (int i = 0; i < 3000; i++) s += sfmt("[x%d]\na = b\n", i % 4 ? i : 0); s += std::string(3000, 'x') + "\n["; conf("a.conf", "this is no configuration\n" + std::string("\0\xff", 2)); }
			else conf("a.conf", file);
		};
		if (!ep) { write(); for (int i = 0; i < nd; i++) sl[i].managed = man[i]; }
		else {
			long t = trl[ep - 1];
			std::vector<char> m2 = man;
			ks::at(us(t) + 700, [write] { write(); send_msg(ks::connect(), IPC_RELOAD_, ""); });
			ks::at(us(t) + 990, [m2, t] {
				if (!err.empty()) return;
				auto d = ks::virtual_down();
				if (!d.empty()) err = sfmt("after the reload at %ld ms key %d is still down", t, *d.begin());
				for (size_t i = 0; i < sl.size(); i++)
					if (sl[i].d->present && ks::keyd_has(sl[i].d, true) != (bool)m2[i]) err = sfmt("after the reload at %ld ms keyboard %zu is %s", t, i, m2[i] ? "not grabbed" : "still grabbed");
			});
			for (int i = 0; i < nd; i++) { if (sl[i].managed != (bool)man[i]) moved = true; sl[i].managed = man[i]; }
		}
		auto h = gen_history(c.src, p, k);
		// shift
		long off = ep ? base - h[0].t : 0;
		for (auto &e : h) e.t += off;
		ms.emplace_back(new Model(k.cfg));
		Model &m = *ms.back();
		size_t cut = last ? h.size() : 1 + c.src.draw(h.size());
		long lastt = -1; int sub = 0;
		std::map<int, int> on;          // key -> slot
		for (size_t i = 0; i < cut; i++) {
			const In &e = h[i];
			if (e.t != lastt) { lastt = e.t; sub = 0; }
			long when = us(e.t) + 10 * sub++;
			if (sub > 30) c.discard("too many events in a millisecond");
			// hot-plugging
			if (c.src.chance(12)) {
				int s = c.src.draw(nd);
				Slot &x = sl[s];
				if (x.d->present && x.held.size() <= 1) {
					c.docf("%ld: keyboard %d is unplugged\n", e.t, s);
					x.d->present = false;   // bookkeeping only while the case is built; see below
					ks::at(when, [s] { sl[s].d->present = true; ks::unplug(sl[s].d); });
					for (auto &q : x.held) { unplugged_held = true; if (on.count(q.first)) { m.key(q.first, 0, e.t); on.erase(q.first); } }
					x.held.clear();
					gone_any = true;
					when += 5;
				} else if (!x.d->present) {
					c.docf("%ld: keyboard %d is plugged in\n", e.t, s);
					x.d->present = true;
					ks::at(when, [s] { sl[s].d = ks::plug(sl[s].proto); });
					when += 5;
				}
			}
			if (e.pressed) {
				int s = c.src.draw(nd);
				for (int q = 0; q < nd && (!sl[s].d->present || !sl[s].managed); q++) s = (s + 1) % nd;
				Slot &x = sl[s];
				if (!x.d->present || !x.managed) {
					// nobody managed is there: what others type has no effect
					if (x.d->present) { int lc = linux_codes(e.code)[0]; ks::at(when, [s, lc] { ks::key(sl[s].d, lc, 1); ks::key(sl[s].d, lc, 0); }); }
					continue;
				}
				if (on.count(e.code)) continue;
				int lc = linux_codes(e.code)[0];
				on[e.code] = s; x.held[e.code] = lc;
				ks::at(when, [s, lc] { ks::key(sl[s].d, lc, 1); });
				m.key(e.code, 1, e.t);
			} else if (on.count(e.code)) {
				int s = on[e.code], lc = sl[s].held[e.code];
				on.erase(e.code); sl[s].held.erase(e.code);
				ks::at(when, [s, lc] { ks::key(sl[s].d, lc, 0); });
				m.key(e.code, 0, e.t);
			}
		}
		c.doc("---\n" + show_history(std::vector<In>(h.begin(), h.begin() + cut)));
		long t = h[cut - 1].t;
		if (last) base = t + 3000;
		else {
			trl[ep] = t + c.src.draw(3) * c.src.draw(30);
			c.docf("---- %ld: reload\n", trl[ep]);
		}
		m.advance(last ? base : trl[ep]);
		if (m.ambiguous()) c.discard(m.why());
		want[ep] = expect(m.trace());
		if (!last) {
			for (auto &e : m.trace()) if (e.k == Ev::KEY) { if (e.state) downs[ep].insert(e.code); else downs[ep].erase(e.code); }
			pending |= !on.empty() || !m.idle();
			// what is still held goes up some time later
			long up = trl[ep] + 1;
			for (auto &q : on) {
				int s = q.second, lc = sl[s].held[q.first];
				up += c.src.draw(300);
				ks::at(us(up) + 3, [s, lc] { ks::key(sl[s].d, lc, 0); });
			}
			for (auto &x : sl) x.held.clear();
			base = up + 1 + c.src.draw(500);
		}
	}
	// the devices are really there when keyd starts
	for (auto &x : sl) x.d->present = true;
	ks::at(us(5), [] { ks::Conn *l = ks::connect(); send_msg(l, IPC_LISTEN_, ""); });
	ks::free_naps = true;
	must_finish(c, ks::run(us(base)));
	if (!err.empty()) c.fail("reload", err);
	auto got = observed();
	size_t p = 0;
	auto fail = [&](const std::string &d) { c.fail("events", d + "\n" + ks::log()); };
	for (int ep = 0; ep < ne; ep++) {
		std::vector<Exp> part(got.begin() + p, got.begin() + std::min(got.size(), p + want[ep].size()));
		if (ep == ne - 1) part.assign(got.begin() + p, got.end());
		std::string d = diff(want[ep], part);
		if (!d.empty()) fail(sfmt("with configuration %d: ", ep) + d);
		p += want[ep].size();
		if (ep == ne - 1) break;
		std::vector<std::string> a, b;
		for (int k : downs[ep]) for (auto &l : to_linux(k, 0)) a.push_back(show(Exp{trl[ep], l}));
		for (size_t i = 0; i < a.size(); i++) b.push_back(p + i < got.size() ? show(got[p + i]) : "nothing");
		std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) fail(sfmt("reload at %ld: expected release %s, got %s", trl[ep], a[i].c_str(), b[i].c_str()));
		p += a.size();
	}
	if (ks::open_fds()) c.failf("leak", "keyd still has %d device(s) open which are gone", ks::open_fds());
	if (pending) c.label("something was pending");
	if (moved) c.label("management changed");
	if (gone_any) c.label("hot-plug");
	if (unplugged_held) c.label("unplugged while a key was held");
	c.nontrivial((ne > 1 && pending) || gone_any);
}
static pbt::Reg r25({"C25", "epochs", "1-3 configurations applied by reload at arbitrary points of histories on 1-4 keyboards which are plugged, unplugged, listed and unlisted; every event compared with the model of the configuration in force; non-trivial: something was pending at a reload, or hot-plugging", 10000, 300000, true, c25, nullptr});

// More devices than keyd can handle, coming and going.
static void c25_crowd(Ctx &c)
{
	enter();
	conf("a.conf", "[ids]\n*\n[main]\na = b\n");
	static std::vector<Dev *> devs; devs.clear();
	static std::string err; err.clear();
	static int handled, present; handled = present = 0;
	int n0 = c.src.chance(50) ? c.src.draw(100) : c.src.draw(10);
	c.docf("%d devices at the start\n", n0);
	for (int i = 0; i < n0; i++) devs.push_back(ks::plug(keyboard(sfmt("k%d", i), i + 1)));
	// one comes just as keyd has looked at what there is
	static Dev *late; late = nullptr;
	if (n0 < 50 && c.src.chance(30)) {
		bool noise = c.src.chance(40);
		c.docf("one more comes while keyd starts\n");
		ks::on_scanned = [noise] { if (noise) ks::note_other_node("js0"); late = ks::plug(keyboard("late", 0x778)); devs.push_back(late); };
		n0++;
		ks::at(us(500), [] { if (late && !ks::keyd_has(late, true)) err = "a keyboard which came while keyd started is not handled"; });
	}
	int n = c.src.range(1, 12);
	long t = 1000;
	auto probe = [](Dev *d, long t) {
		ks::at(t, [d] { if (d->present) { ks::key(d, KEY_A, 1); ks::key(d, KEY_A, 0); } });
	};
	int maxi = n0;
	bool crowded = n0 > 60;
	for (int i = 0; i < n; i++) {
		t += 50;
		int k = c.src.draw(3);
		if (k == 0) {
			int cnt = 1 + c.src.draw(c.src.chance(30) ? 70 : 5);
			c.docf("%d devices are plugged in\n", cnt);
			maxi += cnt; crowded |= maxi > 60;
			ks::at(us(t), [cnt] { for (int j = 0; j < cnt; j++) { ks::note_other_node("js0"); devs.push_back(ks::plug(keyboard(sfmt("k%zu", devs.size()), (int)devs.size() + 1))); } });
		} else if (k == 1) {
			int share = 1 + c.src.draw(4);
			c.docf("every %d. device is removed\n", share);
			ks::at(us(t), [share] { int q = 0; for (auto d : devs) if (d->present && q++ % share == 0) ks::unplug(d); });
		} else {
			c.docf("a device comes and goes at once, another goes with a key down\n");
			static const int some[] = {KEY_X, KEY_LEFTSHIFT, KEY_MICMUTE, KEY_ESC, BTN_LEFT, KEY_1};
			std::vector<int> down;
			for (int k : some) if (down.empty() || c.src.chance(40)) down.push_back(k);
			long wait = c.src.chance(60) ? 1000 * c.src.range(1, 8) : 0;
			ks::at(us(t), [down, wait] { Dev *d = ks::plug(keyboard("brief", 0x777)); ks::unplug(d); for (auto d : devs) if (d->present && ks::keyd_has(d, true)) { for (int k : down) ks::key(d, k, 1); if (wait) ks::at(ks::now() + wait, [d] { ks::unplug(d); }); else ks::unplug(d); break; } });
		}
		ks::at(us(t) + 20000, [t] {
			if (!err.empty()) return;
			int here = 0, has = 0;
			for (auto d : devs) if (d->present) { here++; if (ks::keyd_has(d, true)) has++; }
			// 64 devices in all, two of them keyd's own
			if (here <= 50 && has != here) {
				// those which came when there was no room stay away until they are plugged in again
				static std::set<Dev *> turned_away;
				(void)turned_away;
			}
			if (has > here) err = "impossible";
			if (ks::open_fds()) err = sfmt("at %ld ms keyd has %d descriptors of removed devices", t, ks::open_fds());
			auto d = ks::virtual_down();
			if (!d.empty()) err = sfmt("at %ld ms key %d is still down", t, *d.begin());
		});
		ks::at(us(t) + 21000, [] {
			int i = 0;
			for (auto d : devs) if (d->present && ks::keyd_has(d, true)) ks::at(ks::now() + 50 * ++i, [d] { ks::key(d, KEY_A, 1); ks::key(d, KEY_A, 0); handled++; });
		});
	}
	t += 100;
	// when all are gone there is room again
	ks::at(us(t), [] { for (auto d : devs) ks::unplug(d); });
	// among others which are none of keyd's business
	std::vector<int> between;
	bool strangers = c.src.chance(60);
	for (int i = 0; i < 40; i++) between.push_back(strangers && c.src.chance(20) ? 1 + c.src.draw(3) : 0);
	if (strangers) c.docf("in the end 40 keyboards among other nodes\n");
	ks::at(us(t) + 20000, [between] {
		devs.clear();
		for (int i = 0; i < 40; i++) {
			if (between[i] == 1) ks::note_other_node("js0");
			if (between[i] >= 2) {
				Dev d; d.name = "lid"; d.product = 0x779;
				if (between[i] == 3) d.keys = {KEY_POWER};
				ks::plug(d);
			}
			devs.push_back(ks::plug(keyboard(sfmt("z%d", i), 0x100 + i)));
		}
	});
	ks::at(us(t) + 30000, [] {
		if (!err.empty()) return;
		int i = 0;
		for (auto d : devs) { i++; if (!ks::keyd_has(d, true)) { err = sfmt("the %d. of 40 devices plugged in later is not handled", i); return; } ks::at(ks::now() + 50 * i, [d] { ks::key(d, KEY_A, 1); ks::key(d, KEY_A, 0); handled++; }); }
		if (ks::open_fds()) err = sfmt("keyd has %d descriptors of removed devices", ks::open_fds());
	});
	ks::free_naps = true;
	must_finish(c, ks::run(us(t + 100)));
	ks::on_scanned = nullptr;
	if (!err.empty()) c.fail("devices", err);
	int b = 0;
	for (auto &o : ks::out) if (o.dev == ks::VKBD && o.type == EV_KEY && o.code == KEY_B && o.value == 1) b++;
	if (b != handled) c.failf("lost", "%d strokes on managed keyboards, %d arrived", handled, b);
	if (crowded) c.label("more than fit");
	c.nontrivial(n > 1);
	(void)probe;
}
static pbt::Reg r25b({"C25", "crowd", "up to several hundred devices coming and going, more than keyd can handle, some removed with a key down or right after they came; non-trivial: more than one step", 1500, 40000, true, c25_crowd, nullptr});
