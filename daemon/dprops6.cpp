// C31: the USB gadget backend under the real daemon (linked into the "gadget" executable).
#include "world.h"
#include <algorithm>
#include <cstring>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

// HID Usage Tables, keyboard page, by keyd's name of the key.
static const std::vector<std::pair<const char *, int>> USAGE = {
	{"a", 0x04}, {"b", 0x05}, {"c", 0x06}, {"d", 0x07}, {"e", 0x08}, {"f", 0x09}, {"g", 0x0a}, {"h", 0x0b}, {"i", 0x0c}, {"j", 0x0d}, {"k", 0x0e}, {"l", 0x0f},
	{"m", 0x10}, {"n", 0x11}, {"o", 0x12}, {"p", 0x13}, {"q", 0x14}, {"r", 0x15}, {"s", 0x16}, {"t", 0x17}, {"u", 0x18}, {"v", 0x19}, {"w", 0x1a}, {"x", 0x1b},
	{"y", 0x1c}, {"z", 0x1d}, {"1", 0x1e}, {"2", 0x1f}, {"3", 0x20}, {"4", 0x21}, {"5", 0x22}, {"6", 0x23}, {"7", 0x24}, {"8", 0x25}, {"9", 0x26}, {"0", 0x27},
	{"enter", 0x28}, {"esc", 0x29}, {"backspace", 0x2a}, {"tab", 0x2b}, {"space", 0x2c}, {"-", 0x2d}, {"=", 0x2e}, {"[", 0x2f}, {"]", 0x30}, {"\\", 0x31},
	{";", 0x33}, {"'", 0x34}, {"`", 0x35}, {",", 0x36}, {".", 0x37}, {"/", 0x38}, {"capslock", 0x39},
	{"f1", 0x3a}, {"f2", 0x3b}, {"f3", 0x3c}, {"f4", 0x3d}, {"f5", 0x3e}, {"f6", 0x3f}, {"f7", 0x40}, {"f8", 0x41}, {"f9", 0x42}, {"f10", 0x43}, {"f11", 0x44}, {"f12", 0x45},
	{"sysrq", 0x46}, {"scrolllock", 0x47}, {"pause", 0x48}, {"insert", 0x49}, {"home", 0x4a}, {"pageup", 0x4b}, {"delete", 0x4c}, {"end", 0x4d}, {"pagedown", 0x4e},
	{"right", 0x4f}, {"left", 0x50}, {"down", 0x51}, {"up", 0x52}, {"numlock", 0x53}, {"kpslash", 0x54}, {"kpasterisk", 0x55}, {"kpminus", 0x56}, {"kpplus", 0x57}, {"kpenter", 0x58},
	{"kp1", 0x59}, {"kp2", 0x5a}, {"kp3", 0x5b}, {"kp4", 0x5c}, {"kp5", 0x5d}, {"kp6", 0x5e}, {"kp7", 0x5f}, {"kp8", 0x60}, {"kp9", 0x61}, {"kp0", 0x62}, {"kpdot", 0x63},
	{"102nd", 0x64}, {"compose", 0x65}, {"power", 0x66}, {"kpequal", 0x67},
	{"f13", 0x68}, {"f14", 0x69}, {"f15", 0x6a}, {"f16", 0x6b}, {"f17", 0x6c}, {"f18", 0x6d}, {"f19", 0x6e}, {"f20", 0x6f}, {"f21", 0x70}, {"f22", 0x71}, {"f23", 0x72}, {"f24", 0x73},
	{"open", 0x74}, {"help", 0x75}, {"props", 0x76}, {"front", 0x77}, {"stop", 0x78}, {"again", 0x79}, {"undo", 0x7a}, {"cut", 0x7b}, {"copy", 0x7c}, {"paste", 0x7d}, {"find", 0x7e},
	{"mute", 0x7f}, {"volumeup", 0x80}, {"volumedown", 0x81}, {"kpcomma", 0x85}, {"ro", 0x87}, {"katakanahiragana", 0x88}, {"yen", 0x89}, {"henkan", 0x8a}, {"muhenkan", 0x8b}, {"kpjpcomma", 0x8c},
	{"hangeul", 0x90}, {"hanja", 0x91}, {"katakana", 0x92}, {"hiragana", 0x93}, {"zenkakuhankaku", 0x94}, {"kpleftparen", 0xb6}, {"kprightparen", 0xb7}, {"kpplusminus", 0xd7},
};
static const std::vector<std::pair<const char *, int>> MODBIT = {
	{"leftcontrol", 1}, {"leftshift", 2}, {"leftalt", 4}, {"leftmeta", 8}, {"rightcontrol", 0x10}, {"rightshift", 0x20}, {"rightalt", 0x40}, {"rightmeta", 0x80},
};
static int usage_[256], modbit[256];
static std::vector<int> usable, useless;
static void tables()
{
	if (usable.size()) return;
	auto code = [](const char *n) {
		for (auto &r : keytab()) if (!strcmp(r.name, n)) return r.code;
		fprintf(stderr, "no key named %s\n", n); _Exit(3);
	};
	for (auto &u : USAGE) usage_[code(u.first)] = u.second;
	for (auto &m : MODBIT) modbit[code(m.first)] = m.second;
	for (auto &r : keytab()) {
		bool dev = false;
		for (int l : linux_codes(r.code)) dev |= l == r.code;
		if (!dev || modbit[r.code]) continue;
		(usage_[r.code] ? usable : useless).push_back(r.code);
	}
}
static const char *key_name(int k)
{
	for (auto &r : keytab()) if (r.code == k) return r.name;
	return "?";
}
static std::string hex(const std::string &r) { std::string s; for (unsigned char ch : r) s += sfmt("%02x ", ch); return s; }

struct KeyEv { int code, state; };

// The reports the host got, judged against the keys pressed and released one after the other.
static void judge(Ctx &c, const std::vector<KeyEv> &evs, bool &over)
{
	std::set<int> held, rep;        // usages: down; listed in the last report
	int mods = 0;
	size_t i = 0;
	auto parse = [&](const std::string &r, std::set<int> &keys, int &m) {
		if (r.size() != 8) c.failf("report", "a report of %zu bytes", r.size());
		m = (unsigned char)r[0];
		if (r[1]) c.fail("report", "the reserved byte is not 0: " + hex(r));
		for (int k = 2; k < 8; k++) if (r[k] && !keys.insert((unsigned char)r[k]).second) c.fail("report", "a key is listed twice: " + hex(r));
	};
	if (c.replaying) {
		for (auto &e : evs) c.docf("# %s %s\n", e.state ? "press" : "release", key_name(e.code));
		for (auto &r : ks::hid) c.docf("# report %s\n", hex(r.second).c_str());
	}
	auto where = [&](const KeyEv &e) {
		std::string s = sfmt("%s %s: ", key_name(e.code), e.state ? "pressed" : "released");
		return s;
	};
	for (auto &e : evs) {
		int want = mods;
		bool must = false;
		if (modbit[e.code]) { want = e.state ? mods | modbit[e.code] : mods & ~modbit[e.code]; must = want != mods; }
		else if (int u = usage_[e.code]) {
			if (e.state) { if (held.insert(u).second) must = rep.size() < 6; }
			else if (held.erase(u)) must = rep.count(u);
		}
		if (held.size() > 6) over = true;
		std::set<int> keys; int m = 0;
		if (!must) {
			// at most a report which says nothing new
			if (i < ks::hid.size()) { parse(ks::hid[i].second, keys, m); if (m == mods && keys == rep) i++; }
			continue;
		}
		if (i >= ks::hid.size()) c.fail("missing", where(e) + "no report");
		const std::string &r = ks::hid[i++].second;
		parse(r, keys, m);
		if (m != want) c.failf("modifiers", "%smodifiers %02x expected, report %s", where(e).c_str(), want, hex(r).c_str());
		for (int u : keys) if (!held.count(u)) c.failf("keys", "%susage %02x is listed, though not down: %s", where(e).c_str(), u, hex(r).c_str());
		for (int u : rep) if (held.count(u) && !keys.count(u)) c.failf("keys", "%susage %02x is still down, but not listed any more: %s", where(e).c_str(), u, hex(r).c_str());
		if (keys.size() != std::min<size_t>(6, held.size())) c.failf("keys", "%s%zu keys are down, report %s", where(e).c_str(), held.size(), hex(r).c_str());
		mods = want; rep = keys;
	}
	if (i < ks::hid.size()) c.fail("extra", "report without a key event: " + hex(ks::hid[i].second));
}

// What keyd does with these keys when nothing is configured (modifiers are layers of their own).
static std::vector<KeyEv> plain(Ctx &c, const std::vector<std::pair<long, KeyEv>> &in)
{
	Cfg cfg = base_cfg();
	Model m(cfg);
	for (auto &e : in) m.key(e.second.code, e.second.state, e.first);
	m.advance(in.back().first + 3000);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
	std::vector<KeyEv> evs;
	for (auto &e : m.trace()) if (e.k == Ev::KEY) evs.push_back({e.code, e.state});
	return evs;
}

static void c31_keys(Ctx &c)
{
	enter(); tables();
	std::vector<int> pool;
	int np = 1 + c.src.draw(16);
	for (int i = 0; i < np; i++) {
		int w = c.src.draw(12), k;
		if (w < 8) k = usable[c.src.draw(usable.size())];
		else if (w < 11) { auto &m = MODBIT[c.src.draw(MODBIT.size())]; k = 0; for (auto &r : keytab()) if (!strcmp(r.name, m.first)) k = r.code; }
		else k = useless[c.src.draw(useless.size())];
		if (std::find(pool.begin(), pool.end(), k) == pool.end()) pool.push_back(k);
	}
	int bias = 50 + c.src.draw(3) * 12;                    // how often a key goes down rather than up
	std::set<int> down;
	std::vector<KeyEv> evs;
	for (int i = 1 + c.src.draw(60); i > 0; i--) {
		std::vector<int> up;
		for (int k : pool) if (!down.count(k)) up.push_back(k);
		std::vector<int> dn(down.begin(), down.end());
		bool press = dn.empty() || (up.size() && c.src.chance(bias));
		int k = press ? up[c.src.draw(up.size())] : dn[c.src.draw(dn.size())];
		if (press && down.size() >= 15) { press = false; k = dn[0]; }
		if (press) down.insert(k); else down.erase(k);
		auto has = [&](const char *n) { for (int x : down) if (!strcmp(key_name(x), n)) return true; return false; };
		if (has("esc") && has("backspace") && has("enter")) { down.erase(k); continue; }
		evs.push_back({k, press});
	}
	while (down.size()) { int k = *down.begin(); down.erase(k); evs.push_back({k, 0}); }
	conf("a.conf", "[ids]\n*\n[main]\n");
	ks::hid_present = true;
	bool busy = c.src.chance(60);
	if (busy) { for (int i = 1 + c.src.draw(8); i > 0; i--) ks::hid_gaps.push_back(c.src.chance(40) ? 0 : 1 + c.src.draw(c.src.chance(10) ? 400000 : 12000)); ks::hid_signals = c.src.draw(3); }
	Dev *d = ks::plug(keyboard());
	long t = 1000;
	std::vector<std::pair<long, KeyEv>> in;
	for (auto &e : evs) {
		in.push_back({t, e});
		int k = e.code, v = e.state;
		ks::at(us(t), [d, k, v] { ks::key(d, k, v); });
		c.docf("%ld: %s %s\n", t, v ? "press" : "release", key_name(k));
		t += c.src.chance(70) ? c.src.draw(15) : 100;
	}
	if (busy) { c.docf("host busy for (us)"); for (long g : ks::hid_gaps) c.docf(" %ld", g); c.docf("\n"); }
	must_finish(c, ks::run(us(t + 70000)));
	bool over = false;
	judge(c, plain(c, in), over);
	if (ks::keyd_has(d, true) == false) c.fail("grab", "the keyboard is not grabbed");
	if (over) c.label("more than six keys");
	if (ks::hid_waits) c.label("busy host");
	c.nontrivial(over || ks::hid_waits || evs.size() > 10);
}
static void warm()
{
	tables(); keytab(); linux_codes(1);
}
static pbt::Reg r31a({"C31", "keys", "random histories of plain keys (up to 16 different ones, modifiers and keys without a HID usage among them) through the daemon built with the USB gadget backend, against a host which fetches each report after a random time; every report is checked against the HID usage tables; non-trivial: over six keys, a busy host or more than 10 events", 8000, 600000, true, c31_keys, nullptr, warm});

// One case per key: press and release it with each modifier, between two others.
static void c31_each(Ctx &c)
{
	enter(); tables();
	uint32_t n = c.src.draw(usable.size() + useless.size());
	int k = n < usable.size() ? usable[n] : useless[n - usable.size()];
	conf("a.conf", "[ids]\n*\n[main]\n");
	ks::hid_present = true;
	Dev *d = ks::plug(keyboard());
	std::vector<KeyEv> evs = {{k, 1}, {k, 0}, {usable[0], 1}, {k, 1}, {usable[0], 0}, {k, 0}};
	if (k == usable[0]) evs.resize(2);
	for (auto &m : MODBIT) for (auto &r : keytab()) if (!strcmp(r.name, m.first)) for (auto x : {KeyEv{r.code, 1}, KeyEv{k, 1}, KeyEv{r.code, 0}, KeyEv{k, 0}}) evs.push_back(x);
	c.docf("%s\n", key_name(k));
	long t = 1000;
	std::vector<std::pair<long, KeyEv>> in;
	for (auto &e : evs) { KeyEv x = e; in.push_back({t + 5, x}); ks::at(us(t += 5), [d, x] { ks::key(d, x.code, x.state); }); }
	must_finish(c, ks::run(us(t + 500)));
	bool over = false;
	judge(c, plain(c, in), over);
	c.nontrivial();
}
static pbt::Reg r31b({"C31", "each", "every key keyd knows and a device can send, alone, beside another key and with each modifier; non-trivial: all", 0, 0, true, c31_each, [] { tables(); return (long)(usable.size() + useless.size()); }, warm});

// Remapped: what the model says keyd emits is what the host must see.
static void c31_config(Ctx &c)
{
	enter(); tables();
	Profile p = prof_daemon();
	Case k = gen_case(c.src, p);
	for (auto it = k.pool.begin(); it != k.pool.end();) it = linux_codes(*it).empty() ? k.pool.erase(it) : it + 1;
	if (k.pool.empty()) c.discard("no key of the pool exists on real devices");
	std::string text = render(k.cfg);
	if (!lines_ok(text)) c.discard("line too long");
	auto h = gen_history(c.src, p, k);
	Model m(k.cfg);
	for (auto &e : h) m.key(e.code, e.pressed, e.t);
	long end = h.back().t + 3000;
	m.advance(end);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());
	conf("a.conf", text);
	ks::hid_present = true;
	Dev *d = ks::plug(keyboard());
	std::map<int, int> on;
	long last = -1; int sub = 0;
	for (auto &e : h) {
		if (e.t != last) { last = e.t; sub = 0; }
		int lc;
		if (e.pressed) { const auto &l = linux_codes(e.code); lc = on[e.code] = l[c.src.draw(l.size())]; } else lc = on[e.code];
		int v = e.pressed;
		ks::at(us(e.t) + 10 * sub++, [d, lc, v] { ks::key(d, lc, v); });
	}
	c.doc(text + "---\n" + show_history(h));
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	std::vector<KeyEv> evs;
	for (auto &e : m.trace()) if (e.k == Ev::KEY) evs.push_back({e.code, e.state});
	bool over = false;
	judge(c, evs, over);
	c.nontrivial(evs.size() > 4);
}
static pbt::Reg r31c({"C31", "remapped", "random configurations and key histories through the daemon built with the USB gadget backend; the reports must match the keys the reference model says keyd types; non-trivial: more than 4 key events", 4000, 200000, true, c31_config, nullptr, warm});
