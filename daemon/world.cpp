#include "world.h"
#include <algorithm>
#include <climits>
#include <filesystem>
#include <linux/input.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace spec;
using pbt::sfmt;
#ifndef KEY_NOTIFICATION_CENTER
#define KEY_NOTIFICATION_CENTER 0x1bc
#define KEY_PICKUP_PHONE 0x1bd
#define KEY_HANGUP_PHONE 0x1be
#endif
#ifndef KEY_FN_RIGHT_SHIFT
#define KEY_FN_RIGHT_SHIFT 0x1e5
#endif
#ifndef KEY_REFRESH_RATE_TOGGLE
#define KEY_REFRESH_RATE_TOGGLE 0x232
#endif
#ifndef KEY_SELECTIVE_SCREENSHOT
#define KEY_SELECTIVE_SCREENSHOT 0x27a
#endif

namespace world {

void enter()
{
	ks::on_scanned = nullptr;
	std::string d = pbt::scratch() + "/sim";
	if (pbt::scratch().empty() || d.size() < 10) _Exit(3);
	std::error_code ec;
	std::filesystem::remove_all(d, ec);
	if (mkdir(d.c_str(), 0700) || chdir(d.c_str())) _Exit(3);
	mkdir("etc", 0700); mkdir("data", 0700); mkdir("input", 0700);
}
void conf(const std::string &name, const std::string &text)
{
	FILE *f = fopen(("etc/" + name).c_str(), "w");
	if (!f) _Exit(3);
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}
void unconf(const std::string &name) { unlink(("etc/" + name).c_str()); }
std::string with_ids(const std::string &t, const std::string &ids)
{
	const std::string head = "[ids]\n*\n";
	if (t.compare(0, head.size(), head)) _Exit(3);
	return "[ids]\n" + ids + t.substr(head.size());
}

ks::Dev keyboard(const std::string &name, int product)
{
	ks::Dev d;
	d.name = name; d.product = product;
	for (int i = 1; i <= KEY_MAX; i++) d.keys.insert(i);
	for (int i = 0; i <= LED_MISC; i++) d.led.insert(i);
	return d;
}
ks::Dev mouse(const std::string &name, int product)
{
	ks::Dev d;
	d.name = name; d.product = product;
	for (int i = BTN_LEFT; i <= BTN_TASK; i++) d.keys.insert(i);
	for (int i : {REL_X, REL_Y, REL_WHEEL, REL_HWHEEL, 11 /* hi-res */}) d.rel.insert(i);
	return d;
}

std::vector<Lin> to_linux(int k, int st)
{
	using ks::VKBD; using ks::VPTR;
	switch (k) {
	case 249: return {{VPTR, EV_KEY, BTN_LEFT, st}};
	case 250: return {{VPTR, EV_KEY, BTN_MIDDLE, st}};
	case 251: return {{VPTR, EV_KEY, BTN_RIGHT, st}};
	case 252: return {{VPTR, EV_KEY, BTN_SIDE, st}};
	case 253: return {{VPTR, EV_KEY, BTN_EXTRA, st}};
	case 178: return {{VPTR, EV_KEY, BTN_BACK, st}};
	case 255: return {{VPTR, EV_KEY, BTN_FORWARD, st}};
	case 177: return {{VKBD, EV_KEY, KEY_ZOOM, st}};
	case 222: return {{VKBD, EV_KEY, 0x246, st}};
	case 254: return {{VKBD, EV_KEY, KEY_FN, st}};
	case 148: if (st) return {{VPTR, EV_REL, REL_WHEEL, -1}}; return {};
	case 149: if (st) return {{VPTR, EV_REL, REL_WHEEL, 1}}; return {};
	case 202: if (st) return {{VPTR, EV_REL, REL_HWHEEL, -1}}; return {};
	case 203: if (st) return {{VPTR, EV_REL, REL_HWHEEL, 1}}; return {};
	}
	return {{VKBD, EV_KEY, k, st}};
}

int from_linux(int c)
{
	switch (c) {                            // keys with numbers of their own in keyd, and laptop keys
	case KEY_PROG1: return 191; case KEY_PROG2: return 192; case KEY_PROG3: return 193; case KEY_PROG4: return 194;
	case KEY_FN: return 254; case KEY_ZOOM: return 177; case 0x246: return 222;
	case BTN_LEFT: return 249; case BTN_MIDDLE: return 250; case BTN_RIGHT: return 251; case BTN_SIDE: return 252; case BTN_EXTRA: return 253;
	case BTN_BACK: return 178; case BTN_FORWARD: return 255; case BTN_TASK: return 188;
	case KEY_NOTIFICATION_CENTER: return 191; case KEY_PICKUP_PHONE: return 192; case KEY_HANGUP_PHONE: return 193;
	case KEY_FN_RIGHT_SHIFT: return 183; case KEY_KEYBOARD: return 184; case KEY_REFRESH_RATE_TOGGLE: return 185; case KEY_SELECTIVE_SCREENSHOT: return 186;
	case KEY_TOUCHPAD_OFF: return 187; case KEY_TOUCHPAD_ON: return 188; case KEY_VENDOR: return 189;
	case KEY_EDITOR: return 183; case KEY_SPREADSHEET: return 184; case KEY_GRAPHICSEDITOR: return 185; case KEY_PRESENTATION: return 186;
	case KEY_DATABASE: return 187; case KEY_NEWS: return 188; case KEY_VOICEMAIL: return 189; case KEY_ADDRESSBOOK: return 190; case KEY_MESSENGER: return 191;
	}
	if (c >= KEY_FN_F1 && c <= KEY_FN_F12) return 183 + (c - KEY_FN_F1);
	if (c >= BTN_0 && c <= BTN_9) return 183 + (c - BTN_0);
	if (c >= 256) return 0;
	if (c == KEY_SCROLLUP || c == KEY_SCROLLDOWN || c == KEY_ALTERASE) return 0;     // not keys keyd knows
	if ((c >= 195 && c <= 199) || c >= 249) return 0;
	return c;
}
const std::vector<int> &linux_codes(int k)
{
	static std::vector<std::vector<int>> inv;
	if (inv.empty()) {
		inv.resize(256);
		for (int c = 1; c < KEY_MAX; c++) if (int x = from_linux(c)) inv[x].push_back(c);
	}
	return inv[k];
}

std::vector<Exp> expect(const std::vector<Ev> &tr, bool raw)
{
	std::vector<Exp> v;
	std::set<std::pair<int, int>> down;             // what changes nothing is not passed on by the kernel
	for (auto &e : tr)
		if (e.k == Ev::KEY)
			for (auto &l : to_linux(e.code, e.state)) {
				if (!raw && l.type == EV_KEY && (l.value ? !down.insert({l.dev, l.code}).second : !down.erase({l.dev, l.code}))) continue;
				v.push_back({e.t, l});
			}
	return v;
}
std::vector<Exp> observed(bool raw)
{
	std::vector<Exp> v;
	for (auto &o : ks::out)
		if (o.type != EV_SYN && (raw || !o.same)) v.push_back({(o.t - ks::start_time) / 1000, {o.dev, o.type, o.code, o.value}});
	return v;
}
std::string show(const Exp &e)
{
	ks::Out o{ks::start_time + e.t * 1000, e.e.dev, e.e.type, e.e.code, e.e.value};
	return ks::show(o);
}
static bool same(const Exp &a, const Exp &b) { return a.t == b.t && a.e.dev == b.e.dev && a.e.type == b.e.type && a.e.code == b.e.code && a.e.value == b.e.value; }
std::string diff(const std::vector<Exp> &w, const std::vector<Exp> &g)
{
	size_t i = 0;
	while (i < w.size() && i < g.size() && same(w[i], g[i])) i++;
	if (i == w.size() && i == g.size()) return "";
	std::string s = sfmt("difference at event %zu\n", i);
	for (size_t k = i > 4 ? i - 4 : 0; k < i + 6; k++) {
		if (k >= w.size() && k >= g.size()) break;
		s += sfmt("%s expected %-32s got %s\n", k == i ? ">" : " ", k < w.size() ? show(w[k]).c_str() : "-", k < g.size() ? show(g[k]).c_str() : "-");
	}
	return s;
}
std::string diff2(const std::vector<Exp> &a, const std::vector<Exp> &b, const std::vector<Exp> &g)
{
	// reach[j]: the first i+j of g are an interleaving of the first i of a and j of b
	if (a.size() + b.size() == g.size()) {
		std::vector<char> r(b.size() + 1, 0);
		for (size_t i = 0; i <= a.size(); i++)
			for (size_t j = 0; j <= b.size(); j++) {
				if (!i && !j) { r[0] = 1; continue; }
				char ok = 0;
				if (i && r[j] && same(a[i - 1], g[i + j - 1])) ok = 1;
				if (j && r[j - 1] && same(b[j - 1], g[i + j - 1])) ok = 1;
				r[j] = ok;
			}
		if (r[b.size()]) return "";
	}
	std::vector<Exp> m;
	std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(m), [](const Exp &x, const Exp &y) { return x.t < y.t; });
	std::string d = diff(m, g);
	return d.empty() ? "events of the two configurations are mixed up" : d;
}
std::string sync_errors()
{
	std::map<int, bool> open;
	for (auto &o : ks::out) {
		if (o.type == EV_SYN) { open[o.dev] = false; continue; }
		if (o.type == EV_KEY && open[o.dev]) return "no sync report before " + ks::show(o);
		open[o.dev] = true;
	}
	for (auto &x : open) if (x.second) return sfmt("device %d: the last event has no sync report", x.first);
	return "";
}
void must_finish(pbt::Ctx &c, ks::End e)
{
	if (e == ks::EXITED) {
		// what keyd types counts as well (C27)
		auto d = ks::all_down();
		if (d.count(KEY_ESC) && d.count(KEY_BACKSPACE) && d.count(KEY_ENTER)) c.discard("panic sequence");
	}
	if (e == ks::EXITED) c.failf("exited", "keyd exited with status %d\n%s", ks::exit_code, ks::log().c_str());
	if (e == ks::BLOCKED) c.failf("blocked", "keyd is blocked for good: %s", ks::blocked_on.c_str());
}

} // namespace world
