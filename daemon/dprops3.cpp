// C23: hostile clients of the control socket.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;
using ks::Dev;

struct Raw { int type; uint32_t timeout; char data[4096]; size_t sz; };
static std::string raw(int type, uint32_t timeout, const std::string &data, size_t sz)
{
	Raw m;
	memset(&m, 0, sizeof m);
	m.type = type; m.timeout = timeout; m.sz = sz;
	memcpy(m.data, data.data(), std::min(data.size(), sizeof m.data));
	return std::string((char *)&m, sizeof m);
}

// What a client does: parts of its message at given delays, and how it ends.
struct Client {
	ks::Conn *con = nullptr;
	std::string what;
	bool answered = true;           // a complete request: must get one reply
	bool listener = false;
	int want = -1;                  // the reply's type, if it is known
	bool may_bind = false;          // a request which might be a proper bind after all
	bool reads = true;
	long at = 0;
};

static std::string garbage(Src &s, size_t n)
{
	std::string o;
	static const std::vector<std::string> al = {"a", "\xff", std::string("\0=", 2), "abc=()+.[]\\\"'%n ", "\n", "\xc3\xa9\xf0\x9f"};
	const std::string &x = s.pick(al);
	if (n < 64) for (size_t i = 0; i < n; i++) o += x[s.draw(x.size())];
	else { unsigned seed = s.draw(100000); for (size_t i = 0; i < n; i++) { seed = seed * 1103515245 + 12345; o += x[(seed >> 16) % x.size()]; } }
	return o;
}

static std::string bad_bind(Src &s, const Case &k)
{
	static const char *no[] = {"", "=", "a", "a=", "=a", " = ", "nolayer.a = b", "a = nofn(x)", "a = layer(nolayer)", "nokey = b", "main.nokey = b", "a = overload(shift)", "a = macro(", "a = layer(main", "[main]", "[main]\na = b", "reset ", "resetx",
		"a = setlayout(shift)", "a = toggle()", "a+b+nokey = c", "a = command(", "main. = b", ".a = b", "..", "a = overloadi(a, b, c, d, e, f)", "a = timeout(a, 100)", "a = a b", "include x", "a = macro(+)", "a = oneshot(nolayer)", "main.a", "global.macro_timeout = 1", "ids.* = 1", "a = swap(nolayer)", "a = Z-x", "Z-a = b", "a = \xff\xfe"};
	switch (s.draw(4)) {
	default: return no[s.draw(sizeof no / sizeof *no)];
	case 1: { const Layer &l = k.cfg.layers[s.draw(k.cfg.layers.size())]; return l.binds.empty() ? "a = nofn()" : mutate(s, l.name + "." + render_binding(k.cfg, l.binds[s.draw(l.binds.size())]), 1 + s.draw(3)); }
	case 2: return garbage(s, 1 + s.draw(60));
	case 3: { static const int n[] = {500, 511, 512, 513, 1023, 1024, 1025, 4000, 4094, 4095}; std::string t = s.chance(50) ? "a = " : s.chance(50) ? "a = macro(" : s.chance(50) ? "a = layer(" : ""; return t + garbage(s, n[s.draw(10)] - t.size()); }
	}
}

static Client attack(Ctx &c, const Case &k, long t)
{
	Src &s = c.src;
	Client x;
	x.at = t;
	std::string msg;
	bool complete = true;
	switch (s.draw(10)) {
	default: { std::string b = bad_bind(s, k); msg = raw(IPC_BIND_, 0, b, b.size()); x.may_bind = true; x.what = "bind <" + b.substr(0, 300) + ">"; break; }
	case 2: { static const int types[] = {IPC_SUCCESS_, IPC_FAIL_, 7, 8, 255, -1, 0x7fffffff, (int)0x80000000, 65536 + 2};
		int ty = types[s.draw(9)]; msg = raw(ty, 0, garbage(s, 20), 20); x.want = IPC_FAIL_; x.what = sfmt("type %d", ty); break; }
	case 3: { static const size_t szs[] = {4096, 4097, 65535, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ul, 0x7fffffffffffffffl, ~0ul, ~0ul - 1};
		size_t z = szs[s.draw(10)]; int ty = 2 + s.draw(5); msg = raw(ty, 0, garbage(s, 4096), z); x.want = IPC_FAIL_; x.what = sfmt("type %d, size %zu", ty, z); break; }
	case 4: { static const uint32_t to[] = {1000001, 2000000, 0x7fffffff, 0x80000000u, 0xffffffffu}; int ty = 2 + s.draw(5); uint32_t v = to[s.draw(5)]; msg = raw(ty, v, "a", 1); x.want = IPC_FAIL_; x.what = sfmt("type %d, timeout %u", ty, v); break; }
	case 5: { // cut short
		std::string b = sfmt("%s = f24", kname(k.pool[0]).c_str());
		msg = raw(s.chance(50) ? IPC_BIND_ : 2 + s.draw(5), 0, s.chance(50) ? b : "x", s.chance(50) ? b.size() : 0);
		static const size_t cut[] = {0, 1, 4, 8, 12, 100, 4000, sizeof(Raw) - 9, sizeof(Raw) - 8, sizeof(Raw) - 1};
		msg.resize(s.chance(70) ? cut[s.draw(10)] : s.draw(sizeof(Raw)));
		complete = false; x.what = sfmt("the first %zu bytes of a request", msg.size());
		break; }
	case 6: msg = garbage(s, s.draw(2) ? s.draw(sizeof(Raw)) : s.draw(40)); complete = false; x.what = sfmt("%zu bytes of garbage", msg.size()); break;
	case 7: { msg = garbage(s, sizeof(Raw) + s.draw(3) * 100); int ty; memcpy(&ty, msg.data(), 4); if (ty >= 2 && ty <= 6) { ty = 9; memcpy(&msg[0], &ty, 4); } x.what = "garbage of full length"; x.want = IPC_FAIL_; break; }
	case 8: x.listener = true; msg = raw(IPC_LISTEN_, 0, "", 0); x.what = "listen"; break;
	case 9: msg = ""; complete = false; x.what = "nothing"; break;
	}
	x.answered = complete;
	if (s.chance(15)) { msg += raw(IPC_BIND_, 0, sfmt("%s = f24", kname(k.pool[0]).c_str()), 8); if (!complete && msg.size() >= sizeof(Raw)) msg.resize(sizeof(Raw) - 1); x.what += " and more"; }
	// how it is delivered
	std::vector<std::pair<long, std::string>> parts;        // us after the connection
	if (msg.size() > 1 && s.chance(25)) {
		int n = 2 + s.draw(4);
		bool slow = s.chance(40);
		long d = 0; size_t from = 0;
		for (int i = 0; i < n && from < msg.size(); i++) {
			size_t m = i == n - 1 ? msg.size() - from : s.draw(msg.size() - from + 1);
			parts.push_back({d, msg.substr(from, m)});
			from += m;
			d += slow ? 40000 + (long)s.draw(200000) : s.draw(20000);
		}
		if (parts.back().first > 150000) { x.answered = false; x.want = -1; }
		x.what += slow ? ", slowly in pieces" : ", in pieces";
	} else parts.push_back({s.chance(20) ? (long)s.draw(30000) : 0, msg});
	int ending = s.draw(4);         // 0 stays, 1 shuts down its side, 2 closes, 3 closes some time later
	long over = parts.back().first + (ending == 3 ? 1 + (long)s.draw(600000) : 0);
	x.reads = !s.chance(20);
	if (ending >= 2) { x.answered = false; x.what += ", then closes"; }
	else if (ending == 1) x.what += ", then shuts down";
	if (!x.reads) x.what += ", never reads";
	static const size_t caps[] = {0, 1, 100, 4000, 4112, 8000};
	size_t cap = x.reads ? 212992 : caps[s.draw(6)];
	bool early = ending >= 2 && s.chance(20);               // closed before the daemon looks
	ks::Conn **slot = new ks::Conn *(nullptr);
	ks::at(us(t), [slot, cap, rd = x.reads] { *slot = ks::connect(); (*slot)->cap = cap; (*slot)->greedy = rd; });
	for (auto &p : parts) { std::string b = p.second; ks::at(us(t) + p.first, [slot, b] { if (!(*slot)->closed) ks::send(*slot, b); }); }
	if (ending == 1) ks::at(us(t) + over, [slot] { (*slot)->eof = true; });
	if (ending >= 2) ks::at(us(t) + (early ? 0 : over), [slot] { ks::close_client(*slot); });
	x.con = (ks::Conn *)slot;       // resolved by conn()
	c.docf("%ld: a client sends %s\n", t, x.what.c_str());
	return x;
}
static ks::Conn *conn(const Client &x) { return *(ks::Conn **)x.con; }

static void judge(Ctx &c, const std::vector<Client> &v)
{
	for (auto &x : v) {
		ks::Conn *q = conn(x);
		if (!q) continue;
		if (!q->accepted) c.fail("ignored", sfmt("at %ld, %s: the connection was never accepted", x.at, x.what.c_str()));
		if (!x.listener && !q->srv_closed) c.fail("kept-open", sfmt("at %ld, %s: the daemon never closed the connection", x.at, x.what.c_str()));
		if (!x.answered || !x.reads || x.listener) continue;
		if (q->out.size() != sizeof(Raw)) c.fail("no-answer", sfmt("at %ld, %s: %zu bytes instead of a reply", x.at, x.what.c_str(), q->out.size()));
		int ty = reply_type(q);
		if (ty != IPC_SUCCESS_ && ty != IPC_FAIL_) c.fail("bad-answer", sfmt("at %ld, %s: reply of type %d", x.at, x.what.c_str(), ty));
		if (x.want >= 0 && ty != x.want) c.fail("bad-answer", sfmt("at %ld, %s: accepted", x.at, x.what.c_str()));
		Raw m; memcpy(&m, q->out.data(), sizeof m);
		if (ty == IPC_FAIL_ && (m.sz == 0 || m.sz >= sizeof m.data)) c.fail("bad-answer", sfmt("at %ld, %s: an error without a text (size %zu)", x.at, x.what.c_str(), m.sz));
	}
	if (ks::longest_block > 1000000) c.fail("blocked", sfmt("the daemon was blocked for %ld ms by a client", ks::longest_block / 1000));
}

// Keys which do not depend on the time.
static Profile prof_timeless()
{
	Profile p = prof_layers();
	p.p_macro_delay = 0; p.p_macro_opts = 0; p.p_oneshot_timeout = 0; p.p_tap_timeout = 0; p.chords = 0; p.p_chord_opts = 0;
	for (Kind x : {OVERLOADT, OVERLOADT2, OVERLOADI, TIMEOUT, LETTERMOD, MACRO, MACRO2}) p.w[x] = 0, p.nested[x] = 0;
	p.w2 = p.w;
	p.max_layers = 4; p.max_events = 30;
	return p;
}

static void requests(Ctx &c)
{
	enter();
	Profile p = prof_timeless();
	Case k = gen_case(c.src, p);
	for (int x : k.pool) if (linux_codes(x).empty()) c.discard("no such key on real devices");
	std::string text = render(k.cfg);
	if (!lines_ok(text)) c.discard("line too long");
	auto h = gen_history(c.src, p, k);
	// a proper bind in a quiet moment
	size_t cut = h.size();
	int bl = 0; Binding nb; std::string bexp;
	long bt = 0;
	if (c.src.chance(60)) {
		cut = c.src.draw(h.size());
		while (cut < h.size() && cut && h[cut].t == h[cut - 1].t) cut++;
		if (cut < h.size()) {
			bt = h[cut].t + 4500;
			for (size_t i = cut; i < h.size(); i++) h[i].t += 5000;
			bl = c.src.draw(k.cfg.layers.size());
			if (k.cfg.layers[bl].type == Layer::COMPOSITE) bl = 0;
			nb.keys = {k.pool[c.src.draw(k.pool.size())]};
			static const int to[] = {KEY_A, KEY_7, KEY_F13, KEY_KP1};
			nb.a.code = to[c.src.draw(4)];
			bexp = k.cfg.layers[bl].name + "." + render_binding(k.cfg, nb);
			c.docf("%ld: bind %s\n", bt, bexp.c_str());
		}
	}
	c.doc(text + "---\n" + show_history(h));
	Model m(k.cfg);
	for (size_t i = 0; i < h.size(); i++) {
		if (i == cut) m.rebind(bl, nb.keys[0], nb.a);
		m.key(h[i].code, h[i].pressed, h[i].t);
	}
	long end = h.back().t + 5000;
	m.advance(end);
	if (m.ambiguous()) c.discard("outside the specified domain: " + m.why());

	conf("a.conf", with_ids(text, "1234\n"));
	Dev *kb = ks::plug(keyboard());
	ks::Conn *good = nullptr, *bind = nullptr;
	ks::at(us(h[0].t - 5), [&] { good = ks::connect(); send_msg(good, IPC_LISTEN_, ""); });
	if (bexp.size()) ks::at(us(bt), [&] { bind = ks::connect(); send_msg(bind, IPC_BIND_, bexp); });
	long last = -1; int sub = 0;
	for (auto &e : h) {
		if (e.t != last) { last = e.t; sub = 0; }
		int lc = linux_codes(e.code)[0], v = e.pressed;
		ks::at(us(e.t) + 10 * sub++, [kb, lc, v] { ks::key(kb, lc, v); });
	}
	std::vector<Client> v;
	int n = 1 + c.src.draw(6);
	bool flood = c.src.chance(5);
	for (int i = 0; i < n; i++) {
		const In &e = h[c.src.draw(h.size())];
		long t = e.t - 1 + (long)c.src.draw(60);
		if (bexp.size() && t > bt - 1000 && t < bt + 400) t = bt - 1000;
		v.push_back(attack(c, k, t));
	}
	if (flood) {
		long t = h[c.src.draw(h.size())].t;
		int f = 20 + c.src.draw(40), how = c.src.draw(3);
		c.docf("%ld: %d clients connect at once, %s\n", t, f, how == 0 ? "listen and leave" : how == 1 ? "and close" : "with a bad request");
		for (int i = 0; i < f; i++) ks::at(us(t) + i, [how] {
			ks::Conn *q = ks::connect();
			if (how == 0) { send_msg(q, IPC_LISTEN_, ""); ks::at(ks::now() + 1000000, [q] { ks::close_client(q); }); }
			if (how == 1) ks::close_client(q);
			if (how == 2) send_msg(q, IPC_BIND_, "a = nofn()");
		});
	}
	ks::free_naps = true;
	must_finish(c, ks::run(us(end)));
	judge(c, v);
	if (bexp.size() && (!bind || reply_type(bind) != IPC_SUCCESS_)) c.fail("bind", "a proper bind was refused: " + (bind ? reply_text(bind) : ""));
	if (!good || good->srv_closed) c.fail("listener", "another client's connection was closed");
	bool unknown = false;
	for (auto &x : v) if (x.may_bind && (!conn(x) || !x.reads || !x.answered || reply_type(conn(x)) == IPC_SUCCESS_)) unknown = true;
	if (unknown) c.label("a bind may have been accepted");
	else {
		auto want = expect(m.trace()), got = observed();
		// later than without the clients, by what they may cost
		for (size_t i = 0; i < want.size() && i < got.size(); i++) if (got[i].t >= want[i].t && got[i].t <= want[i].t + 1000 * (n + 1)) got[i].t = want[i].t;
		std::string d = diff(want, got);
		if (!d.empty()) c.fail("events", d);
		c.nontrivial(want.size() >= 4);
	}
	if (!ks::virtual_down().empty()) { std::set<int> md; if (!unknown && m.down().empty()) c.fail("stuck", "keys are still down at the end"); }
	if (ks::longest_block > 1000) c.label("a client stalled");
	if (flood) c.label("flood");
}
static pbt::Reg r23({"C23", "requests", "a key history and hostile clients: malformed, oversized, truncated, dribbled, duplicated requests, clients which stall, close early, never read, or come by dozens; every complete request must be answered, none may change the keymap or hold up keys for more than a second; non-trivial: the keymap could be compared over at least 4 output events", 9000, 300000, true, requests, nullptr});

// Text and macros from clients, proper or not.
static void typing(Ctx &c)
{
	enter();
	conf("a.conf", "[ids]\n1234\n[main]\na = b\ncapslock = layer(nav)\n[nav]\nh = left\n");
	Dev *kb = ks::plug(keyboard());
	std::vector<std::pair<ks::Conn *, std::string>> cs;
	int n = 1 + c.src.draw(4);
	static std::vector<ks::Conn *> con;
	static std::vector<size_t> before, after;
	con.assign(n, nullptr); before.assign(n, 0); after.assign(n, 0);
	std::vector<int> types(n);
	std::vector<std::string> texts(n);
	long T = 1000;
	bool bytes = false;
	for (int i = 0; i < n; i++) {
		types[i] = c.src.chance(50) ? IPC_MACRO_ : IPC_INPUT_;
		std::string t;
		switch (c.src.draw(6)) {
		default: t = mutate(c.src, c.src.chance(50) ? "macro(a b C-x 10ms hello)" : "leftshift+a 5ms text", 1 + c.src.draw(4)); break;
		case 1: t = garbage(c.src, 1 + c.src.draw(60)); break;
		case 2: { static const int len[] = {256, 255, 257, 512, 1023, 4094, 4095}; t = garbage(c.src, len[c.src.draw(7)]); break; }
		case 3: { static const int len[] = {255, 256, 257, 300, 1300}; std::string u = c.src.chance(50) ? "a " : c.src.chance(50) ? "1ms " : "C-S-x "; for (int k = len[c.src.draw(5)]; k > 0 && t.size() < 4080; k--) t += u; break; }
		case 4: { static const char *w[] = {"", " ", "\n", "\n\n\n", "+", "++", "a+", "+a", "ms", "1ms", "99999ms", "-1ms", "macro(", "macro()", "a+b+c+d+e+f+g+h+i+j", "\xff", "\xc3", "\xf4\x90\x80\x80", "\xed\xa0\x80", "é+a", "C-é", "C-", "C-C-a"}; t = w[c.src.draw(sizeof w / sizeof *w)]; break; }
		case 5: for (int j = c.src.draw(12); j >= 0; j--) { static const char *w[] = {"a", "A", "é", "日", "😀", "\n", "\t", "\x01", "\x7f", "\xff", "\xc2", " ", "\xef\xbf\xbf"}; t += w[c.src.draw(13)]; } break;
		}
		if (t.size() > 4095) t.resize(4095);
		size_t sz = c.src.chance(85) ? t.size() : c.src.draw(4096);
		uint32_t to = c.src.chance(80) ? 0 : c.src.draw(500);
		texts[i] = sfmt("%s (%zu bytes, timeout %u) <", types[i] == IPC_MACRO_ ? "macro" : "input", sz, to) + t.substr(0, 300) + ">";
		c.docf("%ld: %s\n", T, texts[i].c_str());
		for (unsigned char ch : t) bytes |= ch >= 0x80 || ch < 32;
		std::string msg = raw(types[i], to, t, sz);
		ks::at(us(T), [i, msg] { before[i] = ks::out.size(); con[i] = ks::connect(); ks::send(con[i], msg); });
		ks::at(us(T + 600), [i] { after[i] = ks::out.size(); });
		T += 700;
	}
	// the keyboard works all along
	size_t probe = 0;
	ks::at(us(T + 100), [&] { probe = ks::out.size(); ks::key(kb, KEY_CAPSLOCK, 1); });
	ks::at(us(T + 110), [&] { ks::key(kb, KEY_H, 1); ks::key(kb, KEY_H, 0); });
	ks::at(us(T + 120), [&] { ks::key(kb, KEY_CAPSLOCK, 0); ks::key(kb, KEY_A, 1); ks::key(kb, KEY_A, 0); });
	ks::free_naps = true;
	must_finish(c, ks::run(us(T + 1000)));
	bool some = false;
	for (int i = 0; i < n; i++) {
		ks::Conn *q = con[i];
		if (!q->srv_closed) c.fail("kept-open", texts[i] + ": the daemon never closed the connection");
		if (q->out.size() != sizeof(Raw)) c.fail("no-answer", texts[i] + sfmt(": %zu bytes instead of a reply", q->out.size()));
		int ty = reply_type(q);
		if (ty != IPC_SUCCESS_ && ty != IPC_FAIL_) c.fail("bad-answer", texts[i] + sfmt(": reply of type %d", ty));
		if (ty == IPC_FAIL_ && types[i] == IPC_MACRO_ && after[i] != before[i]) c.fail("effect", texts[i] + ": refused, but something was typed");
		some |= after[i] != before[i];
	}
	std::vector<std::pair<int, int>> got, want = {{KEY_LEFT, 1}, {KEY_LEFT, 0}, {KEY_B, 1}, {KEY_B, 0}};
	for (size_t i = probe; i < ks::out.size(); i++) if (ks::out[i].type == EV_KEY && !ks::out[i].same) got.push_back({ks::out[i].code, ks::out[i].value});
	if (got != want) c.fail("keyboard", "after the requests the keyboard does not work:\n" + ks::show(ks::out, probe));
	if (!ks::virtual_down().empty()) c.failf("stuck", "key %d is still down", *ks::virtual_down().begin());
	if (!ks::refused.empty()) c.fail("unknown-code", "the virtual device cannot send " + ks::show(ks::refused[0]));
	if (bytes) c.label("special bytes");
	c.nontrivial(some);
}
static pbt::Reg r23b({"C23", "typing", "macro and input requests with mutated, oversized, malformed and invalid UTF-8 text, sizes which disagree with the text; each must be answered, none may leave a key down, and the keyboard must work afterwards; non-trivial: something was typed", 6000, 200000, true, typing, nullptr});

// ---------------------------------------------------------------- C19: several keyboards
static void keyboards(Ctx &c)
{
	enter();
	Src &s = c.src;
	Profile p = prof_timeless();
	p.max_events = 14;
	int nu = 1 + s.draw(3);
	std::vector<Case> k;
	std::vector<std::unique_ptr<Model>> m;
	std::vector<Dev *> dev;
	for (int i = 0; i < nu; i++) {
		k.push_back(gen_case(s, p));
		for (int x : k[i].pool) if (linux_codes(x).empty()) c.discard("no such key on real devices");
	}
	for (int i = 0; i < nu; i++) {
		std::string text = render(k[i].cfg);
		if (!lines_ok(text)) c.discard("line too long");
		conf(sfmt("c%d.conf", i), with_ids(text, sfmt("1234:%04x\n", 0x10 + i)));
		c.docf("=== keyboard %d\n%s\n", i, text.c_str());
		m.push_back(std::make_unique<Model>(k[i].cfg));
		dev.push_back(ks::plug(keyboard(sfmt("kbd%d", i), 0x10 + i)));
	}
	struct Bind { std::string text; bool ok; long t; ks::Conn *con = nullptr; };
	static std::deque<Bind> binds;
	binds.clear();
	std::vector<Ev> all;
	std::vector<size_t> seen(nu, 0);
	int some = 0, every = 0, resets = 0;
	long T = 70000;
	int phases = 2 + s.draw(5);
	bool used = false;
	for (int ph = 0; ph < phases; ph++) {
		int nb = ph ? s.draw(4) : s.draw(2);
		for (int j = 0; j < nb; j++) {
			Bind b;
			b.t = T; T += 20;
			if (s.chance(20)) { b.text = "reset"; b.ok = true; for (auto &x : m) x->reset_bindings(); resets++; }
			else {
				// a layer which some of them have
				const Cfg &o = k[s.draw(nu)].cfg;
				const Layer &l = o.layers[s.chance(40) ? 0 : s.draw(o.layers.size())];
				Binding nbd;
				const Case &kc = k[s.draw(nu)];
				nbd.keys = {kc.pool[s.draw(kc.pool.size())]};
				static const int to[] = {KEY_A, KEY_7, KEY_F13, KEY_KP1};
				std::string target;
				if (s.chance(40)) { const Layer &tl = o.layers[1 + s.draw(o.layers.size() - 1)]; target = tl.name; }
				else { nbd.a.k = spec::KEY; nbd.a.code = to[s.draw(4)]; }
				Kind tk = s.chance(50) ? LAYER : TOGGLE;
				int acc = 0;
				std::vector<std::function<void()>> todo;
				for (int i = 0; i < nu; i++) {
					int li = k[i].cfg.find(l.name), ti = target.empty() ? -1 : k[i].cfg.find(target);
					if (ti >= 0 && k[i].cfg.layers[ti].type != Layer::NORMAL) c.discard("target of another kind");
					if (li < 0 || (!target.empty() && ti < 0)) continue;
					acc++;
					Binding x = nbd;
					if (ti >= 0) { x.a = Action(); x.a.k = tk; x.a.layer = ti; }
					todo.push_back([&m, i, li, x] { m[i]->rebind(li, x.keys[0], x.a); });
				}
				Binding x = nbd;
				if (!target.empty()) { x.a = Action(); x.a.k = tk; x.a.layer = o.find(target); }
				if (s.chance(8)) { x.a = Action(); x.a.k = spec::KEY; x.a.code = KEY_A; b.text = l.name + "." + render_binding(o, x) + "zzz"; acc = 0; todo.clear(); }
				else b.text = (l.name == "main" && s.chance(50) ? "" : l.name + ".") + render_binding(o, x);
				for (auto &f : todo) f();
				b.ok = acc > 0;
				if (acc) every += acc == nu, some += acc < nu;
			}
			c.docf("%ld: bind %s -> %s\n", b.t, b.text.c_str(), b.ok ? "accepted" : "refused");
			binds.push_back(b);
		}
		for (int q = 0; q < nu; q++) {
			int i = s.chance(80) ? q : (int)s.draw(nu);
			auto h = gen_history(s, p, k[i]);
			long d = T + 20 - h[0].t;
			for (auto &e : h) e.t += d;
			c.docf("keyboard %d\n", i);
			c.doc(show_history(h));
			long last = -1; int sub = 0;
			for (auto &e : h) {
				m[i]->key(e.code, e.pressed, e.t);
				if (e.t != last) { last = e.t; sub = 0; }
				int lc = linux_codes(e.code)[0], v = e.pressed;
				Dev *dv = dev[i];
				ks::at(us(e.t) + 10 * sub++, [dv, lc, v] { ks::key(dv, lc, v); });
			}
			T = h.back().t + 20;
			m[i]->advance(T - 1);
			if (m[i]->ambiguous()) c.discard("outside the specified domain: " + m[i]->why());
			all.insert(all.end(), m[i]->trace().begin() + seen[i], m[i]->trace().end());
			seen[i] = m[i]->trace().size();
			used = true;
		}
	}
	for (auto &b : binds) { Bind *bp = &b; ks::at(us(b.t) + 500, [bp] { bp->con = ks::connect(); send_msg(bp->con, IPC_BIND_, bp->text); }); }
	ks::free_naps = true;
	must_finish(c, ks::run(us(T + 100)));
	for (auto &b : binds) {
		int want = b.ok ? IPC_SUCCESS_ : IPC_FAIL_;
		if (!b.con || reply_type(b.con) != want) c.fail("reply", sfmt("bind %s must be %s: %s", b.text.c_str(), b.ok ? "accepted" : "refused", b.con ? reply_text(b.con).c_str() : "no reply"));
	}
	std::string d = diff(expect(all), observed());
	if (!d.empty()) c.fail("events", d);
	if (some) c.label("valid for some keyboards only");
	if (every && nu > 1) c.label("valid for all of several keyboards");
	if (resets) c.label("reset");
	c.nontrivial(used && nu > 1 && (every || some));
}
static pbt::Reg r19c({"C19", "keyboards", "1-3 keyboards with configurations of their own; bindings and resets over the control socket between key histories on each; a binding takes effect on every keyboard whose configuration can take it, is refused iff none can; non-trivial: several keyboards and an accepted binding", 6000, 200000, true, keyboards, nullptr});
