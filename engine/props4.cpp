// Arbitrary configuration files, typed text, the compose table, shipped layouts, key names.
#include <sstream>
#include <fstream>
#include <algorithm>
#include "decode.h"
#include "props.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace spec;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;
typedef std::vector<std::string> Lines;

static void chdir_scratch()
{
	static bool done;
	if (!done && chdir(pbt::scratch().c_str())) _Exit(3);
	done = true;
}
static void put(const std::string &path, const std::string &text)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); _Exit(3); }
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}
static std::string slurp(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static bool complained(const std::string &log) { return log.find("WARNING") != std::string::npos || log.find("ERROR") != std::string::npos; }

// ---------------------------------------------------------------- C15
static const std::vector<std::string> DICT = {
	"[ids]", "[main]", "[global]", "[aliases]", "[", "]", "=", " = ", "(", ")", ",", "\\", "\n", "\r\n", "\r", "\t", " ", "#", "*", "+", "-", ":", ".",
	"include ", "include c.conf\n", "include inc\n", "include ../../x\n", "layer(", "overload(", "overloadt(", "overloadt2(", "overloadi(", "timeout(", "oneshot(", "toggle(", "swap(",
	"clear()", "clearm(", "setlayout(", "macro(", "macro2(", "command(", "lettermod(", "scroll(", "scrollt(", "scroll(0)", "swapm(", "togglem(", "layerm(", "oneshotm(", "oneshotk(", "overload2(", "overload3(", "toggle2(", "swap2(", "reset",
	"control", "shift", "meta", "alt", "altgr", "leftshift", "rightalt", "noop", "main", "nolayer", "a", "b", "esc", "leftmouse", "scrollup", "f24",
	"C-", "S-", "M-", "A-", "G-", "C", "C-S-M-A-G-", "Z-", ":C", ":layout", ":S-", ":-", "[control+shift]", "[control+control]", "[+]", "[a+]", "[main+shift]", "[x:layout+y]",
	"0", "1", "-1", "65535", "65536", "2147483647", "2147483648", "4294967295", "99999999999999999999", "0x10", "1e3", "ms", "100ms", "0ms",
	"macro_timeout", "macro_repeat_timeout", "macro_sequence_timeout", "layer_indicator", "oneshot_timeout", "overload_tap_timeout", "chord_timeout", "chord_hold_timeout", "disable_modifier_guard", "default_layout", "chord_interkey_timeout",
	"k:", "m:", "k:*", "0123:4567", "-0123:4567", "0123:4567:89abcdef", "-*", "-",
	"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\x80", std::string(1, '\0'), "\xef\xbb\xbf", "\\(", "\\)", "\\n", "\\\\",
	"a+b", "a+b+c+d+e+f+g+h+i", "a+a", "+a", "a+", "macro(a+b+c)", "macro(50ms)", "macro(a+50ms+b)", "macro()", "macro(macro(a))", "main.a", "a.b", ".", "..", "nolayer.a"};

static std::string huge(Src &s)
{
	// constructions at or beyond the documented and undocumented limits
	static const int LIM[] = {1, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 4095, 4096, 5000};
	int n = LIM[s.draw(25)] + s.range(-1, 1);
	if (n < 0) n = 0;
	auto rep = [&](const std::string &x, int k) { std::string r; for (int i = 0; i < k; i++) r += x; return r; };
	auto num = [&](const char *f, int k) { std::string r; for (int i = 0; i < k; i++) r += sfmt(f, i, i, i); return r; };
	switch (s.draw(31)) {
	case 0: return "[main]\na = " + rep("x", n) + "\n";
	case 1: return "[main]\n" + rep("x", n) + " = a\n";
	case 2: return "[" + rep("x", n) + "]\na = b\n";
	case 3: return "[main]\na = macro(" + rep("a", n) + ")\n";
	case 4: return "[main]\na = macro(" + rep("a ", n) + ")\n";
	case 5: return "[main]\na = macro(" + rep("a+", n) + "a)\n";
	case 6: return "[main]\na = command(" + rep("x", n) + ")\n";
	case 7: return "[main]\na = " + rep("overload(shift, ", n % 600) + "b" + rep(")", n % 600) + "\n";
	case 8: return "[main]\na = " + rep("timeout(a, 1, ", n % 600) + "b" + rep(")", n % 600) + "\n";
	case 9: return num("[l%d]\na = b\n", n % 300);
	case 10: return num("[l%d:layout]\na = layer(l%d)\n", n % 300);
	case 11: return "[main]\n" + num("a = macro(a b%d)\n", n);
	case 12: return "[main]\n" + num("a = command(x%d)\n", n);
	case 13: return "[main]\n" + num("a = overload(shift, macro(x y%d))\n", n);
	case 14: return "[main]\n" + num("a = timeout(a, %d, overload(shift, b))\n", n);
	case 15: { std::string r = "[main]\n"; const auto &t = keytab(); for (int i = 0; i < n && i < 3000; i++) r += std::string(t[i % 60].name) + "+" + t[(i / 60 + 61) % t.size()].name + " = a\n"; return r; }
	case 16: { std::string r = "[main]\n"; const auto &t = keytab(); for (int i = 0; i < n % 40; i++) r += std::string(i ? "+" : "") + t[(40 + i) % t.size()].name; return r + " = a\n"; }
	case 17: return "[ids]\n" + num("%04x:%04x\n", n);
	case 18: return "[ids]\n" + rep("x", n) + "\n-" + rep("y", n) + "\n";
	case 19: return "[aliases]\na = " + rep("x", n) + "\n[main]\n" + rep("x", n) + " = b\n";
	case 20: return "[aliases]\n" + num("a = x%d\n", n);
	case 21: return "[global]\n" + rep("x", n) + " = 5\ndefault_layout = " + rep("y", n) + "\n";
	case 22: return rep("\n", n) + "[main]\na = nosuch" + rep("z", n % 300) + "\n";
	case 23: return rep("x", n);
	case 24: return "[ids]\n*\n[main]\n" + rep("include inc\n", n % 100);
	case 25: return "include " + rep("x", n) + "\n";
	case 26: return "[main]\na = overload(" + rep("x", n) + ", b)\n";
	case 27: return "[main]\na = layer(" + rep("a, ", n % 300) + "b)\n";
	case 28: { std::string h = "[shift"; for (int i = 0; i < n % 40; i++) h += std::string("+") + (i & 1 ? "control" : "alt"); return h + "]\na = b\n"; }
	case 29: return "[main]\na = macro(" + rep("\xc3\xa9", n) + ")\nb = " + rep("\xc3\xa9", n % 5) + "\n";
	default: return rep("[main]\na = b\n", n);
	}
}

std::string mutate(pbt::Src &s, std::string t, int n)
{
	for (int i = 0; i < n; i++) {
		size_t p = s.draw(t.size() + 1), q = p + s.draw(12);
		if (q > t.size()) q = t.size();
		switch (s.weighted({30, 15, 15, 10, 10, 8, 4})) {
		case 0: t.insert(p, DICT[s.draw(DICT.size())]); break;
		case 1: t.erase(p, q - p); break;
		case 2: t.replace(p, q - p, DICT[s.draw(DICT.size())]); break;
		case 3: if (p < t.size()) t[p] = (char)s.draw(256); break;
		case 4: { size_t o = s.draw(t.size() + 1); t.insert(o, t.substr(p, s.draw(300))); break; }
		case 5: t.insert(p, std::string(s.draw(300), (char)(s.chance(50) ? 'a' + s.draw(26) : s.draw(256)))); break;
		case 6: t.resize(p); break;
		}
		if (t.size() > 300000) t.resize(300000);
	}
	return t;
}

static void any_config(Ctx &c, const std::string &text, const Case *k, const std::string &inc)
{
	chdir_scratch();
	mkdir("data", 0755);
	put("data/inc", inc);
	put("c.conf", text);
	sh_log_begin();
	sh_eng *e = sh_load("c.conf");
	std::string log = sh_log_end();
	unlink("data/inc");
	if (!e) {
		c.label("refused");
		if (log.empty() && !*sh_err()) c.fail("silent", "refused without any error message");
		return;
	}
	sh_free(e);
	c.label(complained(log) ? "accepted with complaints" : "accepted cleanly");
	c.nontrivial();
	Real r;
	if (!r.load_path("c.conf")) c.fail("undecided", "accepted and then refused");
	static const char *ids[] = {"0123:4567:89abcdef", "", "ffff:ffff:00000000", "0123:4567", "k:"};
	for (auto id : ids) for (unsigned f : {1, 2, 3, 4, 7, 0xff}) sh_match(r.eng(), id, f);
	r.start();
	std::vector<int> pool = k ? k->pool : std::vector<int>{30, 48, 46, 32, 1, 42, 29, 2, 3};
	long t = 5000;
	int n = 10 + c.src.draw(60);
	for (int i = 0; i < n; i++) {
		t += c.src.chance(20) ? c.src.draw(1500) : c.src.draw(60);
		int code = c.src.chance(75) ? pool[c.src.draw(pool.size())] : 1 + c.src.draw(255);
		r.key(code, c.src.chance(60), t);
		if (c.src.chance(3)) r.bind(mutate(c.src, "shift.a = overload(control, macro(x y))", c.src.draw(3)));
		if (c.src.chance(1)) r.bind("reset");
	}
	// a macro left repeating would go on for ever: any key event stops it
	for (int code = 1; code < 256; code++) r.key(code, 0, t + 1);
	r.advance(t + 3000);
}

static pbt::Reg r15a({"C15", "mutated", "generated configurations mutated with a dictionary and bytes, loaded, matched against ids and driven with keys; non-trivial: the file was accepted", 26000, 900000, false,
	[](Ctx &c) {
		Profile p = prof_all();
		p.chords = 2; p.p_macro_opts = 20; p.p_default_layout = 20;
		Case k = gen_case(c.src, p);
		std::string t = render(k.cfg);
		t = mutate(c.src, t, c.src.draw(12));
		std::string inc = c.src.chance(20) ? mutate(c.src, "[main]\na = b\ninclude inc\n", c.src.draw(6)) : "";
		if (c.src.chance(10)) t += huge(c.src);
		c.doc(t.size() < 20000 ? t : t.substr(0, 20000) + "...");
		any_config(c, t, &k, inc);
	}, nullptr});

static pbt::Reg r15b({"C15", "limits", "files built to sit at and beyond every size limit (line, name, sections, entries, layers, chords, macros, commands, ids, nesting); non-trivial: accepted", 9000, 200000, false,
	[](Ctx &c) {
		std::string t = c.src.chance(80) ? "[ids]\n*\n" : "";
		int n = 1 + c.src.draw(4);
		for (int i = 0; i < n; i++) t += huge(c.src);
		if (c.src.chance(40)) t = mutate(c.src, t, 1 + c.src.draw(4));
		std::string inc = c.src.chance(40) ? huge(c.src) : "";
		if (c.src.chance(20)) t += "include inc\n";
		c.doc(t.size() < 3000 ? t : t.substr(0, 3000) + sfmt("... (%zu bytes, hash %llx)", t.size(), (unsigned long long)pbt::fnv(t)));
		any_config(c, t, nullptr, inc);
	}, nullptr});

static pbt::Reg r15c({"C15", "tokens", "files made of nothing but random dictionary words and bytes; non-trivial: accepted", 14000, 400000, false,
	[](Ctx &c) {
		std::string t = c.src.chance(70) ? "[ids]\n*\n[main]\n" : "";
		int n = c.src.draw(120);
		for (int i = 0; i < n; i++) {
			if (c.src.chance(8)) t += (char)c.src.draw(256);
			else t += DICT[c.src.draw(DICT.size())];
			if (c.src.chance(25)) t += "\n";
		}
		c.doc(t);
		any_config(c, t, nullptr, "");
	}, nullptr});

// ---------------------------------------------------------------- C28 (macros)
static const std::vector<std::string> &chars()
{
	static std::vector<std::string> v;
	if (v.empty()) for (auto &x : Decoder::by_char()) v.push_back(x.first);
	return v;
}

void warm_chars() { chars(); }
static bool key_name(const std::string &t)
{
	for (auto &r : keytab()) if (t == r.name || (r.alt && t == r.alt) || (r.shifted && t == r.shifted)) return true;
	return false;
}
// A token which can mean nothing but plain text.
bool plain_text(const std::string &w)
{
	if (w.empty() || w.find('+') != std::string::npos) return false;
	size_t p = 0;
	while (p + 1 < w.size() && w[p + 1] == '-' && strchr("CMASG", w[p])) p += 2;
	if (p && (key_name(w.substr(p)))) return false;
	if (w.size() > 1 && key_name(w)) return false;
	size_t d = 0;
	while (d < w.size() && isdigit((unsigned char)w[d])) d++;
	if (d && w.substr(d) == "ms") return false;
	return true;
}

std::string gen_char(pbt::Src &s, bool *foreign)
{
	switch (s.weighted({50, 25, 10, 10, foreign ? 5 : 0})) {
	case 0: return std::string(1, "etaoinshrdlucmfwypvbgkjqxz"[s.draw(26)]);
	case 1: { char c; do c = (char)(33 + s.draw(94)); while (c == '+'); return std::string(1, c); }
	case 2: return chars()[s.draw(200)];
	case 3: return chars()[s.draw(chars().size())];
	default: {
		uint32_t cp;
		do cp = 0x80 + s.draw(0x10FFFF - 0x80); while ((cp >= 0xD800 && cp < 0xE000) || Decoder::by_char().count(utf8(cp)));
		*foreign = true;
		return utf8(cp);
	}
	}
}

static Decoder *g_dec;
static void dec_out(uint8_t code, uint8_t st) { g_dec->key(code, st); }

static pbt::Reg r28a({"C28", "macro-text", "random words over ASCII and supported (and some unsupported) Unicode, typed by a macro as 'keyd do' and bindings do, decoded again with a US layout and the compose file; non-trivial: at least one non-ASCII and one shifted character", 60000, 2500000, false,
	[](Ctx &c) {
		chdir_scratch();
		std::string text, want;
		int nw = 1 + c.src.draw(4);
		bool foreign = false, uni = false, shifted = false;
		for (int i = 0; i < nw; i++) {
			std::string w, x;
			int n = 1 + c.src.draw(10);
			for (int j = 0; j < n; j++) {
				bool f = false;
				std::string ch = gen_char(c.src, &f);
				w += ch;
				if (!f) x += ch;
				foreign |= f; uni |= ch.size() > 1 && !f;
				shifted |= ch.size() == 1 && (isupper((unsigned char)ch[0]) || strchr("!@#$%^&*()_{}|:\"<>?~", ch[0]));
			}
			if (!plain_text(w)) c.discard("not plain text");
			text += (i ? " " : "") + w;
			want += x;
			if (c.src.chance(20)) { text += " space"; want += ' '; }
			if (c.src.chance(5)) { text += " enter"; want += '\n'; }
			if (c.src.chance(5)) { text += " tab"; want += '\t'; }
		}
		c.doc(text + "\n");
		c.nontrivial(uni && shifted);
		if (foreign) c.label("unsupported characters");
		bool binding = c.src.chance(50);
		Decoder d;
		if (!binding) {
			g_dec = &d;
			if (sh_macro(text.c_str(), dec_out, 0)) c.fail("refused", std::string("macro refused: ") + sh_err());
		} else {
			c.label("through a binding");
			std::string e;
			for (char ch : text) { if (strchr("()\\", ch)) e += '\\'; e += ch; }
			std::string key = c.src.chance(50) ? "f13" : "shift";
			bool in_layer = c.src.chance(40);
			std::string cfg = "[ids]\n*\n[main]\n";
			std::string body = "f13 = " + std::string(c.src.chance(30) ? "overload(shift, macro(" + e + "))" : "macro(" + e + ")") + "\n";
			if (in_layer) cfg += "f14 = layer(mods)\n[mods:" + std::string(c.src.chance(50) ? "S" : "C-A") + "]\n";
			cfg += body;
			if (body.size() > 250) c.discard("line too long");
			c.doc(cfg);
			Real r;
			r.want_log = true;
			if (!r.load(cfg) || complained(r.log)) c.fail("refused", "binding refused: " + r.log);
			r.start();
			if (in_layer) r.key(184, 1, 6000);
			r.key(183, 1, 6010); r.key(183, 0, 6020);
			if (in_layer) { r.key(184, 0, 6100); }
			r.advance(7000);
			for (auto &ev : r.out) if (ev.k == Ev::KEY) {
				// the layer's own modifiers are put back around the macro and are not text
				d.key(ev.code, ev.state);
			}
		}
		if (!d.ok) c.fail("stream", d.why);
		if (!d.held_clean()) c.fail("stuck", "keys left down after typing");
		if (d.text != want) c.fail("text", "typed    : " + want + "\narrives as: " + d.text);
	}, nullptr});

// ---------------------------------------------------------------- C29
static std::vector<std::pair<int, int>> g_seqkeys;
static void seq_out(uint8_t code, uint8_t st) { g_seqkeys.push_back({code, st}); }
static const std::set<uint32_t> &unicode_txt()
{
	static std::set<uint32_t> s;
	if (s.empty()) {
		std::ifstream f(repo() + "/data/unicode.txt");
		std::string l;
		while (std::getline(f, l)) {
			uint32_t cp = strtoul(l.c_str(), nullptr, 16);
			if (cp >= 128 && !(cp >= 0xD800 && cp < 0xE000)) s.insert(cp);
		}
	}
	return s;
}

static pbt::Reg r29({"C29", "every-code-point", "every code point U+0000..U+10FFFF (in blocks of 256): the keys typed for it against the shipped compose file and character list; non-trivial: block with supported characters", 0, 0, false,
	[](Ctx &c) {
		uint32_t block = c.src.draw(0x1100);
		c.docf("U+%06X..U+%06X", block * 256, block * 256 + 255);
		if (!Decoder::compose_error().empty()) c.fail("compose-file", Decoder::compose_error());
		int sup = 0;
		for (uint32_t cp = block * 256; cp < block * 256 + 256; cp++) {
			if (cp < 128 || (cp >= 0xD800 && cp < 0xE000)) continue;
			std::string ch = utf8(cp);
			auto it = Decoder::by_char().find(ch);
			bool listed = unicode_txt().count(cp);
			if (listed != (it != Decoder::by_char().end())) c.failf("compose-file", "U+%04X %s", cp, listed ? "is missing from the compose file" : "should not be in the compose file");
			g_seqkeys.clear();
			int r = sh_macro(ch.c_str(), seq_out, 0);
			if (!listed) {
				if (!g_seqkeys.empty()) c.failf("unsupported", "U+%04X is not in the table, but keys are typed for it", cp);
				continue;
			}
			sup++;
			std::vector<std::pair<int, int>> want;
			std::string seq = it->second;
			auto tap = [&](int code) { want.push_back({code, 1}); want.push_back({code, 0}); };
			tap(223);
			for (char x : seq) for (auto &row : keytab()) if (row.name == std::string(1, x)) tap(row.code);
			if (r || g_seqkeys != want) {
				std::string got;
				for (auto &k : g_seqkeys) if (k.second) got += kname(k.first) + " ";
				c.failf("sequence", "U+%04X (%s): compose file says cancel %s, keyd types %s", cp, ch.c_str(), seq.c_str(), got.c_str());
			}
		}
		c.nontrivial(sup > 0);
		if (sup) c.label("block with supported characters");
	}, [] { return 0x1100L; }});

// The generator of both tables, on other character lists.
static pbt::Reg r29g({"C29", "generator", "scripts/generate_xcompose on random parts of the character list (when thorough, also on all of it, which must give the committed files): the compose file and the compiled C table it writes must agree; non-trivial: more than 36 characters", 150, 3000, false,
	[](Ctx &c) {
		chdir_scratch();
		std::string dir = pbt::scratch() + "/gen";
		for (const char *d : {"", "/data", "/src"}) mkdir((dir + d).c_str(), 0700);
		std::string all = slurp(repo() + "/data/unicode.txt"), text;
		bool whole = pbt::tier_thorough() && c.src.chance(3);    // takes a minute
		std::set<uint32_t> want;
		unsigned keep = 1 + c.src.draw(99);
		unsigned seed = c.src.draw(1 << 20);
		int stop = (int)c.src.draw(2000);
		for (size_t p = 0; p < all.size() && (whole || (int)want.size() < stop);) {
			size_t q = all.find('\n', p);
			if (q == std::string::npos) q = all.size();
			std::string l = all.substr(p, q - p);
			p = q + 1;
			seed = seed * 1103515245 + 12345;
			if (!whole && (seed >> 16) % 100 >= keep) continue;
			text += l + "\n";
			uint32_t cp = strtoul(l.c_str(), nullptr, 16);
			if (cp >= 128 && !(cp >= 0xD800 && cp < 0xE000)) want.insert(cp);
		}
		if (!whole && c.src.chance(30)) text += "\n# junk\n";
		{ std::ofstream f(dir + "/data/unicode.txt", std::ios::binary); f << text; }
		unlink((dir + "/data/keyd.compose").c_str()); unlink((dir + "/src/unicode.c").c_str());
		c.docf("%zu characters%s\n", want.size(), whole ? " (the whole list)" : "");
		if (system(("cd " + dir + " && python3 " + repo() + "/scripts/generate_xcompose >/dev/null 2>err").c_str())) c.fail("script", "the generator fails: " + slurp(dir + "/err"));
		// the compose file
		std::map<uint32_t, std::string> seqs;
		{
			std::ifstream f(dir + "/data/keyd.compose");
			std::string l;
			std::map<std::string, uint32_t> by;
			std::set<std::string> dist;
			for (uint32_t w : want) by[utf8(w)] = w;
			while (std::getline(f, l)) {
				// <Cancel> <a> <b> <c> : "x"
				if (l.size() < 26 || l.compare(0, 9, "<Cancel> ") || l.compare(20, 4, " : \"") || l.back() != '"' || l[9] != '<' || l[13] != '<' || l[17] != '<') c.fail("compose-file", "malformed line: " + l);
				auto it = by.find(l.substr(24, l.size() - 25));
				if (it == by.end()) c.fail("compose-file", "a character which is not listed: " + l);
				std::string sq = {l[10], l[14], l[18]};
				if (!seqs.emplace(it->second, sq).second || !dist.insert(sq).second) c.fail("compose-file", "defined twice: " + l);
			}
			if (seqs.size() != want.size()) c.failf("compose-file", "%zu definitions for %zu characters", seqs.size(), want.size());
			if (whole && slurp(dir + "/data/keyd.compose") != slurp(repo() + "/data/keyd.compose")) c.fail("committed", "data/keyd.compose is not what the generator writes");
		}
		// the C table
		{ std::ofstream f(dir + "/src/main.c"); f << "#include <stdio.h>\n#include <stdint.h>\nint unicode_lookup_index(uint32_t); void unicode_get_sequence(int, uint8_t[4]);\nint main() { unsigned c; while (scanf(\"%u\", &c) == 1) { int i = unicode_lookup_index(c); uint8_t k[4] = {0}; if (i >= 0) unicode_get_sequence(i, k); printf(\"%u %d %d %d %d\\n\", c, i < 0 ? -1 : k[0], k[1], k[2], k[3]); } return 0; }\n"; }
		std::vector<uint32_t> ask;
		for (uint32_t w : want) if (want.size() < 3000 || (seed = seed * 1103515245 + 12345, (seed >> 16) % 10 == 0)) { ask.push_back(w); ask.push_back(w + 1); ask.push_back(w - 1); }
		if (want.size()) { ask.push_back(*want.begin()); ask.push_back(*want.rbegin()); }
		for (uint32_t x : {0u, 65u, 127u, 128u, 0x10FFFFu}) ask.push_back(x);
		{ std::ofstream f(dir + "/ask"); for (uint32_t x : ask) f << x << "\n"; }
		if (system(("cd " + dir + " && gcc -O1 -w -iquote " + repo() + "/src -o gen src/main.c src/unicode.c 2>err && ./gen <ask >answers").c_str())) c.fail("table", "the generated table does not compile: " + slurp(dir + "/err"));
		std::ifstream f(dir + "/answers");
		size_t n = 0;
		long cp, k[4];
		while (f >> cp >> k[0] >> k[1] >> k[2] >> k[3]) {
			n++;
			auto it = seqs.find(cp);
			if (it == seqs.end()) { if (k[0] != -1) c.failf("unsupported", "U+%04lX is not listed but has a sequence", cp); continue; }
			std::string got;
			for (int i = 1; i < 4; i++) got += kname(k[i]);
			if (k[0] != 223 || got != it->second) c.failf("sequence", "U+%04lX: compose file says cancel %s, the table says %s %s", cp, it->second.c_str(), k[0] < 0 ? "none" : kname(k[0]).c_str(), got.c_str());
		}
		if (n != ask.size()) c.fail("table", "the table program ended early");
		if (whole) c.label("the whole list");
		c.nontrivial(want.size() > 36);
	}, nullptr});

// ---------------------------------------------------------------- C34
static Lines list_dir(const std::string &d)
{
	Lines v;
	DIR *dh = opendir(d.c_str());
	if (dh) {
		while (dirent *e = readdir(dh)) if (e->d_name[0] != '.') v.push_back(e->d_name);
		closedir(dh);
	}
	std::sort(v.begin(), v.end());
	return v;
}
static const Lines &layouts() { static Lines v = list_dir(repo() + "/layouts"); return v; }
static const Lines &examples() { static Lines v = list_dir(repo() + "/examples"); return v; }

// The four tables of a layout file, read independently.
struct LayoutFile { std::map<int, std::string> main, shift, altgr, both; std::string err; std::string name; };
static int code_of(const std::string &n)
{
	for (auto &r : keytab()) if (n == r.name || (r.alt && n == r.alt)) return r.code;
	return 0;
}
static LayoutFile read_layout(const std::string &path, const std::string &name)
{
	LayoutFile f; f.name = name;
	std::ifstream in(path);
	std::string l;
	std::map<int, std::string> *cur = nullptr;
	while (std::getline(in, l)) {
		while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
		if (l.empty() || l[0] == '#') continue;
		size_t a;
		if (l[0] == '[' && l.size() > 4 && l[1] != ' ') {
			if (l == "[" + name + ":layout]") cur = &f.main;
			else if (l == "[" + name + "_shift:S]") cur = &f.shift;
			else if (l == "[" + name + "_altgr:G]") cur = &f.altgr;
			else if (l == "[" + name + "_altgr+" + name + "_shift]" || l == "[" + name + "_shift+" + name + "_altgr]") cur = &f.both;
			else { f.err = "unexpected heading " + l; return f; }
			continue;
		}
		a = l.find('=', 1);
		if (!cur || a == std::string::npos) { f.err = "unexpected line " + l; return f; }
		std::string k = l.substr(0, a), v = l.substr(a + 1);
		while (!k.empty() && isspace((unsigned char)k.back())) k.pop_back();
		while (!v.empty() && v[0] == ' ') v.erase(0, 1);
		if (v.empty()) continue;         // no binding at this level
		if (k == "shift") { (*cur)[42] = v; (*cur)[54] = v; continue; }
		if (k == "altgr" ) { (*cur)[100] = v; continue; }
		int code = code_of(k);
		if (!code) { f.err = "unexpected key in " + l; return f; }
		(*cur)[code] = v;
	}
	return f;
}

static std::string typed(Real &r, const std::vector<In> &h, std::string *bad)
{
	size_t from = r.out.size();
	for (auto &e : h) r.key(e.code, e.pressed, e.t);
	r.advance(h.back().t + 300);
	Decoder d;
	for (size_t i = from; i < r.out.size(); i++) if (r.out[i].k == Ev::KEY) d.key(r.out[i].code, r.out[i].state);
	if (!d.ok) *bad = d.why;
	if (!d.held_clean()) *bad = "keys left down";
	return d.text;
}

// What a value of a layout file means when typed with these modifiers down.
static std::string meaning(const std::string &v, int mods)
{
	Decoder d;
	for (auto &row : keytab()) {
		int m = mods, hit = 0;
		if (v == row.name || (row.alt && v == row.alt)) hit = 1;
		if (row.shifted && v == row.shifted) { hit = 1; m |= SHIFT; }
		if (!hit) continue;
		for (auto &x : modtab()) if (m & x.mask) d.key(x.code, 1);
		d.key(row.code, 1);
		return d.text;
	}
	if (mods) return "";             // no defined meaning
	return Decoder::by_char().count(v) ? v : "";
}

static long t34;
static pbt::Reg r34a({"C34", "layouts", "every shipped layout file: loads without complaint; each key of each of its levels types exactly what its line says, whether included, written inline, default or switched to; non-trivial: every key checked", 0, 0, false,
	[](Ctx &c) {
		chdir_scratch();
		size_t i = c.src.draw(layouts().size());
		std::string n = layouts()[i];
		mkdir("data", 0755);
		if (symlink((repo() + "/layouts").c_str(), "data/layouts")) {}
		c.doc(n);
		LayoutFile f = read_layout(repo() + "/layouts/" + n, n);
		if (!f.err.empty()) c.fail("unreadable", f.err);
		if (f.main.empty()) c.fail("empty", "no layout section");
		std::string text = slurp(repo() + "/layouts/" + n);
		struct V { const char *how; std::string cfg; bool sw; };
		std::vector<V> vs = {
			{"included, default_layout", "[ids]\n*\n[global]\ndefault_layout = " + n + "\ninclude layouts/" + n + "\n", false},
			{"include first, default_layout", "include layouts/" + n + "\n[ids]\n*\n[global]\ndefault_layout = " + n + "\n", false},
			{"inline, default_layout", "[ids]\n*\n" + text + "\n[global]\ndefault_layout = " + n + "\n", false},
			{"included, setlayout", "[ids]\n*\n[main]\nf24 = setlayout(" + n + ")\ninclude layouts/" + n + "\n", true},
		};
		int checked = 0;
		std::string all0;
		for (auto &v : vs) {
			Real r;
			r.want_log = true;
			if (!r.load(v.cfg)) c.fail("refused", std::string(v.how) + ": " + sh_err());
			if (complained(r.log)) c.fail("complaint", std::string(v.how) + ": " + r.log);
			r.start();
			t34 = 6000;
			if (v.sw) { r.key(194, 1, t34); r.key(194, 0, t34 + 5); r.advance(t34 + 100); }
			std::string all;
			for (int level = 0; level < 4; level++) {
				bool sh = level & 1, ag = level & 2;
				for (auto &row : keytab()) {
					int code = row.code;
					if (is_mod_code(code) || code == K_RCTRL || code == K_RMETA || code == K_RSHIFT || code == 194 || code == 223 || code == K_NOOP) continue;
					if (code >= 249 || code == 148 || code == 149) continue;
					auto it = f.main.find(code);
					std::string want;
					bool defined = true;
					auto own = [&](std::map<int, std::string> &m, int mods) { auto j = m.find(code); if (j == m.end()) return false; want = meaning(j->second, mods); return true; };
					if (sh && ag) {
						if (f.both.empty() || !own(f.both, 0)) defined = false;
					} else if (sh) {
						if (f.main.count(42) ? own(f.shift, 0) : false) {}
						else if (it != f.main.end()) { want = meaning(it->second, SHIFT); defined = !want.empty(); }
						else want = meaning(row.name, SHIFT);
					} else if (ag) {
						if (f.main.count(100) && own(f.altgr, 0)) {} else defined = false;
					} else want = it != f.main.end() ? meaning(it->second, 0) : meaning(row.name, 0);
					std::vector<In> h;
					t34 += 1000;
					long t = t34;
					int skey = (code & 1) ? 42 : 54;
					if (sh) h.push_back({skey, 1, t += 10});
					if (ag) h.push_back({100, 1, t += 10});
					h.push_back({code, 1, t += 10}); h.push_back({code, 0, t += 10});
					if (ag) h.push_back({100, 0, t += 10});
					if (sh) h.push_back({skey, 0, t += 10});
					std::string bad, got = typed(r, h, &bad);
					if (!bad.empty()) c.failf("stream", "%s: %s%s%s: %s", v.how, sh ? "shift " : "", ag ? "altgr " : "", row.name, bad.c_str());
					all += got + "\x01";
					// characters outside keyd's table (private use, unassigned) type nothing
					if (defined && got != want) c.failf("typed", "%s: %s%s%s should type %s but types %s", v.how, sh ? "shift " : "", ag ? "altgr " : "", row.name, want.c_str(), got.c_str());
					checked += defined;
				}
			}
			if (all0.empty()) all0 = all;
			else if (all0 != all) c.failf("variant", "%s behaves differently from %s", v.how, vs[0].how);
		}
		c.nontrivial(checked > 400);
	}, [] { return (long)layouts().size(); }});

static pbt::Reg r34b({"C34", "examples", "every shipped example loads without complaint; non-trivial: always", 0, 0, false,
	[](Ctx &c) {
		chdir_scratch();
		std::string n = examples()[c.src.draw(examples().size())];
		c.doc(n);
		c.nontrivial();
		Real r;
		r.want_log = true;
		mkdir("data", 0755);
		if (symlink((repo() + "/layouts").c_str(), "data/layouts")) {}
		if (!r.load_path(repo() + "/examples/" + n)) c.fail("refused", sh_err());
		// every complaint must be one of the lines listed as a known finding
		std::vector<std::string> lines;
		{
			std::ifstream f(repo() + "/examples/" + n);
			for (std::string l; std::getline(f, l); ) { l.erase(std::remove_if(l.begin(), l.end(), [](char ch) { return isspace((unsigned char)ch); }), l.end()); lines.push_back(l); }
		}
		std::istringstream log(r.log);
		for (std::string l; std::getline(log, l); ) {
			if (!complained(l) || l.find("You should use") != std::string::npos) continue;   // deprecated, but accepted
			int num = 0;
			size_t at = l.find("line ");
			if (at != std::string::npos) num = atoi(l.c_str() + at + 5);
			if (num < 1 || num > (int)lines.size() || !c.known(n + ":" + lines[num - 1])) c.fail("complaint", r.log);
		}
	}, [] { return (long)examples().size(); }});

static pbt::Reg r34c({"C34", "switching", "several layouts in one configuration, random key sequences with layout switches against the layout files; non-trivial: at least two layouts used", 6000, 200000, false,
	[](Ctx &c) {
		chdir_scratch();
		mkdir("data", 0755);
		if (symlink((repo() + "/layouts").c_str(), "data/layouts")) {}
		int nl = 1 + c.src.draw(4);
		Lines ls;
		std::vector<LayoutFile> fs;
		for (int i = 0; i < nl; i++) {
			std::string n = layouts()[c.src.draw(layouts().size())];
			if (std::find(ls.begin(), ls.end(), n) != ls.end()) continue;
			ls.push_back(n); fs.push_back(read_layout(repo() + "/layouts/" + n, n));
			if (!fs.back().err.empty()) c.fail("unreadable", fs.back().err);
		}
		nl = ls.size();
		size_t macros = 0;               // keyd has room for 256 macros
		for (auto &f : fs) for (auto *m : {&f.main, &f.shift, &f.altgr, &f.both}) for (auto &x : *m) macros += x.second.size() > 1 && !key_name(x.second);
		if (macros > 250) c.discard("more characters than keyd has room for");
		int cur = c.src.draw(nl + 1) - 1;       // -1: none
		std::string cfg = "[ids]\n*\n";
		if (cur >= 0) cfg += "[global]\ndefault_layout = " + ls[cur] + "\n";
		cfg += "[main]\n";
		for (int i = 0; i < nl; i++) cfg += sfmt("f%d = setlayout(%s)\n", 13 + i, ls[i].c_str());
		cfg += "f20 = setlayout(main)\n";
		for (auto &n : ls) cfg += "include layouts/" + n + "\n";
		c.doc(cfg);
		Real r;
		r.want_log = true;
		if (!r.load(cfg)) c.fail("refused", sh_err());
		if (complained(r.log)) c.fail("complaint", r.log);
		r.start();
		long t = 6000;
		std::set<int> used{cur};
		int n = 5 + c.src.draw(40);
		for (int i = 0; i < n; i++) {
			t += 1000;
			if (c.src.chance(20)) {
				cur = c.src.draw(nl + 1) - 1;
				int code = cur < 0 ? 190 : 183 + cur;
				r.key(code, 1, t); r.key(code, 0, t + 10); r.advance(t + 400);
				c.docf("switch to %s\n", cur < 0 ? "main" : ls[cur].c_str());
				continue;
			}
			used.insert(cur);
			static const std::map<int, std::string> none;
			const KeyRow &row = keytab()[c.src.draw(60)];
			if (is_mod_code(row.code) || row.code == K_RSHIFT || row.code == K_RCTRL || row.code == K_RMETA) continue;
			bool sh = c.src.chance(40);
			std::string want;
			auto &m = cur < 0 ? none : fs[cur].main;
			auto it = m.find(row.code);
			if (sh && cur >= 0 && m.count(42) && fs[cur].shift.count(row.code)) want = meaning(fs[cur].shift[row.code], 0);
			else if (it != m.end()) want = meaning(it->second, sh ? SHIFT : 0);
			else want = meaning(row.name, sh ? SHIFT : 0);
			std::vector<In> h;
			if (sh) h.push_back({42, 1, t});
			h.push_back({row.code, 1, t + 10}); h.push_back({row.code, 0, t + 20});
			if (sh) h.push_back({42, 0, t + 30});
			std::string bad, got = typed(r, h, &bad);
			if (!bad.empty()) c.fail("stream", bad);
			if (want.empty()) continue;
			c.docf("%s%s -> %s\n", sh ? "shift " : "", row.name, want.c_str());
			if (got != want) c.failf("typed", "in %s, %s%s should type %s but types %s", cur < 0 ? "main" : ls[cur].c_str(), sh ? "shift " : "", row.name, want.c_str(), got.c_str());
		}
		c.nontrivial(used.size() >= 2);
	}, nullptr});

// ---------------------------------------------------------------- C35
extern "C" int keyd_main(int argc, char **argv);
static std::string run_list_keys()
{
	int fd[2];
	if (pipe(fd)) return "";
	fflush(nullptr);
	pid_t pid = sh_real_fork();
	if (pid == 0) {
		dup2(fd[1], 1);
		char a0[] = "keyd", a1[] = "list-keys"; char *av[] = {a0, a1, nullptr};
		int r = keyd_main(2, av);
		fflush(stdout);
		_exit(r);
	}
	close(fd[1]);
	std::string s; char b[4096]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
	close(fd[0]);
	int st; waitpid(pid, &st, 0);
	return s;
}

static pbt::Reg r35a({"C35", "table", "each of the 256 codes: its names in list-keys, on both sides of a binding, in chords, aliases and macros, and the key unmentioned; non-trivial: named key", 0, 0, false,
	[](Ctx &c) {
		chdir_scratch();
		int code = c.src.draw(256);
		static std::string listed = "\n" + run_list_keys();
		const KeyRow *k = key_by_code(code);
		if (code == 0) {
			// the list is exactly the table
			std::set<std::string> want, got;
			for (auto &r : keytab()) { want.insert(r.name); if (r.alt) want.insert(r.alt); if (r.shifted) want.insert(r.shifted); }
			for (size_t p = 1; p < listed.size();) { size_t e = listed.find('\n', p); got.insert(listed.substr(p, e - p)); p = e + 1; }
			for (auto &x : want) if (!got.count(x)) c.fail("list-keys", "list-keys does not print " + x);
			for (auto &x : got) if (!want.count(x)) c.fail("list-keys", "list-keys prints " + x + ", which names no key");
			for (auto &x : got) { int a, b; if (sh_key(x.c_str(), &a, &b)) c.fail("list-keys", x + " is listed but not accepted"); }
			return;
		}
		c.docf("code %d (%s)", code, k ? k->name : "unnamed");
		auto tap = [&](const std::string &cfg, int key, int wcode, int wmods, const char *what) {
			Real r;
			r.want_log = true;
			if (!r.load(cfg)) c.fail("refused", cfg);
			if (r.log.find("ERROR") != std::string::npos) c.fail("refused", std::string(what) + ": " + cfg + r.log);
			r.start();
			r.key(key, 1, 6000); r.key(key, 0, 6010); r.advance(7000);
			std::string got, want;
			for (auto &e : r.out) if (e.k == Ev::KEY) got += sfmt("%d%c ", e.code, e.state ? '+' : '-');
			for (auto &m : modtab()) if (wmods & m.mask) want += sfmt("%d+ ", m.code);
			if (wcode != K_NOOP) want += sfmt("%d+ %d- ", wcode, wcode);
			for (auto &m : modtab()) if (wmods & m.mask) want += sfmt("%d- ", m.code);
			if (got != want) c.failf("key", "%s: expected %s, got %s\n%s", what, want.c_str(), got.c_str(), cfg.c_str());
		};
		bool internal = code == K_NOOP || code == K_EXTMOUSE || (code >= K_CHORD1 && code <= K_CHORDMAX);
		bool modifier = is_mod_code(code) || code == K_RSHIFT || code == K_RCTRL || code == K_RMETA;
		// Of the modifier keys both sides belong to the layer, which emits the left one.
		int self = code == K_RSHIFT ? K_LSHIFT : code == K_RCTRL ? K_LCTRL : code == K_RMETA ? K_LMETA : code;
		if (!internal && !modifier) tap("[ids]\n*\n[main]\nf24 = f23\n", code == 194 ? 194 : code, code == 194 ? 193 : self, 0, "unmentioned key");
		if (!k) return;
		c.nontrivial();
		std::vector<std::string> names = {k->name};
		if (k->alt) names.push_back(k->alt);
		int other = code == 30 ? 48 : 30;
		std::string oname = kname(other);
		for (auto &n : names) {
			int a, b;
			if (sh_key(n.c_str(), &a, &b) || a != code || b) c.fail("name", n + " does not denote its key");
			if (!internal && !is_mod_code(code)) tap("[ids]\n*\n[main]\n" + oname + " = " + n + "\n", other, code, 0, "as an action");
			if (!internal) tap("[ids]\n*\n[main]\n" + n + " = f23\n", code, 193, 0, "as a key");
			if (!internal) tap("[ids]\n*\n[aliases]\n" + n + " = foo\n[main]\nfoo = f23\n", code, 193, 0, "aliased");
			if (!internal) tap("[ids]\n*\n[main]\n" + oname + " = macro(" + (n == "\\" ? "\\\\" : n) + ")\n", other, code, 0, "in a macro");
		}
		if (k->shifted) {
			int a, b;
			if (sh_key(k->shifted, &a, &b) || a != code || b != SHIFT) c.fail("name", std::string(k->shifted) + " does not denote its key with shift");
			tap("[ids]\n*\n[main]\n" + oname + " = " + k->shifted + "\n", other, code, SHIFT, "shifted symbol");
		}
	}, [] { return 256L; }});

static pbt::Reg r35b({"C35", "prefixes", "random modifier prefixes in random order (with repetitions) on random names: exactly those modifiers; non-trivial: at least two distinct modifiers", 40000, 1500000, false,
	[](Ctx &c) {
		const KeyRow &k = keytab()[c.src.draw(keytab().size())];
		int n = c.src.draw(7), want = 0;
		std::string s;
		for (int i = 0; i < n; i++) { const ModRow &m = modtab()[c.src.draw(5)]; s += std::string(1, m.letter) + "-"; want |= m.mask; }
		switch (c.src.draw(3)) {
		case 0: s += k.name; break;
		case 1: s += k.alt ? k.alt : k.name; break;
		default: if (k.shifted) { s += k.shifted; want |= SHIFT; } else s += k.name;
		}
		c.doc(s);
		c.nontrivial(__builtin_popcount(want) >= 2);
		int a, b;
		if (sh_key(s.c_str(), &a, &b)) c.fail("refused", s);
		if (a != k.code || b != want) c.failf("wrong", "%s: key %s mods %s", s.c_str(), kname(a).c_str(), mods_str(b).c_str());
	}, nullptr});

static pbt::Reg r35c({"C35", "non-names", "strings which are near but not key names are refused, everywhere; non-trivial: edit of a real name", 40000, 1500000, false,
	[](Ctx &c) {
		const KeyRow &k = keytab()[c.src.draw(keytab().size())];
		std::string s = k.name;
		int n = c.src.draw(3);
		for (int i = 0; i <= n; i++) {
			size_t p = c.src.draw(s.size() + 1);
			char ch = (char)(33 + c.src.draw(94));
			switch (c.src.draw(5)) {
			case 0: s.insert(p, 1, ch); break;
			case 1: if (p < s.size()) s.erase(p, 1); break;
			case 2: if (p < s.size()) s[p] = ch; break;
			case 3: if (p < s.size()) s[p] = isupper((unsigned char)s[p]) ? tolower(s[p]) : toupper(s[p]); break;
			default: s = std::string(1, "CMASGcmasgXZ1"[c.src.draw(13)]) + "-" + s; break;
			}
		}
		size_t p = 0;
		while (p + 1 < s.size() && s[p + 1] == '-' && strchr("CMASG", s[p])) p += 2;
		std::string rest = s.substr(p);
		if (key_name(rest) || s.empty()) c.discard("is a name");
		c.doc(s);
		c.nontrivial(s.size() > 1);
		int a, b;
		if (!sh_key(s.c_str(), &a, &b)) c.fail("accepted", s + " was taken for " + mods_str(b) + kname(a));
		if (s.find_first_of("=+().,#[") == std::string::npos && c.src.chance(5)) {
			chdir_scratch();
			for (auto &cfg : {"[ids]\n*\n[main]\n" + s + " = b\n", "[ids]\n*\n[aliases]\n" + s + " = foo\n", "[ids]\n*\n[main]\nb+" + s + " = b\n"}) {
				Real r;
				r.want_log = true;
				bool ok = r.load(cfg);
				if (ok && !complained(r.log)) c.fail("accepted", "no complaint about\n" + cfg);
			}
		}
	}, nullptr});
