// Configuration properties: relations between configuration texts, judged by the behaviour of the
// keyboards they produce.
#include "props.h"
#include <algorithm>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>

using namespace spec;
using pbt::Ctx;
using pbt::Src;
using pbt::sfmt;
typedef std::vector<std::string> Lines;

struct Sec { std::string head; Lines lines; int layer = -1; };

static std::vector<Sec> sections(const Cfg &c)
{
	std::vector<Sec> v;
	v.push_back({"[ids]", {"*"}});
	std::string g = render_opts(c.o);
	if (!g.empty()) {
		Sec s{"[global]", {}};
		for (size_t p = 0; p < g.size();) { size_t e = g.find('\n', p); s.lines.push_back(g.substr(p, e - p)); p = e + 1; }
		v.push_back(s);
	}
	for (size_t i = 0; i < c.layers.size(); i++) {
		if (c.layers[i].builtin && c.layers[i].binds.empty()) continue;
		Sec s{layer_heading(c, (int)i), {}, (int)i};
		for (auto &b : c.layers[i].binds) s.lines.push_back(render_binding(c, b));
		v.push_back(s);
	}
	return v;
}

static Lines flat(const std::vector<Sec> &v)
{
	Lines l;
	for (auto &s : v) { l.push_back(s.head); l.insert(l.end(), s.lines.begin(), s.lines.end()); }
	return l;
}

static std::string join(const Lines &l, const char *end = "\n")
{
	std::string s;
	for (auto &x : l) s += x + end;
	return s;
}

static void drive(Real &r, const std::vector<In> &h)
{
	for (auto &e : h) r.key(e.code, e.pressed, e.t);
	r.advance(h.back().t + 3000);
}

// Runs the same histories through both keyboards (already started); fails on a difference.
static void same_behaviour(Ctx &c, Real &a, Real &b, const Profile &p, const Case &k, int n, const char *tag, const char *an, const char *bn)
{
	for (int i = 0; i < n; i++) {
		if (i) { a.restart(); b.restart(); }
		auto h = gen_history(c.src, p, k);
		drive(a, h);
		drive(b, h);
		std::string d = diff_traces(a.out, b.out, an, bn);
		if (!d.empty()) { c.doc("--- history\n" + show_history(h)); c.fail(tag, d); }
	}
}

static Profile prof_cfg()
{
	Profile p = prof_all();
	p.chords = 2; p.depth = 2; p.max_events = 30; p.p_odd_codes = 20;
	p.p_macro_opts = 15;
	return p;
}

static void chdir_scratch()
{
	static bool done;
	if (!done && chdir(pbt::scratch().c_str())) _Exit(3);
	done = true;
}

// ---------------------------------------------------------------- C16
struct Fault { Lines lines; bool binding; };

static Fault bad_binding(Src &s, const Case &k)
{
	std::string key = render_key(k.pool[s.draw(k.pool.size())]), other = render_key(k.pool[s.draw(k.pool.size())]);
	static const char *names[] = {"nosuchkey", "leftcontol", "S-", "Z-a", "kp", "aa", "f99"};
	std::string unk = names[s.draw(7)];
	std::string lay = "nolayer";
	std::string layout;
	for (auto &l : k.cfg.layers) if (l.type == Layer::LAYOUT && l.name != "main") layout = l.name;
	std::string lhs = key, rhs;
	switch (s.draw(21)) {
	case 0: lhs = unk == "aa" ? "nokey" : unk; rhs = other; break;
	case 1: rhs = unk; break;
	case 2: rhs = "nosuch(" + other + ")"; break;
	case 3: rhs = "layer(" + lay + ")"; break;
	case 4: rhs = "layer()"; break;
	case 5: rhs = "layer(shift, " + other + ")"; break;
	case 6: rhs = "overload(shift)"; break;
	case 7: rhs = "overload(" + lay + ", " + other + ")"; break;
	case 8: rhs = "overload(shift, " + unk + ")"; break;
	case 9: rhs = "overloadt(shift, " + other + ")"; break;
	case 10: rhs = "timeout(" + other + ", 100, overload(shift, nosuch(x)))"; break;
	case 11: rhs = "layer(shift"; break;
	case 12: rhs = "toggle(main)"; break;
	case 13: rhs = layout.empty() ? "setlayout(shift)" : "layer(" + layout + ")"; break;
	case 14: rhs = "macro2(10, 10, nosuchkey)"; break;
	case 15: rhs = "lettermod(shift, " + other + ", 100)"; break;
	case 16: lhs = key + "+nosuchkey"; rhs = other; break;
	case 17: if (other == key) rhs = "nosuch()"; else { lhs = key + "+" + other; rhs = "layer(" + lay + ")"; } break;
	case 18: return {{key}, true};                       // no action at all
	case 19: lhs = "a+b+c+d+e+f+g+h+i"; rhs = other; break;   // more keys than a chord can have
	default: rhs = "macro(a+nosuchkey)"; break;
	}
	return {{lhs + " = " + rhs}, true};
}

static int g_newlayer;

static Fault bad_heading(Src &s, const Case &k)
{
	Fault f{{}, false};
	switch (s.draw(8)) {
	case 6: f.lines.push_back("[shift+control+alt+meta+altgr+shift+control+alt+meta]"); break;
	case 0: f.lines.push_back("[nolayer+shift]"); break;
	case 1: f.lines.push_back("[shift+nolayer]"); break;
	case 2: f.lines.push_back("[alt+nolayer:S]"); break;
	case 3: f.lines.push_back("[" + std::string(65 + s.draw(6), 'x') + "]"); break;
	case 4: f.lines.push_back("[]"); break;
	case 5: default: f.lines.push_back(sfmt("[newlayer%d:Q]", g_newlayer++)); break;    // type ignored
	}
	if (s.chance(60)) f.lines.push_back(render_key(k.pool[s.draw(k.pool.size())]) + " = " + render_key(k.pool[s.draw(k.pool.size())]));
	return f;
}

static pbt::Reg r16({"C16", "faulty-line", "a valid configuration with and without faulty lines of every kind at random places; non-trivial: at least two faulty lines", 16000, 600000, false,
	[](Ctx &c) {
		chdir_scratch();
		Profile p = prof_cfg();
		Case k = gen_case(c.src, p);
		auto secs = sections(k.cfg);
		// aliases which have to survive the faulty ones
		std::set<int> aliased;
		if (c.src.chance(50)) {
			Sec as{"[aliases]", {}, -1};
			for (int key : k.pool) {
				if (!c.src.chance(40)) continue;
				std::string name = sfmt("al_%d", key);
				if (c.src.chance(20)) name += std::string(31 - name.size(), '_');
				as.lines.push_back(render_key(key) + " = " + name);
				aliased.insert(key);
				for (auto &s : secs) {
					if (s.layer < 0) continue;
					auto &binds = k.cfg.layers[s.layer].binds;
					for (size_t i = 0; i < binds.size(); i++)
						if (binds[i].keys.size() == 1 && binds[i].keys[0] == key)
							s.lines[i] = name + " = " + render_action(k.cfg, binds[i].a);
				}
			}
			if (!as.lines.empty()) secs.insert(secs.begin() + c.src.draw(secs.size() + 1), as);
		}
		Lines good = flat(secs);
		if (!lines_ok(join(good))) c.discard("line too long");
		g_newlayer = 0;
		int faults = 0;
		size_t nheads = 0;
		struct L { std::string s; bool bad, binding; };
		std::vector<L> v;
		for (auto &s : secs) {
			v.push_back({s.head, false, false});
			for (size_t i = 0; i <= s.lines.size(); i++) {
				while (c.src.chance(8)) {
					Fault f;
					faults++;
					if (s.layer >= 0) {
						// a malformed heading ends the section, which has to be opened again
						if (i == s.lines.size() && nheads + secs.size() < 26 && c.src.chance(30)) {
							nheads += 2;
							f = bad_heading(c.src, k);
							for (auto &x : f.lines) v.push_back({x, true, false});
							v.push_back({s.head, false, false});
							c.label("bad heading");
							continue;
						}
						f = bad_binding(c.src, k);
						c.label("bad binding");
					} else if (s.head == "[global]") {
						static const char *bad[] = {"nosuch_option = 3", "macro_timeout", "chord_timout = 1", "layer = shift", "default_layout"};
						f.lines = {bad[c.src.draw(5)]}; f.binding = false;
						c.label("bad option");
					} else if (s.head == "[aliases]") {
						// a key which has no alias, most often the neighbour of one that does
						int key = 0;
						if (c.src.chance(70)) {
							auto it = aliased.begin();
							std::advance(it, c.src.draw(aliased.size()));
							key = *it + (c.src.chance(70) ? -1 : 1);
						}
						if (!key_by_code(key) || aliased.count(key) || is_mod_code(key) || key == 97 || key == 54 || key == 126) key = 0;
						for (int t = 0; t < 20 && !key; t++) {
							int x = 2 + c.src.draw(80);
							if (key_by_code(x) && !aliased.count(x) && !is_mod_code(x) && x != 97 && x != 54) key = x;
						}
						if (!key) { faults--; continue; }
						if (c.src.chance(20)) f.lines = {c.src.chance(50) ? "nosuchkey = foo" : render_key(key)};
						else f.lines = {render_key(key) + " = " + std::string(32 + (c.src.chance(50) ? 0 : c.src.draw(20)), 'a' + c.src.draw(3))};
						f.binding = false;
						c.label("bad alias");
					} else {
						f.lines = {std::string(80, 'a' + c.src.draw(3))}; f.binding = false;   // an id which cannot exist
						c.label("bad id");
					}
					for (auto &x : f.lines) v.push_back({x, true, f.binding});
				}
				if (i < s.lines.size()) v.push_back({s.lines[i], false, false});
			}
		}
		if (c.src.chance(30)) {
			v.push_back({"[aliases]", false, false});
			static const char *bad[] = {"nosuchkey = foo", "a", "b = averyveryverylongaliaswhichistoolongtobeone", "= = ", "foo = a"};
			int n = c.src.draw(5);
			if (n != 3) { v.push_back({bad[n], true, false}); faults++; c.label("bad alias"); }
		}
		std::string with;
		std::vector<int> lnums;
		for (size_t i = 0; i < v.size(); i++) { with += v[i].s + "\n"; if (v[i].bad && v[i].binding) lnums.push_back((int)i + 1); }
		c.doc(with);
		c.nontrivial(faults >= 2);
		Real a, b;
		a.want_log = b.want_log = true;
		if (!a.load(join(good))) c.fail("refused", "keyd refused a valid configuration");
		if (!b.load(with, "d.conf")) c.fail("fault-refused", std::string("a faulty line made keyd refuse the whole configuration: ") + sh_err());
		auto count = [](const std::string &s) { return std::count(s.begin(), s.end(), '\n'); };
		if (count(b.log) < count(a.log) + faults) c.fail("unreported", sfmt("%d faulty lines, but only %ld more line(s) in the log\n", faults, (long)(count(b.log) - count(a.log))) + b.log);
		for (int n : lnums) {
			std::string num = std::to_string(n);
			bool found = false;
			for (size_t q = b.log.find(num); q != std::string::npos; q = b.log.find(num, q + 1))
				if ((q == 0 || !isdigit(b.log[q - 1])) && !isdigit(b.log[q + num.size()])) found = true;
			if (!found) c.fail("line-number", sfmt("no report names line %d\n", n) + b.log);
		}
		a.start(); b.start();
		same_behaviour(c, a, b, p, k, 2, "changed", "without", "with   ");
	}, nullptr});

// ---------------------------------------------------------------- C17
static std::string ws(Src &s) { static const char *w[] = {"", " ", "\t", "  ", " \t "}; return w[s.draw(5)]; }

static std::string respace(Src &s, const std::string &l)
{
	if (l[0] == '[') return ws(s) + l + ws(s);
	size_t e = l.find(" = ");
	if (e == std::string::npos) return ws(s) + l + ws(s);
	return ws(s) + l.substr(0, e) + ws(s) + "=" + ws(s) + l.substr(e + 3) + ws(s);
}

static pbt::Reg r17({"C17", "notation", "the same configuration written plainly and with random equivalent notations; non-trivial: at least three kinds of rewriting applied", 20000, 800000, false,
	[](Ctx &c) {
		chdir_scratch();
		Profile p = prof_cfg();
		p.w[LETTERMOD] = p.w[OVERLOADT] = p.w[OVERLOADT2] = p.w[TOGGLEM] = p.w[SWAPM] = 8;
		Case k = gen_case(c.src, p);
		std::set<std::string> kinds;
		std::map<int, std::string> alias;
		Lines alias_lines;
		auto &cfg = k.cfg;

		// a key whose alias is itself a key name acts as that key by default
		if (c.src.chance(20)) {
			int key = k.pool[c.src.draw(k.pool.size())], to = 0;
			for (int t = 0; t < 20 && !to; t++) {
				int x = 2 + c.src.draw(80);
				if (key_by_code(x) && std::find(k.pool.begin(), k.pool.end(), x) == k.pool.end() && !is_mod_code(x) && x != 97 && x != 54) to = x;
			}
			bool bound = false;
			for (auto &b : cfg.layers[0].binds) if (b.keys.size() == 1 && b.keys[0] == key) bound = true;
			if (to && !is_mod_code(key) && key != 97 && key != 54 && key != 126) {
				alias[key] = key_by_code(to)->name;
				if (std::string("-=[]\\").find(alias[key]) != std::string::npos) alias.erase(key);
				else {
					alias_lines.push_back(render_key(key) + " = " + alias[key]);
					if (!bound) { Binding b; b.keys = {key}; b.a.k = KEY; b.a.code = to; cfg.layers[0].binds.insert(cfg.layers[0].binds.begin(), b); k.cfg.layers[0].builtin = true; }
					kinds.insert("alias is a key name");
				}
			}
		}
		bool implicit = !alias.empty() && kinds.count("alias is a key name");
		int implicit_key = implicit ? alias.begin()->first : 0;

		// an alias given to two keys: both get every binding of the first
		if (c.src.chance(30) && k.pool.size() >= 2) {
			int k1 = k.pool[c.src.draw(k.pool.size())], k2 = k.pool[c.src.draw(k.pool.size())];
			if (k1 != k2 && !alias.count(k1) && !alias.count(k2)) {
				for (auto &l : cfg.layers) {
					std::vector<Binding> nb;
					for (auto &b : l.binds) {
						if (b.keys.size() == 1 && b.keys[0] == k2) continue;
						nb.push_back(b);
						if (b.keys.size() == 1 && b.keys[0] == k1) { Binding x = b; x.keys[0] = k2; nb.push_back(x); }
					}
					l.binds = nb;
				}
				alias[k1] = alias[k2] = "both";
				alias_lines.push_back(render_key(k1) + " = both");
				alias_lines.push_back(render_key(k2) + " = both");
				kinds.insert("shared alias");
			}
		}
		// plain aliases
		for (int key : k.pool)
			if (!alias.count(key) && c.src.chance(10)) {
				alias[key] = sfmt("my_%d", key);
				alias_lines.push_back(render_key(key) + " = " + alias[key]);
				kinds.insert("alias");
			}

		// plain text
		std::string plain = join(flat(sections(cfg)));
		if (!lines_ok(plain)) c.discard("line too long");

		// fancy text
		Style style{[&](unsigned n) { return c.src.draw(n); }};
		bool notation = c.src.chance(70);
		if (notation) { g_style = &style; kinds.insert("names and spacing"); }
		std::vector<Sec> secs = sections(cfg);
		std::vector<Sec> out, later;
		Profile pg = p; pg.depth = 1;
		bool reorder = c.src.chance(50), split = c.src.chance(50), dup = c.src.chance(40);
		for (auto &s : secs) {
			Sec cur{s.head, {}, s.layer};
			if (s.layer < 0) { cur.lines = s.lines; out.push_back(cur); continue; }
			auto &binds = cfg.layers[s.layer].binds;
			std::vector<std::pair<std::string, Lines>> items;          // (identity of the left-hand side, lines)
			std::map<std::string, size_t> at;
			for (size_t i = 0; i < binds.size(); i++) {
				const Binding &b = binds[i];
				std::string line = s.lines[i];
				if (b.keys.size() == 1 && alias.count(b.keys[0]) && (alias[b.keys[0]] == "both" || b.keys[0] == implicit_key || c.src.chance(70))) {
					if (b.keys[0] == implicit_key && i == 0 && s.layer == 0 && b.a.k == KEY && kname(b.a.code) == alias[implicit_key] && c.src.chance(90)) continue;   // left to the alias
					line = alias[b.keys[0]] + " = " + render_action(cfg, b.a);
				}
				std::set<int> ks(b.keys.begin(), b.keys.end());
				std::string id;
				for (int x : ks) id += sfmt("%d+", x);
				if (b.keys.size() == 1 && alias.count(b.keys[0])) id = "alias " + alias[b.keys[0]];
				Lines ls;
				if (dup && c.src.chance(20)) {
					Binding g = b; g.a = gen_action(c.src, pg, k, pg.w, 1);
					if (b.keys.size() > 1) for (size_t i = g.keys.size(); i > 1; i--) std::swap(g.keys[i - 1], g.keys[c.src.draw(i)]);
					std::string gl = b.keys.size() == 1 && alias.count(b.keys[0]) ? alias[b.keys[0]] + " = " + render_action(cfg, g.a) : render_lhs(g) + " = " + render_action(cfg, g.a);
					ls.push_back(gl);
					kinds.insert("repeated binding");
				}
				ls.push_back(line);
				if (at.count(id)) items[at[id]].second.insert(items[at[id]].second.end(), ls.begin(), ls.end());
				else { at[id] = items.size(); items.push_back({id, ls}); }
			}
			if (reorder) {
				for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[c.src.draw(i)]);
				if (items.size() > 1) kinds.insert("order");
			}
			for (auto &it : items) {
				if (split && later.size() + secs.size() < 28 && c.src.chance(30)) {
					Sec tail{s.head, it.second, s.layer};
					if (s.layer >= 6 && c.src.chance(50)) tail.head = "[" + cfg.layers[s.layer].name + "]";
					later.push_back(tail);
					kinds.insert("split section");
				} else cur.lines.insert(cur.lines.end(), it.second.begin(), it.second.end());
			}
			out.push_back(cur);
		}
		g_style = nullptr;
		out.insert(out.end(), later.begin(), later.end());
		if (!alias_lines.empty()) {
			Sec al{"[aliases]", alias_lines};
			out.insert(out.begin() + c.src.draw(out.size() + 1), al);
		}
		if (c.src.chance(50)) {   // [ids] and [global] anywhere
			for (int n = 0; n < 2; n++) {
				Sec s = out[0];
				if (s.layer >= 0) break;
				out.erase(out.begin());
				out.insert(out.begin() + c.src.draw(out.size() + 1), s);
			}
			kinds.insert("order of sections");
		}
		Lines fl = flat(out);
		if (c.src.chance(70)) {
			Lines n;
			for (auto &l : fl) {
				while (c.src.chance(10)) {
					static const char *filler[] = {"", "# a comment", "   ", "#", "\t# a = b", "#[main]", "# include nothing"};
					n.push_back(filler[c.src.draw(7)]);
				}
				n.push_back(respace(c.src, l));
			}
			fl = n;
			kinds.insert("comments and white space");
		}
		std::string fancy = join(fl);
		if (fancy.size() && c.src.chance(20)) { fancy.pop_back(); kinds.insert("no final newline"); }
		if (!lines_ok(fancy)) c.discard("line too long");
		c.doc(plain + "=== is the same as\n" + fancy);
		for (auto &x : kinds) c.label(x);
		c.nontrivial(kinds.size() >= 3);
		Real a, b;
		if (!a.load(plain)) c.fail("refused", "keyd refused a valid configuration");
		if (!b.load(fancy, "d.conf")) c.fail("refused", std::string("keyd refused an equivalent configuration: ") + sh_err());
		a.start(); b.start();
		same_behaviour(c, a, b, p, k, 2, "notation", "plain", "fancy");
	}, nullptr});

// ---------------------------------------------------------------- C18
static void put(const std::string &path, const std::string &text)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); _Exit(3); }
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}

static pbt::Reg r18({"C18", "include", "a configuration with random ranges of lines moved to included files (beside it or in the data directory, with decoys) and with includes that cannot be resolved; non-trivial: at least one range included and one include that must be skipped or a decoy", 16000, 600000, false,
	[](Ctx &c) {
		chdir_scratch();
		Profile p = prof_cfg();
		Case k = gen_case(c.src, p);
		Lines lines = flat(sections(k.cfg));
		std::string plain = join(lines);
		if (!lines_ok(plain)) c.discard("line too long");
		mkdir("conf", 0755); mkdir("conf/sub", 0755); mkdir("data", 0755); mkdir("data/sub", 0755);
		std::string text;
		int n = 0, inc = 0, special = 0;
		std::vector<std::string> made;
		for (size_t i = 0; i < lines.size();) {
			if (c.src.chance(12)) {
				size_t j = i + 1 + c.src.draw(5);
				if (j > lines.size()) j = lines.size();
				std::string name = sfmt("%sinc%d", c.src.chance(30) ? "sub/" : "", n++);
				std::string body = join(Lines(lines.begin() + i, lines.begin() + j));
				if (c.src.chance(40)) { body.pop_back(); c.label("included file without final newline"); }
				bool data = c.src.chance(50);
				std::string path = (data ? "data/" : "conf/") + name;
				put(path, body); made.push_back(path);
				if (!data && c.src.chance(50)) { put("data/" + name, "zzz\n[nothing]\na = b\n"); made.push_back("data/" + name); special++; c.label("decoy in the data directory"); }
				text += std::string("include ") + (c.src.chance(10) ? "  " : "") + name + "\n";
				c.docf("--- %s\n%s\n", path.c_str(), body.c_str());
				c.label(data ? "from the data directory" : "from the same directory");
				inc++;
				i = j;
			} else {
				if (i && c.src.chance(5)) {
					special++;
					switch (c.src.draw(3)) {
					case 0: text += "include missing\n"; c.label("missing file"); break;
					case 1: put("conf/ext.conf", "[main]\na = b\n"); made.push_back("conf/ext.conf"); text += "include ext.conf\n"; c.label("file extension"); break;
					default: text += "include sub/missing\n"; c.label("missing file"); break;
					}
				}
				text += lines[i++] + "\n";
			}
		}
		if (text.size() && c.src.chance(15)) { text.pop_back(); c.label("no final newline"); }
		c.doc("--- conf/c.conf\n" + text);
		c.nontrivial(inc && special);
		put("conf/c.conf", text);
		Real a, b;
		bool ok = a.load(plain);
		b.want_log = true;
		bool ok2 = b.load_path(c.src.chance(50) ? "conf/c.conf" : pbt::scratch() + "/conf/c.conf");
		for (auto &m : made) unlink(m.c_str());
		if (!ok) c.fail("refused", "keyd refused a valid configuration");
		if (!ok2) c.fail("refused", std::string("keyd refused the configuration with includes: ") + sh_err());
		if (special && text.find("missing") != std::string::npos && b.log.empty()) c.fail("unreported", "an include which cannot be resolved was not reported");
		if (text.find("ext.conf") != std::string::npos && b.log.empty()) c.fail("unreported", "an include with a file extension was not reported");
		a.start(); b.start();
		same_behaviour(c, a, b, p, k, 2, "include", "inline ", "include");
	}, nullptr});

// ---------------------------------------------------------------- C19
static pbt::Reg r19({"C19", "bind", "bindings made at run time against the same lines in the file, refused binds, and reset; non-trivial: at least three bindings", 16000, 600000, false,
	[](Ctx &c) {
		chdir_scratch();
		Profile p = prof_cfg();
		Case k = gen_case(c.src, p);
		auto secs = sections(k.cfg);
		std::string plain = join(flat(secs));
		if (!lines_ok(plain)) c.discard("line too long");
		std::string extra;
		Lines cmds;
		int n = 1 + c.src.draw(6), nbad = 0;
		for (int i = 0; i < n; i++) {
			Binding b;
			int l = c.src.draw(k.cfg.layers.size());
			size_t nk = p.chords && k.cfg.layers[l].type != Layer::COMPOSITE && c.src.chance(20) ? 2 : 1;
			while (b.keys.size() < nk) { int x = k.pool[c.src.draw(k.pool.size())]; if (std::find(b.keys.begin(), b.keys.end(), x) == b.keys.end()) b.keys.push_back(x); if (k.pool.size() < 2) break; }
			b.a = gen_action(c.src, p, k, p.w, 2);
			std::string line = render_binding(k.cfg, b);
			if (line.size() > 200) continue;
			extra += "[" + k.cfg.layers[l].name + "]\n" + line + "\n";
			cmds.push_back((l == 0 && c.src.chance(50) ? "" : k.cfg.layers[l].name + ".") + line);
		}
		std::string seq;
		for (auto &x : cmds) {
			while (c.src.chance(25)) {
				Fault f = bad_binding(c.src, k);
				std::string lay = c.src.chance(80) ? k.cfg.layers[c.src.draw(k.cfg.layers.size())].name + "." : c.src.chance(50) ? "nolayer." : "";
				if (c.src.chance(15)) {
					// longer than a line of a file can be
					std::string pre = lay + render_key(k.pool[c.src.draw(k.pool.size())]) + " = ";
					static const char *fn[] = {"macro(", "command(", "overload(shift, macro("};
					size_t n = c.src.draw(3);
					std::string post = n == 2 ? "))" : ")";
					pre += fn[n];
					if (c.src.chance(60)) f.lines = {pre + std::string(512 + (c.src.chance(60) ? 0 : c.src.draw(40)) - pre.size() - post.size(), 'x') + post};
					else f.lines = {pre + std::string(257 + (c.src.chance(60) ? 0 : c.src.draw(100)), 'x') + post};
					lay = "";
					c.label("over-long bind");
				}
				seq += "!" + lay + f.lines[0] + "\n";
				nbad++;
			}
			seq += "+" + x + "\n";
		}
		c.doc(plain + "--- bound at run time (! is refused)\n" + seq);
		c.nontrivial(cmds.size() >= 3);
		if (nbad) c.label("refused binds");
		Real a, b, o;
		if (!a.load(plain + extra)) c.fail("refused", "keyd refused a valid configuration");
		b.load(plain); o.load(plain);
		a.start(); b.start(); o.start();
		auto apply = [&] {
			for (size_t q = 0; q < seq.size();) {
				size_t e = seq.find('\n', q);
				std::string x = seq.substr(q + 1, e - q - 1);
				int r = b.bind(x);
				if (seq[q] == '!' && !r) c.fail("accepted", "this should have been refused: " + x);
				if (seq[q] == '!' && !*sh_err()) c.fail("no-error", "refused without an error message: " + x);
				if (seq[q] == '+' && r) c.fail("bind-refused", x + "\nrefused: " + sh_err());
				q = e + 1;
			}
		};
		apply();
		auto h = gen_history(c.src, p, k);
		drive(a, h); drive(b, h);
		std::string d = diff_traces(a.out, b.out, "in file", "bound  ");
		if (!d.empty()) { c.doc("--- history\n" + show_history(h)); c.fail("bind", d); }

		// reset after arbitrary binds
		b.restart();
		apply();
		if (c.src.chance(50)) { if (b.bind("reset")) c.fail("reset-refused", "reset was refused"); apply(); }
		if (b.bind("reset")) c.fail("reset-refused", "reset was refused");
		h = gen_history(c.src, p, k);
		drive(o, h); drive(b, h);
		d = diff_traces(o.out, b.out, "never bound", "after reset");
		if (!d.empty()) { c.doc("--- history\n" + show_history(h)); c.fail("reset", d); }
	}, nullptr});

static pbt::Reg r19b({"C19", "reset-forever", "hundreds of rounds of reset and bind (as the application mapper sends) never exhaust anything; non-trivial: always", 64, 2000, false,
	[](Ctx &c) {
		chdir_scratch();
		Profile p = prof_cfg();
		Case k = gen_case(c.src, p);
		Real b;
		std::string plain = join(flat(sections(k.cfg)));
		if (!lines_ok(plain)) c.discard("line too long");
		c.doc(plain);
		if (!b.load(plain)) c.fail("refused", "keyd refused a valid configuration");
		b.start();
		Lines cmds;
		for (int i = 0; i < 8; i++) {
			Binding x; x.keys = {k.pool[c.src.draw(k.pool.size())]};
			x.a = gen_action(c.src, p, k, p.w, 2);
			std::string l = render_binding(k.cfg, x);
			if (l.size() < 240) cmds.push_back(l);
		}
		bool resets = c.src.chance(70);
		for (int n = 0; n < 600; n++) {
			if (resets) b.bind("reset");
			for (auto &x : cmds) if ((resets || n == 0) && b.bind(x)) c.fail("exhausted", sfmt("after %d rounds: ", n) + sh_err());
			for (int i = 0; i < 4; i++) {
				Fault f = bad_binding(c.src, k);
				if (!b.bind(f.lines[0])) c.fail("accepted", f.lines[0]);
			}
		}
		if (cmds.size() && b.bind(cmds[0])) c.fail("exhausted", std::string("after many refused binds: ") + sh_err());
		c.nontrivial();
	}, nullptr});
