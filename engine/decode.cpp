#include "decode.h"
#include <cstdlib>
#include <fstream>
#include <set>

using namespace spec;

std::string repo() { const char *r = getenv("VERIF_REPO"); return r ? r : "/repo"; }

std::string utf8(uint32_t c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}

static std::map<std::string, std::string> g_seq, g_char;
static std::string g_err;
static void load()
{
	static bool done;
	if (done) return;
	done = true;
	std::ifstream f(repo() + "/data/keyd.compose");
	std::string l;
	long n = 0;
	while (std::getline(f, l)) {
		n++;
		if (l.empty() || l[0] == '#' || l.compare(0, 7, "include") == 0) continue;
		// <Cancel> <a> <b> <c> : "x"
		std::string seq;
		size_t p = l.find("<Cancel> ");
		bool good = p == 0;
		p = 9;
		for (int i = 0; good && i < 3; i++) {
			good = l.size() > p + 3 && l[p] == '<' && l[p + 2] == '>' && l[p + 3] == ' ';
			if (good) seq += l[p + 1];
			p += 4;
		}
		good = good && l.compare(p, 3, ": \"") == 0 && l.back() == '"' && l.size() > p + 4;
		if (!good) { if (g_err.empty()) g_err = "malformed line " + std::to_string(n) + ": " + l; continue; }
		std::string ch = l.substr(p + 3, l.size() - p - 4);
		if (!g_seq.emplace(seq, ch).second && g_err.empty()) g_err = "sequence defined twice: " + l;
		if (!g_char.emplace(ch, seq).second && g_err.empty()) g_err = "character defined twice: " + l;
	}
	if (!n) g_err = "no compose file";
}
const std::map<std::string, std::string> &Decoder::compose() { load(); return g_seq; }
const std::map<std::string, std::string> &Decoder::by_char() { load(); return g_char; }
const std::string &Decoder::compose_error() { load(); return g_err; }

Decoder::Decoder() { load(); }

static int mask_of(int code)
{
	switch (code) {
	case K_LCTRL: case K_RCTRL: return CTRL;
	case K_LSHIFT: case K_RSHIFT: return SHIFT;
	case K_LALT: return ALT;
	case K_RALT: return ALTGR;
	case K_LMETA: case K_RMETA: return META;
	}
	return 0;
}

void Decoder::key(int code, int pressed)
{
	if (pressed == down_.count(code)) { if (ok) why = (pressed ? "pressed twice: " : "released but not down: ") + kname(code); ok = false; }
	if (pressed) down_.insert(code); else down_.erase(code);
	int m = mask_of(code);
	if (m) { if (pressed) mods_ |= m; else mods_ &= ~m; return; }
	if (!pressed) return;
	const KeyRow *r = key_by_code(code);
	std::string name = r ? r->name : kname(code);
	if (composing_) {
		if (!mods_ && name.size() == 1) {
			seq_ += name;
			if (seq_.size() < 3) return;
			auto it = g_seq.find(seq_);
			text += it == g_seq.end() ? "<compose " + seq_ + "?>" : it->second;
		} else text += "<broken compose " + seq_ + " " + mods_str(mods_) + name + ">";
		composing_ = false; seq_.clear();
		return;
	}
	if (name == "cancel" && !mods_) { composing_ = true; return; }
	if (name == "space" && !mods_) { text += ' '; return; }
	if (name == "enter" && !mods_) { text += '\n'; return; }
	if (name == "tab" && !mods_) { text += '\t'; return; }
	if (name.size() == 1 && !mods_) { text += name; return; }
	if (r && r->shifted && mods_ == SHIFT) { text += r->shifted; return; }
	text += "<" + mods_str(mods_) + name + ">";
}
