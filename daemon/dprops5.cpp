// C28: text through the command line, the socket and the daemon.
#include "world.h"
#include "../engine/decode.h"
#include <algorithm>
#include <cstring>
#include <sys/socket.h>
#include <unistd.h>

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;
using ks::Dev;

struct Raw { int type; uint32_t timeout; char data[4096]; size_t sz; };

// Runs "keyd <args>" with the given standard input (in pieces); what it sent is returned.
static ks::End client(std::vector<std::string> args, const std::vector<std::string> &in, const std::string &reply, std::string &sent)
{
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) { perror("socketpair"); _Exit(3); }
	for (auto &p : in) if (p.size() && write(sv[1], p.data(), p.size()) < 0) { perror("write"); _Exit(3); }
	close(sv[1]);
	int saved = dup(0);
	dup2(sv[0], 0);
	close(sv[0]);
	static ks::Conn *con;
	con = nullptr;
	ks::on_connect = [reply](ks::Conn *c) { con = c; c->in = reply; c->eof = true; };
	args.insert(args.begin(), "keyd");
	ks::End e = ks::run(us(1000), args);
	ks::on_connect = nullptr;
	dup2(saved, 0);
	close(saved);
	sent = con ? con->out : "";
	return e;
}

static void c28(Ctx &c)
{
	enter();
	bool macro = c.src.chance(35);
	std::string text, want;
	bool uni = false, foreign = false, cut = false;
	if (macro) {
		int nw = 1 + c.src.draw(4);
		for (int i = 0; i < nw; i++) {
			std::string w;
			for (int j = 1 + c.src.draw(10); j > 0; j--) {
				bool f = false;
				std::string ch = gen_char(c.src, &f);
				w += ch;
				if (!f) want += ch;
				foreign |= f; uni |= ch.size() > 1;
			}
			if (!plain_text(w)) c.discard("not plain text");
			text += (i ? " " : "") + w;
			if (c.src.chance(20)) { text += " space"; want += ' '; }
			if (c.src.chance(10)) { text += " enter"; want += '\n'; }
		}
	} else {
		int n = 1 + c.src.draw(c.src.chance(8) ? 2600 : c.src.chance(30) ? 60 : 12);
		bool f = false, allow = c.src.chance(15);
		for (int i = 0; i < n; i++) {
			std::string ch;
			switch (c.src.draw(12)) {
			default: do { f = false; ch = gen_char(c.src, &f); } while (f && !allow); break;
			case 9: ch = " "; break;
			case 10: ch = "\n"; break;
			case 11: ch = c.src.chance(50) ? "\t" : "+"; break;
			}
			if (f) foreign = true;
			text += ch;
			uni |= ch.size() > 1;
			if (!foreign) want += ch;       // typing ends at what cannot be typed
		}
		if (c.src.chance(5)) { static const size_t at[] = {4093, 4094, 4095, 4096, 4097, 4100}; size_t z = at[c.src.draw(6)]; if (text.size() < z) { std::string pad(z - text.size(), 'x'); text = pad + text; want = pad + want; } }
		cut = text.size() >= 4096;
	}
	std::vector<std::string> args = {macro ? "do" : "input"}, in;
	long delay = 0;
	if (c.src.chance(30)) { delay = 1 + c.src.draw(5000); args.push_back("-t"); args.push_back(std::to_string(delay)); }
	bool by_args = c.src.chance(50);
	if (by_args) {
		size_t p = 0;
		for (;;) { size_t q = text.find(' ', p); args.push_back(text.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
		if (!delay && args.size() > 2 && args[1] == "-t") c.discard("an option");
	} else {
		std::string t = text;
		if (macro) for (int i = c.src.draw(3); i > 0; i--) t += "\n";
		for (size_t p = 0; p < t.size();) { size_t m = c.src.chance(30) ? 1 + c.src.draw(20) : t.size(); in.push_back(t.substr(p, m)); p += m; }
		if (in.size() > 150) c.discard("too many pieces");
		c.label("standard input");
	}
	c.docf("keyd %s%s %s<%s>\n", args[0].c_str(), delay ? sfmt(" -t %ld", delay).c_str() : "", by_args ? "" : "(from standard input) ", text.substr(0, 4000).c_str());
	conf("a.conf", "[ids]\n1234\n[main]\na = b\nb = layer(l)\n[l:S]\n");
	std::string sent, ok;
	{ Raw r; memset(&r, 0, sizeof r); ok = std::string((char *)&r, sizeof r); }
	ks::End e = client(args, in, ok, sent);
	if (e != ks::EXITED) c.fail("hangs", "keyd " + args[0] + " does not end: " + ks::blocked_on);
	if (cut) {
		c.label("too long");
		if (ks::exit_code == 0) c.fail("silent", "text which is too long is not reported");
		if (sent.size()) c.fail("cut", "text which is too long is sent in part");
		c.nontrivial();
		return;
	}
	if (sent.size() != sizeof(Raw)) c.failf("request", "keyd %s sent %zu bytes", args[0].c_str(), sent.size());
	// the daemon
	ks::plug(keyboard());
	static ks::Conn *con;
	ks::at(us(1000), [sent] { con = ks::connect(); ks::send(con, sent); });
	ks::free_naps = c.src.chance(50);
	must_finish(c, ks::run(us(30000)));
	Decoder d;
	for (auto &o : ks::out) {
		if (o.type != EV_KEY) continue;
		if (o.dev != ks::VKBD || !from_linux(o.code)) c.fail("stream", "not a key: " + ks::show(o));
		d.key(from_linux(o.code), o.value);
	}
	if (!ks::refused.empty()) c.fail("unknown-code", "the virtual device cannot send " + ks::show(ks::refused[0]));
	int ty = reply_type(con);
	if (ty != IPC_SUCCESS_ && ty != IPC_FAIL_) c.fail("no-answer", "no reply");
	std::string txt = reply_text(con);
	if (!macro && foreign != (ty == IPC_FAIL_)) c.fail("report", foreign ? "a character which cannot be typed is not reported" : "refused: " + txt);
	if (macro && ty == IPC_FAIL_) c.fail("report", "refused: " + txt);
	if (!d.ok) c.fail("stream", d.why);
	if (!d.held_clean()) c.fail("stuck", "keys left down after typing");
	if (d.text != want) c.fail("text", "typed    : " + want + "\narrives as: " + d.text);
	// and what the user is told
	if (ty == IPC_FAIL_ || c.src.chance(20)) {
		std::string s2;
		e = client(args, in, con->out, s2);
		if (e != ks::EXITED) c.fail("hangs", "keyd " + args[0] + " does not end");
		if ((ks::exit_code != 0) != (ty == IPC_FAIL_)) c.failf("report", "exit status %d, though the daemon %s", ks::exit_code, ty == IPC_FAIL_ ? "refused" : "accepted");
		if (ty == IPC_FAIL_ && ks::log().find(txt) == std::string::npos) c.fail("report", "the error is not shown");
	}
	if (foreign) c.label("unsupported characters");
	if (delay) c.label("with a delay");
	c.nontrivial(uni || want.size() > 8);
}
static pbt::Reg r28c({"C28", "command-line", "random text as arguments or standard input (in pieces) of the real 'keyd input' and 'keyd do', its request given to the real daemon, the virtual keyboard decoded with a US layout and the compose file; non-trivial: non-ASCII, or more than 8 characters, or beyond the size limit", 6000, 200000, true, c28, nullptr, [] { Decoder::by_char(); Decoder::compose(); plain_text("a"); keytab(); linux_codes(1); warm_chars(); }});
