// C41: one keyd.  Several real processes, each running keyd's main() on simulated devices, share the real
// control socket and its lock in the scratch directory.
#include "world.h"
#include "../engine/shim.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __real_execv(const char *p, char *const a[]);

using namespace spec;
using namespace world;
using pbt::Ctx;
using pbt::sfmt;

struct Raw { int type; uint32_t timeout; char data[4096]; size_t sz; };
struct Report { char what; int exit_code, grabs, virt, fd_in; };     // what: R running, X ended

struct Proc {
	pid_t pid = -1;
	int ctl = -1, rep = -1;
	bool alive() const { return pid > 0; }
};

static int exec_real(const char *p, char *const a[]) { return __real_execv(p, a); }

static Proc launch(int mask, int delay_us, bool no_uinput)
{
	Proc p;
	int to[2], from[2];
	if (pipe2(to, O_CLOEXEC) || pipe2(from, O_CLOEXEC)) { perror("pipe"); _Exit(3); }
	fflush(nullptr);
	pid_t parent = getpid();
	p.pid = fork();
	if (p.pid < 0) { perror("fork"); _Exit(3); }
	if (p.pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != parent) _Exit(0);
		close(to[1]); close(from[0]);
		signal(SIGPIPE, SIG_IGN);
		umask(mask);
		static int ctl, rep;
		ctl = to[0]; rep = from[1];
		static ks::Dev *kb;
		kb = ks::plug(keyboard());
		sh_exec = exec_real; sh_real_exec = 1;
		static bool told;
		static auto tell = [](char what) {
			Report r;
			memset(&r, 0, sizeof r);
			r.what = what; r.exit_code = ks::exit_code; r.grabs = kb->grabs;
			for (int i : {ks::VKBD, ks::VPTR}) if (ks::Dev *d = ks::virtual_dev(i)) r.virt += d->present;
			if (write(rep, &r, sizeof r) != sizeof r) _Exit(3);
		};
		ks::served = true; ks::free_naps = true; ks::no_uinput = no_uinput;
		ks::real_stdin = true;          // exit handlers run
		ks::real_poll = [](struct pollfd *q, nfds_t n, int) {
			if (!told) { told = true; tell('R'); }
			for (;;) {
				std::vector<pollfd> v;
				std::vector<int> at;
				for (nfds_t i = 0; i < n; i++) { q[i].revents = 0; if (!ks::is_fake(q[i].fd)) { v.push_back(q[i]); at.push_back(i); } }
				v.push_back({ctl, POLLIN, 0});
				bool wait = true;
				for (nfds_t i = 0; i < n; i++) if (ks::is_fake(q[i].fd) && ks::ready_events(q[i].fd) & q[i].events) wait = false;
				if (poll(v.data(), v.size(), wait ? -1 : 0) < 0) continue;
				if (v.back().revents) {
					char b;
					if (read(ctl, &b, 1) != 1) _Exit(0);
					if (b == 'T') { ks::raise_signal(SIGTERM); _Exit(0); }
					ks::key(kb, KEY_A, 1); ks::key(kb, KEY_A, 0);
				}
				int r = 0;
				for (nfds_t i = 0; i < n; i++) if (ks::is_fake(q[i].fd)) { q[i].revents = ks::ready_events(q[i].fd) & (q[i].events | POLLERR | POLLHUP | POLLNVAL); r += !!q[i].revents; }
				for (size_t i = 0; i < at.size(); i++) { q[at[i]].revents = v[i].revents; r += !!v[i].revents; }
				if (r) return r;
			}
		};
		if (delay_us) usleep(delay_us);
		ks::run(us(1000000));
		if (!told) tell('X');
		_Exit(0);
	}
	close(to[0]); close(from[1]);
	p.ctl = to[1]; p.rep = from[0];
	return p;
}
static void reap(Proc &p)
{
	int st;
	while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) ;
	close(p.ctl); close(p.rep);
	p.pid = -1;
}
static bool hear(Proc &p, Report &r)
{
	struct pollfd q = {p.rep, POLLIN, 0};
	int n;
	while ((n = poll(&q, 1, 60000)) < 0 && errno == EINTR) ;
	return n > 0 && read(p.rep, &r, sizeof r) == sizeof r;
}

static int dial(pid_t *peer)
{
	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_un a = {};
	a.sun_family = AF_UNIX;
	strcpy(a.sun_path, "keyd.sock");
	if (connect(sd, (struct sockaddr *)&a, sizeof a)) { close(sd); return -1; }
	struct ucred cr; socklen_t l = sizeof cr;
	if (getsockopt(sd, SOL_SOCKET, SO_PEERCRED, &cr, &l)) _Exit(3);
	*peer = cr.pid;
	return sd;
}
// One request; the type of the reply (-1: none).  keyd gives a client 200 ms for its request, which a
// loaded machine may exceed: tried several times.
static int ask(int type, const std::string &data, pid_t *peer)
{
	for (int k = 0; k < 8; k++) {
		int sd = dial(peer);
		if (sd < 0) return -2;
		Raw r;
		memset(&r, 0, sizeof r);
		r.type = type; r.sz = data.size();
		memcpy(r.data, data.data(), data.size());
		bool ok = send(sd, &r, sizeof r, MSG_NOSIGNAL) == sizeof r;
		struct timeval tv = {20, 0};
		setsockopt(sd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		if (ok) ok = recv(sd, &r, sizeof r, MSG_WAITALL) == sizeof r;
		close(sd);
		if (ok) return r.type;
	}
	return -1;
}

static void c41(Ctx &c)
{
	enter();
	conf("a.conf", "[ids]\n*\n[main]\na = command(sh ./go)\n");
	// may a process here change its group?
	static int can_group = -1;
	if (can_group < 0) { pid_t p = fork(); if (!p) _exit(setgid(31337) ? 1 : 0); int st; waitpid(p, &st, 0); can_group = WIFEXITED(st) && !WEXITSTATUS(st); }
	ks::keyd_gid = can_group && c.src.chance(80) ? 31337 : -1;
	gid_t want_gid = ks::keyd_gid >= 0 ? ks::keyd_gid : getegid();
	if (ks::keyd_gid >= 0) c.label("group"); else c.docf("no group keyd\n");

	Proc owner;
	std::vector<pid_t> commands;
	auto cleanup = [&] { for (pid_t p : commands) kill(p, SIGKILL); if (owner.alive()) { kill(owner.pid, SIGKILL); reap(owner); } };
	auto bad = [&](const char *tag, const std::string &m) { cleanup(); c.fail(tag, m); };
	int overlap = 0, served = 0, refused = 0, takeovers = 0, ncmd = 0, killed = 0, cut = 0, clean = 0;
	auto check = [&](const char *when) {
		pid_t peer;
		if (!owner.alive()) {
			int sd = dial(&peer);
			if (sd >= 0) { close(sd); bad("ghost", sfmt("%s: no keyd is running, and a client is let in", when)); }
			return;
		}
		int r = ask(IPC_RELOAD_, "", &peer);
		if (r == -2) bad("deaf", sfmt("%s: a client cannot connect to the running keyd", when));
		if (peer != owner.pid) bad("another", sfmt("%s: the client is connected to something else than the running keyd", when));
		if (r != IPC_SUCCESS_) bad("no-answer", sfmt("%s: the running keyd answers %d", when, r));
		struct stat st;
		if (stat("keyd.sock", &st) || !S_ISSOCK(st.st_mode)) bad("socket", sfmt("%s: the socket is gone", when));
		if ((st.st_mode & 07777) != 0660) bad("mode", sfmt("%s: the socket has mode %o", when, st.st_mode & 07777));
		if (st.st_gid != want_gid) bad("group", sfmt("%s: the socket belongs to group %d, not %d", when, (int)st.st_gid, (int)want_gid));
		if (!stat("keyd.sock.lock", &st) && st.st_mode & 0077) bad("lock-mode", sfmt("%s: others can lock keyd out (mode %o)", when, st.st_mode & 07777));
		served++;
	};
	static const int masks[] = {022, 077, 0, 027, 0777};
	int n = 2 + c.src.draw(10);
	for (int step = 0; step < n; step++) {
		int op = step == 0 ? 0 : c.src.weighted({8, 3, 3, 3, 2, 3, 1});
		int mask = masks[c.src.draw(5)];
		switch (op) {
		case 0: {                       // one or more start at the same time
			int k = 1 + (c.src.chance(60) ? c.src.draw(4) : 0);
			std::vector<Proc> v;
			// ... perhaps just as the running one ends
			bool leaving = owner.alive() && c.src.chance(40), gently = c.src.chance(50);
			int when = c.src.draw(10000);
			c.docf("%d start (umask %o)%s\n", k, mask, leaving ? gently ? " as the running one ends" : " as the running one is killed" : "");
			std::vector<int> dl;
			for (int i = 0; i < k; i++) dl.push_back(c.src.chance(50) ? c.src.draw(3000) : 0);
			for (int i = 0; i < k; i++) v.push_back(launch(mask, dl[i], false));
			if (leaving) {
				usleep(when);
				if (gently) { if (write(owner.ctl, "T", 1) != 1) _Exit(3); } else kill(owner.pid, SIGKILL);
				reap(owner);
				overlap++;
			}
			std::vector<Report> r(k);
			std::string why;
			int won = -1;
			for (int i = 0; i < k; i++) {
				if (!hear(v[i], r[i])) { if (why.empty()) why = "keyd neither runs nor gives up"; continue; }
				if (r[i].what == 'R') {
					if (owner.alive() && why.empty()) why = "a second keyd runs beside the first";
					if (won >= 0 && why.empty()) why = "two keyds were started at the same time, and both run";
					if ((!r[i].grabs || r[i].virt != 2) && why.empty()) why = "keyd runs without its devices";
					won = i;
				} else {
					refused++;
					if (!r[i].exit_code && why.empty()) why = "keyd gives up, and reports success";
					if (r[i].grabs && why.empty()) why = "a keyd which gives up has taken the keyboard";
					if (r[i].virt && why.empty()) why = "a keyd which gives up has created virtual devices";
				}
			}
			if (why.empty() && won < 0 && !owner.alive() && !leaving) why = "no keyd was running, and none could be started";
			for (int i = 0; i < k; i++) if (i != won || !why.empty()) { kill(v[i].pid, SIGKILL); reap(v[i]); }
			if (!why.empty()) bad(owner.alive() ? "second" : "start", why);
			if (won >= 0) { owner = v[won]; takeovers++; }
			break;
		}
		case 1:                         // the running one is killed
			if (!owner.alive()) break;
			c.docf("killed\n");
			kill(owner.pid, SIGKILL); reap(owner); killed++;
			break;
		case 2:                         // the running one is told to end
			if (!owner.alive()) break;
			c.docf("ends\n");
			if (write(owner.ctl, "T", 1) != 1) _Exit(3);
			reap(owner); clean++;
			break;
		case 3: {                       // it runs a command which stays
			if (!owner.alive()) break;
			std::string f = sfmt("cmd%d", ncmd++);
			c.docf("runs a command which stays\n");
			FILE *go = fopen("go", "w");
			fprintf(go, "echo $$ > tmp; mv tmp %s; exec sleep 60\n", f.c_str());
			fclose(go);
			if (write(owner.ctl, "K", 1) != 1) _Exit(3);
			int pid = 0;
			for (int i = 0; i < 6000 && !pid; i++) { if (FILE *g = fopen(f.c_str(), "r")) { if (fscanf(g, "%d", &pid) != 1) pid = 0; fclose(g); } if (!pid) usleep(i < 100 ? 200 : 10000); }
			if (!pid) bad("command", "the command was not run");
			commands.push_back(pid);
			// the shell goes on to exec sleep(1), which changes nothing about what it inherited
			c.label("a command outlives keyd");
			break;
		}
		case 4: {                       // one is killed as it starts
			int t = c.src.draw(8000);
			c.docf("one starts and is killed after %d us\n", t);
			Proc p = launch(mask, 0, false);
			usleep(t);
			kill(p.pid, SIGKILL);
			reap(p); cut++;
			break;
		}
		case 5:                         // what may lie about while none runs
			if (owner.alive()) break;
			unlink("keyd.sock");
			switch (c.src.draw(4)) {
			case 0: c.docf("no socket file\n"); unlink("keyd.sock.lock"); break;
			case 1: { c.docf("an ordinary file in place of the socket\n"); FILE *f = fopen("keyd.sock", "w"); if (f) fclose(f); break; }
			case 2: {
				c.docf("a dead socket\n");
				int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
				struct sockaddr_un a = {};
				a.sun_family = AF_UNIX;
				strcpy(a.sun_path, "keyd.sock");
				if (bind(sd, (struct sockaddr *)&a, sizeof a)) _Exit(3);
				close(sd);
				break;
			}
			case 3: c.docf("a link to nothing\n"); if (symlink("nowhere", "keyd.sock")) _Exit(3); break;
			}
			break;
		case 6: {                       // one cannot create its virtual devices
			c.docf("one starts without uinput\n");
			Proc p = launch(mask, 0, true);
			Report r;
			bool ok = hear(p, r);
			kill(p.pid, SIGKILL); reap(p);
			if (!ok || r.what != 'X' || !r.exit_code || r.grabs) bad("no-uinput", "keyd does not give up where it cannot create a virtual keyboard");
			break;
		}
		}
		check(sfmt("after step %d", step).c_str());
	}
	cleanup();
	if (refused) c.label("refused");
	if (takeovers > 1) c.label("a new one takes over");
	if (killed) c.label("killed");
	if (clean) c.label("ended");
	if (overlap) c.label("started while another ends");
	if (cut) c.label("killed while starting");
	c.nontrivial(served && refused + takeovers > 1);
}
static pbt::Reg r41({"C41", "processes", "1-4 real processes at a time run keyd's main() on simulated devices over the real socket and lock file, with several umasks; some are killed, ended, or killed while they start, leave commands running or find other files in place; after each step the real socket is dialled; non-trivial: the socket was served and more than one process tried", 1200, 20000, true, c41});
