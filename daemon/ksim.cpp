#include "ksim.h"
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <linux/uinput.h>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" int keyd_main(int argc, char **argv);

namespace ks {

bool on = false;
int exit_code = 0;
std::string blocked_on;
long longest_block = 0, polls = 0;
bool free_naps = false;
bool no_daemon = false, stdout_pipe = false, stdout_gone = false;
bool hid_present = false;
std::vector<std::pair<long, std::string>> hid;
std::vector<long> hid_gaps;
int hid_signals = 0, hid_waits = 0;
bool awaiting_release = false;
bool real_stdin = false, tty_out = false;
bool served = false, no_uinput = false;
int keyd_gid = -1;
std::function<int(struct pollfd *, nfds_t, int)> real_poll;
static std::vector<void (*)(void)> at_exit;
static std::map<int, void (*)(int)> handlers;
static long hid_busy_until = 0;
long start_time = 100000L * 1000000;
std::vector<Out> out, refused;
std::function<void(Conn *)> on_connect;
std::function<void()> on_scanned;

static long clock_ = 0, end_ = 0;
static bool inside = false;                     // executing in the simulation, called from keyd
static jmp_buf back;
static int running_pid = 0;
static std::multimap<long, std::function<void()>> script;

struct UI { bool created = false; std::set<int> ev, key, rel, abs, led; std::string name; int vendor = 0, product = 0; Dev *dev = nullptr; int which = -1; std::map<int, std::pair<int, int>> range; };
struct Fd {
	enum K { FREE, DEV, UINPUT, NOTIFY, LISTEN, CONN, HID } k = FREE;
	Dev *dev = nullptr;
	std::deque<input_event> q;
	bool grabbed = false;
	UI *ui = nullptr;
	Conn *con = nullptr;
	bool nonblock = false, cloexec = false;
};
static const int BASE = 10000;
static std::vector<Fd> fds;
static std::vector<Dev *> devs;
static std::deque<std::string> notify_q;
static bool watching = false;
static int next_num = 0;
static std::deque<Conn *> pending;
static int vcount = 0;
static int log_fd = -1;

static int newfd(Fd::K k)
{
	for (size_t i = 0; i < fds.size(); i++)
		if (fds[i].k == Fd::FREE) { fds[i] = Fd(); fds[i].k = k; return BASE + (int)i; }
	fds.emplace_back();
	fds.back().k = k;
	return BASE + (int)fds.size() - 1;
}
bool is_fake(int fd) { return fd >= BASE; }
static bool fake(int fd) { return fd >= BASE; }
static Fd *get(int fd)
{
	if (fd < BASE || fd >= BASE + (int)fds.size() || fds[fd - BASE].k == Fd::FREE) return nullptr;
	return &fds[fd - BASE];
}

std::string show(const Out &o)
{
	char b[128];
	const char *t = o.type == EV_KEY ? "KEY" : o.type == EV_REL ? "REL" : o.type == EV_ABS ? "ABS" : o.type == EV_SYN ? "SYN" : o.type == EV_LED ? "LED" : "?";
	snprintf(b, sizeof b, "%ld.%03ld %s %s %d %d", (o.t - start_time) / 1000, (o.t - start_time) % 1000, o.dev == VKBD ? "kbd" : "ptr", t, o.code, o.value);
	return b;
}
std::string show(const std::vector<Out> &v, size_t from, size_t n)
{
	std::string s;
	for (size_t i = from; i < v.size() && i < from + n; i++) s += show(v[i]) + "\n";
	return s;
}

long now() { return clock_; }
void at(long us, std::function<void()> fn) { script.emplace(us, std::move(fn)); }

static void node_file(const Dev *d, bool create)
{
	char p[64];
	snprintf(p, sizeof p, "input/event%d", d->num);
	if (create) { int fd = ::open(p, O_CREAT | O_WRONLY, 0600); if (fd >= 0) ::close(fd); }
	else unlink(p);
}

Dev *plug(const Dev &d0, int num)
{
	Dev *d = new Dev(d0);
	d->num = num >= 0 ? num : next_num++;
	d->present = true;
	devs.push_back(d);
	node_file(d, true);
	char n[32]; snprintf(n, sizeof n, "event%d", d->num);
	if (watching) notify_q.push_back(n);
	return d;
}
void note_other_node(const std::string &name) { if (watching) notify_q.push_back(name); }
void unplug(Dev *d) { if (!d->present) return; d->present = false; node_file(d, false); }

static void deliver(Dev *d, int type, int code, int value)
{
	input_event ev;
	memset(&ev, 0, sizeof ev);
	ev.type = type; ev.code = code; ev.value = value;
	ev.time.tv_sec = clock_ / 1000000; ev.time.tv_usec = clock_ % 1000000;
	if (d->busy) return;
	for (auto &f : fds) if (f.k == Fd::DEV && f.dev == d) f.q.push_back(ev);
}
// The input core's rules: unsupported codes, unchanged keys and zero motion go no further.
static bool core(Dev *d, int type, int code, int value)
{
	switch (type) {
	case EV_KEY:
		if (!d->keys.count(code)) return false;
		if (value == 2) return d->down.count(code);
		if (d->down.count(code) == (size_t)!!value) return false;
		if (value) d->down.insert(code); else d->down.erase(code);
		return true;
	case EV_REL: return d->rel.count(code) && value;
	case EV_ABS:
		if (!d->abs.count(code)) return false;
		if (d->absval.count(code) && d->absval[code] == value) return false;
		d->absval[code] = value;
		return true;
	case EV_LED:
		if (!d->led.count(code)) return false;
		if (d->lit.count(code) == (size_t)!!value) return false;
		if (value) d->lit.insert(code); else d->lit.erase(code);
		return true;
	case EV_SYN: case EV_MSC: return true;
	}
	return false;
}
bool input(Dev *d, int type, int code, int value)
{
	if (!d->present || !core(d, type, code, value)) return false;
	deliver(d, type, code, value);
	return true;
}
void syn(Dev *d) { input(d, EV_SYN, 0, 0); }
void key(Dev *d, int code, int value) { if (input(d, EV_KEY, code, value)) syn(d); }

Conn *connect()
{
	Conn *c = new Conn();
	pending.push_back(c);
	return c;
}
void send(Conn *c, const std::string &b) { c->in += b; }
void close_client(Conn *c) { c->eof = c->closed = true; }
void take(Conn *c) { c->unread = 0; }
Dev *virtual_dev(int which)
{
	for (auto &f : fds) if (f.k == Fd::UINPUT && f.ui->which == which) return f.ui->dev;
	return nullptr;
}
void system_led(int code, int value)
{
	Dev *d = virtual_dev(VKBD);
	if (d) input(d, EV_LED, code, value);
}
std::set<int> virtual_down()
{
	std::set<int> s;
	for (int w : {VKBD, VPTR}) if (Dev *d = virtual_dev(w)) s.insert(d->down.begin(), d->down.end());
	return s;
}
std::set<int> all_down() { std::set<int> s; for (auto &f : fds) if (f.k == Fd::DEV) s.insert(f.dev->down.begin(), f.dev->down.end()); return s; }
bool keyd_has(Dev *d, bool grabbed)
{
	for (auto &f : fds) if (f.k == Fd::DEV && f.dev == d && (!grabbed || f.grabbed)) return true;
	return false;
}
int open_fds()
{
	int n = 0;
	for (auto &f : fds) if (f.k == Fd::DEV && !f.dev->present) n++;
	return n;
}

static void due()
{
	while (!script.empty() && script.begin()->first <= clock_) {
		auto fn = std::move(script.begin()->second);
		script.erase(script.begin());
		fn();
	}
}
static void advance_to(long t)
{
	while (!script.empty() && script.begin()->first <= t) {
		if (script.begin()->first > clock_) clock_ = script.begin()->first;
		due();
	}
	if (t > clock_) clock_ = t;
}
extern "C" void __real__exit(int);
// keyd writes without end: as good as hanging, but it must not take the memory first
static void runaway(size_t n, size_t most) { if (n > most) __real__exit(78); }       // HANG_EXIT of lib/pbt.cpp
static void leave(int how) { on = false; inside = false; longjmp(back, how); }

void raise_signal(int sig)
{
	auto h = handlers.count(sig) ? handlers[sig] : SIG_DFL;
	if (h == SIG_IGN) return;
	if (h == SIG_DFL) { exit_code = 128 + sig; leave(2); }
	inside = false;
	h(sig);
	inside = true;
}

// A blocking call: let the world go on until it can proceed.  0 if ready, -1 on timeout.
static int wait_until(const std::function<bool()> &ready, long timeout, const char *what)
{
	long t0 = clock_;
	due();
	while (!ready()) {
		long next = script.empty() ? -1 : script.begin()->first;
		if (timeout > 0 && (next < 0 || next > t0 + timeout)) { advance_to(t0 + timeout); due(); if (clock_ - t0 > longest_block) longest_block = clock_ - t0; return ready() ? 0 : -1; }
		if (next < 0) { blocked_on = what; return -2; }
		advance_to(next);
	}
	if (clock_ - t0 > longest_block) longest_block = clock_ - t0;
	return 0;
}

std::string inherited()
{
	std::string s;
	for (auto &f : fds)
		if (f.k != Fd::FREE && !f.cloexec)
			s += f.k == Fd::DEV ? "input device, " : f.k == Fd::UINPUT ? "virtual device, " : f.k == Fd::NOTIFY ? "inotify, " : f.k == Fd::LISTEN ? "control socket, " : "client connection, ";
	return s;
}

std::string log()
{
	fflush(stdout);
	std::string s;
	char b[4096];
	off_t o = 0;
	ssize_t n;
	while (log_fd >= 0 && (n = pread(log_fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}

End run(long end_us, std::vector<std::string> argv)
{
	std::vector<char *> av;
	for (auto &a : argv) av.push_back(strdup(a.c_str()));
	av.push_back(nullptr);
	end_ = end_us;
	clock_ = start_time;
	running_pid = getpid();
	fflush(stdout);
	log_fd = memfd_create("log", MFD_CLOEXEC);
	int saved = fcntl(1, F_DUPFD_CLOEXEC, 3);
	dup2(log_fd, 1);
	volatile int how;
	if ((how = setjmp(back)) == 0) {
		on = true;
		exit_code = keyd_main((int)argv.size(), av.data());
		on = false;
		how = 2;
	}
	on = false;
	fflush(stdout);
	dup2(saved, 1);
	close(saved);
	return how == 1 ? DONE : how == 2 ? EXITED : BLOCKED;
}

// ---------------------------------------------------------------- calls
static bool is_uinput(const char *p) { return !strcmp(p, "/dev/uinput") || !strcmp(p, "/dev/input/uinput"); }
static int k_open2(const char *path, int flags);
static int k_open(const char *path, int flags)
{
	int fd = k_open2(path, flags);
	if (fd >= 0) get(fd)->cloexec = flags & O_CLOEXEC;
	return fd;
}
static int k_open2(const char *path, int flags)
{
	if (is_uinput(path) && no_uinput) { errno = ENOENT; return -1; }
	if (is_uinput(path)) { int fd = newfd(Fd::UINPUT); get(fd)->ui = new UI(); return fd; }
	if (hid_present && !strcmp(path, "/dev/hidg0")) { int fd = newfd(Fd::HID); get(fd)->nonblock = flags & O_NONBLOCK; return fd; }
	int num = -1, used = 0;
	if (sscanf(path, "/dev/input/event%d%n", &num, &used) == 1 && !path[used]) {
		for (auto d : devs)
			if (d->num == num && d->present) {
				int fd = newfd(Fd::DEV);
				get(fd)->dev = d;
				get(fd)->nonblock = flags & O_NONBLOCK;
				return fd;
			}
		errno = ENOENT;
		return -1;
	}
	errno = ENOENT;
	return -1;
}

static ssize_t con_read(Fd *f, void *buf, size_t n, int flags)
{
	Conn *c = f->con;
	if (n == 0) return 0;
	size_t want = flags & MSG_WAITALL ? n : 1;
	auto ready = [c, want] { return c->in.size() >= want || c->eof; };
	if (!ready()) {
		if (flags & MSG_DONTWAIT || c->nonblock) { if (c->in.empty()) { errno = EAGAIN; return -1; } }
		else {
			int r = wait_until(ready, c->rcvto, "reading from a client");
			if (r == -2) leave(3);
			if (r == -1 && c->in.empty()) { errno = EAGAIN; return -1; }
		}
	}
	if (c->in.empty()) {
		if (c->closed && c->unread) { errno = ECONNRESET; return -1; }
		return 0;
	}
	size_t m = std::min(n, c->in.size());
	if (c->sip && !(flags & MSG_WAITALL)) m = std::min(m, c->sip);
	memcpy(buf, c->in.data(), m);
	if (!(flags & MSG_PEEK)) c->in.erase(0, m);
	return m;
}
static ssize_t con_write(Fd *f, const void *buf, size_t n, int flags)
{
	Conn *c = f->con;
	if (c->closed) { errno = EPIPE; return -1; }
	if (c->gulp) n = std::min(n, c->gulp);
	size_t done = 0;
	const char *p = (const char *)buf;
	while (done < n) {
		if (c->greedy) c->unread = 0;
		size_t room = c->cap > c->unread ? c->cap - c->unread : 0;
		size_t m = std::min(room, n - done);
		if (m) {
			c->out.append(p + done, m);
			runaway(c->out.size(), 64 << 20);
			c->chunks.push_back({clock_, std::string(p + done, m)});
			if (!c->greedy) c->unread += m;
			done += m;
			continue;
		}
		if (flags & MSG_DONTWAIT || c->nonblock) break;
		int r = wait_until([c] { return c->closed || c->greedy || c->unread < c->cap; }, c->sndto, "writing to a client");
		if (r == -2) leave(3);
		if (c->closed) { if (done) break; errno = EPIPE; return -1; }
		if (r == -1) break;
	}
	if (!done && n) { errno = EAGAIN; return -1; }
	return done;
}
static ssize_t k_read(int fd, void *buf, size_t n)
{
	Fd *f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	switch (f->k) {
	case Fd::DEV: {
		if (!f->dev->present) { errno = ENODEV; return -1; }
		if (n < sizeof(input_event)) { errno = EINVAL; return -1; }
		if (f->q.empty()) {
			if (f->nonblock) { errno = EAGAIN; return -1; }
			if (wait_until([f] { return !f->q.empty() || !f->dev->present; }, 0, "reading from a device") == -2) leave(3);
			if (!f->dev->present) { errno = ENODEV; return -1; }
		}
		size_t k = 0;
		while ((k + 1) * sizeof(input_event) <= n && !f->q.empty()) {
			memcpy((char *)buf + k * sizeof(input_event), &f->q.front(), sizeof(input_event));
			f->q.pop_front();
			k++;
		}
		return k * sizeof(input_event);
	}
	case Fd::NOTIFY: {
		if (notify_q.empty()) { errno = EAGAIN; return -1; }
		size_t used = 0;
		while (!notify_q.empty()) {
			size_t len = (notify_q.front().size() + 16) & ~15ul;
			if (used + sizeof(inotify_event) + len > n) break;
			inotify_event *e = (inotify_event *)((char *)buf + used);
			memset(e, 0, sizeof(*e) + len);
			e->wd = 1; e->mask = IN_CREATE; e->len = len;
			memcpy(e->name, notify_q.front().data(), notify_q.front().size());
			used += sizeof(*e) + len;
			notify_q.pop_front();
		}
		if (!used) { errno = EINVAL; return -1; }
		return used;
	}
	case Fd::CONN: return con_read(f, buf, n, 0);
	default: errno = EINVAL; return -1;
	}
}
static ssize_t k_write(int fd, const void *buf, size_t n)
{
	Fd *f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	switch (f->k) {
	case Fd::DEV: {
		Dev *d = f->dev;
		if (!d->present) { errno = ENODEV; return -1; }
		for (size_t i = 0; i + sizeof(input_event) <= n; i += sizeof(input_event)) {
			input_event ev;
			memcpy(&ev, (const char *)buf + i, sizeof ev);
			if (ev.type == EV_LED) { d->led_writes++; d->led_log.push_back({ev.code, ev.value}); runaway(d->led_log.size(), 4 << 20); }
			if (core(d, ev.type, ev.code, ev.value)) deliver(d, ev.type, ev.code, ev.value);
		}
		return n;
	}
	case Fd::UINPUT: {
		UI *u = f->ui;
		if (!u->created) {
			if (n < sizeof(uinput_user_dev)) { errno = EINVAL; return -1; }
			uinput_user_dev ud;
			memcpy(&ud, buf, sizeof ud);
			u->name = ud.name; u->vendor = ud.id.vendor; u->product = ud.id.product;
			for (int a : u->abs) u->range[a] = {ud.absmin[a], ud.absmax[a]};
			return n;
		}
		for (size_t i = 0; i + sizeof(input_event) <= n; i += sizeof(input_event)) {
			input_event ev;
			memcpy(&ev, (const char *)buf + i, sizeof ev);
			Out o{clock_, u->which, ev.type, ev.code, ev.value};
			bool ok = ev.type == EV_SYN || (ev.type == EV_KEY && u->key.count(ev.code)) || (ev.type == EV_REL && u->rel.count(ev.code)) || (ev.type == EV_ABS && u->abs.count(ev.code)) || (ev.type == EV_LED && u->led.count(ev.code));
			if (!ok) { refused.push_back(o); continue; }
			if (ev.type == EV_REL && !ev.value) continue;
			// the input core does not pass on what changes nothing
			if (ev.type == EV_KEY && u->dev && u->dev->down.count(ev.code) == (size_t)!!ev.value) o.same = true;
			out.push_back(o);
			runaway(out.size(), 8 << 20);
			if (core(u->dev, ev.type, ev.code, ev.value)) deliver(u->dev, ev.type, ev.code, ev.value);
		}
		return n;
	}
	case Fd::CONN: return con_write(f, buf, n, 0);
	case Fd::HID:
		// one report at a time; the next one fits when the host has fetched it
		if (hid_signals > 0 && clock_ < hid_busy_until) { hid_signals--; errno = EINTR; return -1; }
		if (clock_ < hid_busy_until) {
			hid_waits++;
			if (f->nonblock) { errno = EAGAIN; return -1; }
			advance_to(hid_busy_until);
		}
		hid.push_back({clock_, std::string((const char *)buf, n)});
		runaway(hid.size(), 4 << 20);
		if (!hid_gaps.empty()) {
			hid_busy_until = clock_ + hid_gaps[hid.size() % hid_gaps.size()];
			at(hid_busy_until, [] {});
		}
		return n;
	default: errno = EINVAL; return -1;
	}
}
static void bits(const std::set<int> &s, unsigned char *out, size_t n)
{
	memset(out, 0, n);
	for (int b : s) if ((size_t)b / 8 < n) out[b / 8] |= 1 << (b % 8);
}
static int k_ioctl(int fd, unsigned long req, void *arg)
{
	Fd *f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	unsigned nr = _IOC_NR(req), size = _IOC_SIZE(req);
	if (f->k == Fd::DEV && _IOC_TYPE(req) == 'E') {
		Dev *d = f->dev;
		if (!d->present) { errno = ENODEV; return -1; }
		unsigned char tmp[4096];
		if (nr >= 0x20 && nr < 0x40) {          // EVIOCGBIT
			int t = nr - 0x20;
			size_t full = 8;
			std::set<int> evs{EV_SYN};
			if (!d->keys.empty()) evs.insert(EV_KEY);
			if (!d->rel.empty()) evs.insert(EV_REL);
			if (!d->abs.empty()) evs.insert(EV_ABS);
			if (!d->led.empty()) evs.insert(EV_LED);
			const std::set<int> none, *s = t == 0 ? &evs : t == EV_KEY ? &d->keys : t == EV_REL ? &d->rel : t == EV_ABS ? &d->abs : t == EV_LED ? &d->led : &none;
			if (t == EV_KEY) full = 96;
			bits(*s, tmp, full);
			size_t m = std::min((size_t)size, full);
			memcpy(arg, tmp, m);
			return m;
		}
		if (nr >= 0x40 && nr < 0x80) {          // EVIOCGABS
			int a = nr - 0x40;
			if (d->abs.empty()) { errno = EINVAL; return -1; }
			input_absinfo ai;
			memset(&ai, 0, sizeof ai);
			if (d->range.count(a)) { ai.minimum = d->range[a].first; ai.maximum = d->range[a].second; }
			memcpy(arg, &ai, std::min((size_t)size, sizeof ai));
			return 0;
		}
		switch (nr) {
		case 0x02: { input_id id; memset(&id, 0, sizeof id); id.bustype = BUS_USB; id.vendor = d->vendor; id.product = d->product; memcpy(arg, &id, sizeof id); return 0; }
		case 0x06: {
			size_t m = std::min((size_t)size, d->name.size() + 1);
			memcpy(arg, d->name.c_str(), m);
			return m;
		}
		case 0x07: case 0x08: errno = ENOENT; return -1;
		case 0x18: { bits(d->down, tmp, 96); size_t m = std::min((size_t)size, (size_t)96); memcpy(arg, tmp, m);
			// whoever waits for the keys to come up must see time pass
			if (!d->down.empty()) { awaiting_release = true; advance_to(clock_ + 1000); awaiting_release = false; if (clock_ > end_ + 60000000) { blocked_on = "waiting for keys to be released"; leave(3); } }
			return m; }
		case 0x19: { bits(d->lit, tmp, 8); size_t m = std::min((size_t)size, (size_t)8); memcpy(arg, tmp, m); return m; }
		case 0x90:
			if (arg) {
				if (d->busy) { errno = EBUSY; return -1; }
				for (auto &o : fds) if (o.k == Fd::DEV && o.dev == d && o.grabbed) { errno = EBUSY; return -1; }
				f->grabbed = true;
				d->down_at_grab.insert(d->down.begin(), d->down.end());
				d->grabs++;
			} else {
				if (!f->grabbed) { errno = EINVAL; return -1; }
				f->grabbed = false;
			}
			return 0;
		}
		errno = EINVAL;
		return -1;
	}
	if (f->k == Fd::UINPUT) {
		UI *u = f->ui;
		int v = (int)(long)arg;
		switch (req) {
		case UI_SET_EVBIT: u->ev.insert(v); return 0;
		case UI_SET_KEYBIT: if (v < 0 || v > KEY_MAX) { errno = EINVAL; return -1; } u->key.insert(v); return 0;
		case UI_SET_RELBIT: u->rel.insert(v); return 0;
		case UI_SET_ABSBIT: u->abs.insert(v); return 0;
		case UI_SET_LEDBIT: u->led.insert(v); return 0;
		case UI_SET_MSCBIT: case UI_SET_PROPBIT: return 0;
		case UI_DEV_CREATE: {
			if (!u->ev.count(EV_KEY)) u->key.clear();
			if (!u->ev.count(EV_REL)) u->rel.clear();
			if (!u->ev.count(EV_ABS)) u->abs.clear();
			if (!u->ev.count(EV_LED)) u->led.clear();
			u->created = true;
			u->which = vcount++;
			Dev d;
			d.name = u->name; d.vendor = u->vendor; d.product = u->product;
			d.keys = u->key; d.rel = u->rel; d.abs = u->abs; d.led = u->led; d.range = u->range;
			d.is_virtual = true;
			u->dev = plug(d);
			return 0;
		}
		case UI_DEV_DESTROY: if (u->dev) unplug(u->dev); return 0;
		}
		errno = EINVAL;
		return -1;
	}
	errno = ENOTTY;
	return -1;
}
static int k_close(int fd)
{
	Fd *f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->k == Fd::CONN) { f->con->srv_closed = true; f->con->srv_closed_at = clock_; f->con->fd = -1; }
	if (f->k == Fd::UINPUT && f->ui->dev) unplug(f->ui->dev);
	*f = Fd();
	return 0;
}
short ready_events(int fd)
{
	if (fd == 1) return stdout_gone ? POLLERR : POLLOUT;
	Fd *f = get(fd);
	if (!f) return POLLNVAL;
	switch (f->k) {
	case Fd::DEV: return !f->dev->present ? POLLERR | POLLHUP : f->q.empty() ? 0 : POLLIN;
	case Fd::NOTIFY: return notify_q.empty() ? 0 : POLLIN;
	case Fd::LISTEN: return pending.empty() ? 0 : POLLIN;
	case Fd::CONN: {
		Conn *c = f->con;
		return (c->in.size() || c->eof ? POLLIN : 0) | (c->closed ? POLLHUP : 0) | (c->greedy || c->unread < c->cap ? POLLOUT : 0);
	}
	case Fd::HID: return clock_ >= hid_busy_until ? POLLOUT : 0;
	default: return POLLOUT;
	}
}
static int k_poll(struct pollfd *p, nfds_t n, int timeout)
{
	polls++;
	if (served) return real_poll(p, n, timeout);
	long deadline = timeout >= 0 ? clock_ + (long)timeout * 1000 : -1;
	for (;;) {
		due();
		int ready = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			if (p[i].fd < 0) continue;
			p[i].revents = ready_events(p[i].fd) & (p[i].events | POLLERR | POLLHUP | POLLNVAL);
			if (p[i].revents) ready++;
		}
		if (ready) return ready;
		if (deadline >= 0 && clock_ >= deadline) return 0;
		long next = script.empty() ? -1 : script.begin()->first;
		if (clock_ >= end_ && (next < 0 || next > end_)) leave(1);
		long to = next >= 0 && next < end_ ? next : end_;
		if (deadline >= 0 && deadline < to) to = deadline;
		advance_to(to);
	}
}
static int k_accept()
{
	if (wait_until([] { return !pending.empty(); }, 0, "accept") == -2) leave(3);
	Conn *c = pending.front();
	pending.pop_front();
	int fd = newfd(Fd::CONN);
	get(fd)->con = c;
	c->fd = fd;
	c->accepted = true;
	c->accepted_at = clock_;
	return fd;
}

} // namespace ks

using namespace ks;
int ks_on(void) { return ks::on && !ks::inside && getpid() == ks::running_pid; }
void ks_usleep(unsigned us) { if (!free_naps) { inside = true; advance_to(clock_ + us); inside = false; } }

#define SIM (ks::on && !ks::inside && getpid() == ks::running_pid)
#define CHILD (ks::on && getpid() != ks::running_pid)
struct In { In() { ks::inside = true; } ~In() { ks::inside = false; } };
// (longjmp out of a call leaves `inside` to leave())

extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)

REAL(int, open, const char *, int, ...);
int __wrap_open(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	if (SIM && !strncmp(path, "/dev/", 5) && strcmp(path, "/dev/null")) { In i; return k_open(path, flags); }
	return __real_open(path, flags, mode);
}
REAL(int, openat, int, const char *, int, ...);
int __wrap_openat(int d, const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	if (SIM && !strncmp(path, "/dev/", 5) && strcmp(path, "/dev/null")) { In i; return k_open(path, flags); }
	return __real_openat(d, path, flags, mode);
}
REAL(ssize_t, read, int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (SIM && fake(fd)) { In i; return k_read(fd, b, n); } return __real_read(fd, b, n); }
REAL(ssize_t, write, int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (SIM && fake(fd)) { In i; return k_write(fd, b, n); } if (SIM && fd == 1 && stdout_gone) { errno = EPIPE; return -1; } return __real_write(fd, b, n); }
REAL(ssize_t, readv, int, const struct iovec *, int);
ssize_t __wrap_readv(int fd, const struct iovec *v, int n)
{
	if (!(SIM && fake(fd))) return __real_readv(fd, v, n);
	In i;
	ssize_t t = 0;
	for (int k = 0; k < n; k++) { ssize_t r = k_read(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[k].iov_len) break; }
	return t;
}
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
	if (!(SIM && fake(fd))) return __real_writev(fd, v, n);
	In i;
	ssize_t t = 0;
	for (int k = 0; k < n; k++) { ssize_t r = k_write(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[k].iov_len) break; }
	return t;
}
REAL(int, ioctl, int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (SIM && fake(fd)) { In i; return k_ioctl(fd, req, arg); }
	return __real_ioctl(fd, req, arg);
}
REAL(int, close, int);
int __wrap_close(int fd) { if (CHILD && fake(fd)) { if (Fd *f = get(fd)) f->k = Fd::FREE; return 0; } if (SIM && fake(fd)) { In i; return k_close(fd); } return __real_close(fd); }
REAL(int, poll, struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (SIM) { In i; return k_poll(p, n, t); } return __real_poll(p, n, t); }
REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m)
{
	if (SIM) { In i; return k_poll(p, n, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }
	return __real_ppoll(p, n, t, m);
}
REAL(int, clock_gettime, clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!SIM) return __real_clock_gettime(c, ts);
	ts->tv_sec = clock_ / 1000000; ts->tv_nsec = clock_ % 1000000 * 1000;
	return 0;
}
REAL(int, gettimeofday, struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	if (!SIM) return __real_gettimeofday(tv, z);
	tv->tv_sec = clock_ / 1000000; tv->tv_usec = clock_ % 1000000;
	return 0;
}
REAL(int, inotify_init1, int);
int __wrap_inotify_init1(int f) { if (SIM) { In i; int fd = newfd(Fd::NOTIFY); get(fd)->cloexec = f & IN_CLOEXEC; return fd; } return __real_inotify_init1(f); }
REAL(int, inotify_add_watch, int, const char *, uint32_t);
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m) { if (SIM) { watching = true; return 1; } return __real_inotify_add_watch(fd, p, m); }
REAL(int, socket, int, int, int);
int __wrap_socket(int a, int b, int c) { if (SIM && !served) { In i; int fd = newfd(Fd::LISTEN); get(fd)->cloexec = b & SOCK_CLOEXEC; return fd; } return __real_socket(a, b, c); }
REAL(int, bind, int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { if (SIM && fake(fd)) return 0; return __real_bind(fd, a, l); }
REAL(int, listen, int, int);
int __wrap_listen(int fd, int n) { if (SIM && fake(fd)) return 0; return __real_listen(fd, n); }
REAL(int, connect, int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	if (!(SIM && fake(fd))) return __real_connect(fd, a, l);
	// keyd as a client: the harness plays the daemon
	if (no_daemon) { errno = ECONNREFUSED; return -1; }
	In i;
	Conn *c = new Conn();
	c->fd = fd;
	if (on_connect) on_connect(c);
	Fd *f = get(fd);
	f->k = Fd::CONN;
	f->con = c;
	return 0;
}
REAL(int, accept, int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { if (SIM && fake(fd)) { In i; return k_accept(); } return __real_accept(fd, a, l); }
REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
	if (!(SIM && fake(fd))) return __real_accept4(fd, a, l, fl);
	In i;
	int r = k_accept();
	if (fl & SOCK_NONBLOCK) get(r)->con->nonblock = true;
	get(r)->cloexec = fl & SOCK_CLOEXEC;
	return r;
}
REAL(ssize_t, recv, int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
	if (!(SIM && fake(fd))) return __real_recv(fd, b, n, fl);
	In i;
	Fd *f = get(fd);
	if (!f || f->k != Fd::CONN) { errno = ENOTSOCK; return -1; }
	return con_read(f, b, n, fl);
}
REAL(ssize_t, send, int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
	if (!(SIM && fake(fd))) return __real_send(fd, b, n, fl);
	In i;
	Fd *f = get(fd);
	if (!f || f->k != Fd::CONN) { errno = ENOTSOCK; return -1; }
	return con_write(f, b, n, fl);
}
REAL(int, shutdown, int, int);
int __wrap_shutdown(int fd, int how) { if (SIM && fake(fd)) return 0; return __real_shutdown(fd, how); }
REAL(int, setsockopt, int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t n)
{
	if (!(SIM && fake(fd))) return __real_setsockopt(fd, lv, o, v, n);
	Fd *f = get(fd);
	if (f && f->k == Fd::CONN && lv == SOL_SOCKET && n >= sizeof(struct timeval)) {
		struct timeval tv;
		memcpy(&tv, v, sizeof tv);
		long us = tv.tv_sec * 1000000L + tv.tv_usec;
		if (o == SO_SNDTIMEO) f->con->sndto = us;
		if (o == SO_RCVTIMEO) f->con->rcvto = us;
	}
	return 0;
}
REAL(int, fcntl, int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!(SIM && fake(fd))) return __real_fcntl(fd, cmd, arg);
	Fd *f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	if (cmd == F_GETFD) return f->cloexec ? FD_CLOEXEC : 0;
	if (cmd == F_SETFD) { f->cloexec = arg & FD_CLOEXEC; return 0; }
	if (cmd == F_GETFL) return (f->k == Fd::CONN ? f->con->nonblock : f->nonblock) ? O_NONBLOCK | O_RDWR : O_RDWR;
	if (cmd == F_SETFL) { if (f->k == Fd::CONN) f->con->nonblock = arg & O_NONBLOCK; else f->nonblock = arg & O_NONBLOCK; }
	return 0;
}
REAL(int, vdprintf, int, const char *, va_list);
int __wrap_vdprintf(int fd, const char *fmt, va_list ap)
{
	if (!(SIM && fake(fd))) return __real_vdprintf(fd, fmt, ap);
	In i;
	char *b = new char[1 << 16];
	int n = vsnprintf(b, 1 << 16, fmt, ap);
	ssize_t r = k_write(fd, b, n);
	delete[] b;
	return r < n ? -1 : n;
}
int __wrap_dprintf(int fd, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	int r = __wrap_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
static DIR *scanning;
REAL(DIR *, opendir, const char *);
DIR *__wrap_opendir(const char *p)
{
	if (SIM && !strncmp(p, "/dev/input", 10)) { scanning = __real_opendir("input"); return scanning; }
	return __real_opendir(p);
}
REAL(int, closedir, DIR *);
int __wrap_closedir(DIR *d)
{
	int r = __real_closedir(d);
	if (d == scanning) {
		scanning = nullptr;
		if (ks::on_scanned) { auto f = ks::on_scanned; ks::on_scanned = nullptr; f(); }
	}
	return r;
}
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static std::vector<void *> *joined;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (!SIM) return __real_pthread_create(t, a, fn, arg);
	if (!joined) joined = new std::vector<void *>();
	joined->push_back(fn(arg));
	*t = (pthread_t)joined->size();
	return 0;
}
REAL(int, pthread_join, pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **r)
{
	if (!SIM) return __real_pthread_join(t, r);
	if (r) *r = (*joined)[(size_t)t - 1];
	return 0;
}
REAL(void, exit, int) __attribute__((noreturn));
void __wrap_exit(int code)
{
	if (!SIM) __real_exit(code);
	exit_code = code;
	while (!at_exit.empty()) { auto f = at_exit.back(); at_exit.pop_back(); f(); }
	leave(2);
	__real_exit(code);
}
REAL(void, _exit, int) __attribute__((noreturn));
void __wrap__exit(int code) { if (SIM) { exit_code = code; leave(2); } __real__exit(code); }
REAL(int, atexit, void (*)(void));
int __wrap_atexit(void (*f)(void)) { if (SIM) { if (real_stdin) at_exit.push_back(f); return 0; } return __real_atexit(f); }
REAL(struct group *, getgrnam, const char *);
struct group *__wrap_getgrnam(const char *n) { 
	if (!SIM) return __real_getgrnam(n);
	static struct group g;
	static char name[] = "keyd", *none[] = {nullptr};
	if (keyd_gid < 0 || strcmp(n, name)) return nullptr;
	g.gr_name = name; g.gr_passwd = name; g.gr_gid = keyd_gid; g.gr_mem = none;
	return &g;
}
REAL(int, setgid, gid_t);
int __wrap_setgid(gid_t g) { if (SIM && !served) return 0; return __real_setgid(g); }
REAL(int, nice, int);
int __wrap_nice(int n) { if (SIM) { errno = 0; return 0; } return __real_nice(n); }
REAL(int, setpriority, int, id_t, int);
int __wrap_setpriority(int a, id_t b, int c) { if (SIM) return 0; return __real_setpriority(a, b, c); }
REAL(int, flock, int, int);
int __wrap_flock(int fd, int op) { if (SIM && !served) return 0; return __real_flock(fd, op); }
REAL(int, chmod, const char *, mode_t);
int __wrap_chmod(const char *p, mode_t m) { if (SIM && !served) return 0; return __real_chmod(p, m); }
REAL(int, fstat, int, struct stat *);
int __wrap_fstat(int fd, struct stat *st)
{
	int r = __real_fstat(fd, st);
	if (SIM && fd == 1 && !r) st->st_mode = stdout_pipe ? S_IFIFO | 0600 : S_IFREG | 0600;
	return r;
}
REAL(int, isatty, int);
int __wrap_isatty(int fd) { if (SIM && fd == 1) return tty_out; if (SIM && !(fd == 0 && real_stdin)) return 0; return __real_isatty(fd); }
typedef void (*sigh)(int);
REAL(sigh, signal, int, sigh);
sigh __wrap_signal(int s, sigh h) { if (SIM) { auto o = handlers.count(s) ? handlers[s] : SIG_DFL; handlers[s] = h; return o; } return __real_signal(s, h); }
}
