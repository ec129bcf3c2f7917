// A simulated kernel for the whole daemon: input devices, uinput, inotify, the control socket and
// a virtual clock.  keyd's main() runs unmodified on top of it; every system call it makes is
// answered here (see the --wrap list in ../check), nothing reaches the real system except
// configuration files in the scratch directory.
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <poll.h>
#include <linux/input.h>

namespace ks {

struct Dev {                                    // an input device, as the kernel sees it
	std::string name = "kbd";
	int vendor = 0x1234, product = 0x5678;
	std::set<int> keys, rel, abs, led;
	std::map<int, std::pair<int, int>> range;   // of absolute axes
	// state
	std::set<int> down, lit;
	std::map<int, int> absval;
	bool present = true, is_virtual = false;
	int num = 0;                                // /dev/input/event<num>
	bool busy = false;                          // another program has grabbed it
	int grabs = 0;                              // times keyd grabbed it successfully
	std::set<int> down_at_grab;                 // keys down at some moment keyd grabbed it
	int led_writes = 0;
	std::vector<std::pair<int, int>> led_log;   // code, value as written by keyd
};

enum { VKBD = 0, VPTR = 1 };
struct Out { long t; int dev, type, code, value; bool same = false; };     // what keyd wrote to a virtual device
std::string show(const Out &o);
std::string show(const std::vector<Out> &v, size_t from = 0, size_t n = 200);

struct Conn {                                   // a client of the control socket
	std::string in;                         // sent by the client, not yet read by the daemon
	std::string out;                        // everything the daemon wrote
	size_t unread = 0;                      // ... of which the client has not taken this much
	size_t cap = 212992;                    // socket buffer
	bool greedy = true;                     // the client reads whatever arrives at once
	bool eof = false, closed = false;       // the client shut down its side / closed
	bool srv_closed = false, accepted = false;
	long accepted_at = -1, srv_closed_at = -1;
	long rcvto = 0, sndto = 0;
	bool nonblock = false;
	size_t sip = 0, gulp = 0;               // one read returns / one write takes at most this much (0: no limit)
	int fd = -1;
	std::vector<std::pair<long, std::string>> chunks;   // what was written when
};

enum End { DONE, EXITED, BLOCKED };

// ---- world
Dev *plug(const Dev &d, int num = -1);          // creates the node (inotify event if keyd watches)
void unplug(Dev *d);
bool input(Dev *d, int type, int code, int value);      // an event from the hardware (input core rules); false if the core drops it
void syn(Dev *d);
void key(Dev *d, int code, int value);          // input + sync report
Conn *connect();                                // a client connects
void send(Conn *c, const std::string &bytes);
void close_client(Conn *c);
void take(Conn *c);                             // a lazy client reads all that is there
void system_led(int code, int value);           // something lights an LED of the virtual keyboard
void note_other_node(const std::string &name);  // a non-event node appears in /dev/input

// ---- script and run
void at(long us, std::function<void()> fn);     // fn runs when the clock reaches us (in order given)
long now();                                     // virtual time (us)
End run(long end_us, std::vector<std::string> argv = {"keyd"});   // runs keyd until end_us
extern std::function<void(Conn *)> on_connect;    // keyd run as a client connects to its daemon
extern std::function<void()> on_scanned;         // once, when keyd has looked through /dev/input
extern bool no_daemon;                          // connecting as a client fails
// descriptor 0 is what it is for the caller: exit handlers run, isatty(0) is real, tty_out says whether
// standard output is a terminal
extern bool real_stdin, tty_out;
void raise_signal(int sig);                       // within a scripted function: keyd receives it
extern bool stdout_pipe, stdout_gone;             // standard output is a pipe; its reader has gone
// the control socket, its lock and the waiting are real (several keyds in processes of their own)
extern bool served;
extern std::function<int(struct pollfd *, nfds_t, int)> real_poll;
bool is_fake(int fd);
short ready_events(int fd);                       // of a simulated descriptor
extern int keyd_gid;                              // the group "keyd" (-1: there is none)
extern bool no_uinput;                            // there is no /dev/uinput
extern int exit_code;
extern std::string blocked_on;
extern long longest_block;                      // us spent inside a blocking socket call
// the USB gadget backend: reports taken by the host, which needs hid_gaps[i] us to fetch report i
extern bool hid_present;
extern std::vector<std::pair<long, std::string>> hid;
extern std::vector<long> hid_gaps;
extern int hid_signals, hid_waits;
extern bool awaiting_release;                     // keyd is waiting for held keys to come up
extern bool free_naps;                          // usleep costs no time
extern long start_time;                         // us

// ---- observations
extern std::vector<Out> out;                    // events accepted by the virtual devices
extern std::vector<Out> refused;                // written, but the virtual device has no such code
std::string inherited();                        // open descriptors a command run now would inherit
std::string log();                              // what keyd printed so far
bool keyd_has(Dev *d, bool grabbed);            // keyd has the device open (and grabbed)
int open_fds();                                 // fds keyd holds on devices that are gone
std::set<int> virtual_down();                   // keys down on the virtual devices (kernel view)
Dev *virtual_dev(int which);
std::set<int> all_down();                       // keys down on any device keyd reads, its own included
extern bool on;                                 // keyd is running under the simulation
extern long polls;

// stand-ins shared with the engine's (shim.c)
} // namespace ks

extern "C" {
int ks_on(void);
void ks_usleep(unsigned us);
}
