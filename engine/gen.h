// Generators for configurations and key histories, and the driver of the real engine.
#pragma once
#include "../lib/pbt.h"
#include "shim.h"
#include "spec.h"

struct Profile {
	std::vector<int> w = std::vector<int>(spec::NKINDS, 0);     // weights of actions bound to keys in main
	std::vector<int> w2;                                        // ... in other layers (default: like w)
	std::vector<int> nested = std::vector<int>(spec::NKINDS, 0);// weights of actions inside actions
	int min_layers = 1, max_layers = 4;                         // user layers
	int p_modset = 40;                                          // % of user layers with modifiers
	int p_layout = 0, p_composite = 0;                          // % of user layers of these kinds
	int chords = 0;                                             // max chords per layer
	int p_bind_main = 70, p_bind = 45;                          // % of pool keys bound per layer
	int pool_lo = 5, pool_hi = 9;
	int p_modkeys = 35;                                         // % of pool keys which are modifier keys
	int p_keymods = 25;                                         // % of key bindings with written modifiers
	int p_noop = 4;
	int depth = 2;                                              // nesting of actions
	std::vector<int> times = {20, 50, 100, 200};                // timeouts used by timed actions
	int p_oneshot_timeout = 0, p_tap_timeout = 0, p_chord_opts = 0, p_macro_opts = 0, p_guard_off = 10, p_default_layout = 0;
	int max_events = 40, max_held = 6;
	int p_dup = 0;                                              // % duplicated presses / orphan releases
	int p_nopair = 0;
	int p_macro_text = 40, p_macro_group = 15, p_macro_delay = 10;
	bool long_delays = false;                                   // now and then a macro pauses for up to a minute
	int p_extmouse = 0;
	int p_odd_codes = 10;
	bool clear_key = false;                                     // reserve a key bound to clear() in main only
	int macro_codes_from_pool = 1;
	int p_wide = 7;                                             // % of cases with many layers, keys, long times ...
	bool wide = false;
};

struct Case {
	spec::Cfg cfg;
	std::vector<int> pool;        // physical keys used
	std::vector<int> thresholds;  // interesting durations
	int clear_code = 0;
	bool wide = false;
};

spec::Action gen_action(pbt::Src &s, const Profile &p, const Case &c, const std::vector<int> &w, int depth);
spec::Macro gen_macro(pbt::Src &s, const Profile &p, const Case &c, bool allow_bare);
Case gen_case(pbt::Src &s, const Profile &p);
std::vector<spec::In> gen_history(pbt::Src &s, const Profile &p, const Case &c, bool release_all = true);
std::string show_history(const std::vector<spec::In> &h);
int gen_dt(pbt::Src &s, const Case &c);
void collect_thresholds(Case &c);

// Drives the real engine as the event loop does, on virtual time.
class Real {
public:
	~Real();
	bool load(const std::string &text, const std::string &dir = "");       // writes and parses a file; false if refused
	bool load_path(const std::string &path);
	void start();
	void restart();
	void key(int code, bool pressed, long t);
	void advance(long t);                      // fire the timers due up to and including t
	void wake(long t);                         // a spurious timer wake-up
	void batch(const std::vector<spec::In> &h, size_t from, size_t to);
	int bind(const std::string &e) { return sh_bind(e_, e.c_str()); }
	std::vector<spec::Ev> out;
	int ncommands = 0;
	long wall = 0, due = 0;
	sh_eng *eng() { return e_; }
	std::string log;                           // what was logged while loading
	bool want_log = false;
private:
	void call(int code, int pressed, long t);
	sh_eng *e_ = nullptr;
	long ticks_ = 0;
};

// Run a history through the model (returns false if it leaves the specified domain).
std::string write_cfg(const std::string &text, const std::string &name = "c.conf");
// First difference between two traces, as text ("" if equal).
std::string diff_traces(const std::vector<spec::Ev> &want, const std::vector<spec::Ev> &got, const char *a = "model", const char *b = "keyd ");
