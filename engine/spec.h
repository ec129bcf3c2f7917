// The abstract configuration (what the generator makes) and the reference model which gives it
// its meaning.  Nothing here includes or uses keyd's sources.
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace spec {

// ---------------------------------------------------------------- keys
struct KeyRow { int code; const char *name, *alt, *shifted; };
const std::vector<KeyRow> &keytab();
const KeyRow *key_by_code(int code);            // nullptr if the code has no name
std::string kname(int code);                    // name, or #code

enum { ALT = 1, META = 2, SHIFT = 4, CTRL = 8, ALTGR = 16 };
enum { K_LCTRL = 29, K_LSHIFT = 42, K_RSHIFT = 54, K_LALT = 56, K_RCTRL = 97, K_RALT = 100, K_LMETA = 125, K_RMETA = 126,
       K_NOOP = 195, K_EXTMOUSE = 196, K_CHORD1 = 197, K_CHORDMAX = 199 };
// order in which modifiers are emitted
struct ModRow { int mask, code; char letter; };
const std::vector<ModRow> &modtab();
bool is_mod_code(int code);
std::string mods_str(int mods);                 // "C-S-"
std::string modset_str(int mods);               // "C-S"

// ---------------------------------------------------------------- macros
struct Tok {
	enum K { KEY, TEXT, GROUP, DELAY } k = KEY;
	int code = 0, mods = 0;                 // KEY
	std::string text;                       // TEXT (UTF-8, ASCII here unless noted)
	std::vector<int> group;                 // GROUP: key codes; negative = delay of -n ms
	int ms = 0;
};
struct Macro {
	std::vector<Tok> toks;
	bool bare = false;                      // written without macro(): a single key or character
};
struct MacroOp {                                // lowered form
	enum K { TAP, DOWN, UPALL, UNICODE, DELAY } k;
	int code = 0, mods = 0, ms = 0;
	std::vector<int> codes;
};
std::vector<MacroOp> lower(const Macro &m);

// ---------------------------------------------------------------- actions
enum Kind { KEY, LAYER, ONESHOT, TOGGLE, SWAP, CLEAR, LAYERM, ONESHOTM, TOGGLEM, SWAPM, CLEARM, SETLAYOUT,
	    OVERLOAD, OVERLOADT, OVERLOADT2, OVERLOADI, TIMEOUT, MACRO, MACRO2, LETTERMOD, COMMAND, NKINDS };
const char *kind_name(Kind k);

struct Action {
	Kind k = KEY;
	int code = 0, mods = 0;                 // KEY
	int layer = -1;                         // index into Cfg::layers
	int t1 = 0, t2 = 0;
	std::vector<Action> sub;
	Macro macro;
	std::string cmd, cmd_text;              // COMMAND: what the shell gets, and how that is written
};

struct Binding { std::vector<int> keys; Action a; };   // one key, or a chord

struct Layer {
	std::string name;
	enum T { NORMAL, LAYOUT, COMPOSITE } type = NORMAL;
	int mods = 0;
	std::vector<int> parts;                 // constituents of a composite
	std::vector<Binding> binds;
	bool builtin = false;
};

struct Opts {
	int macro_timeout = 600, macro_repeat_timeout = 50, macro_sequence_timeout = 0, oneshot_timeout = 0,
	    overload_tap_timeout = 0, chord_timeout = 50, chord_hold_timeout = 0, disable_modifier_guard = 0, layer_indicator = 0;
	std::string default_layout;
	// which were set explicitly (others are left out of the file)
};

struct Cfg {
	std::vector<Layer> layers;              // 0 main, 1 control, 2 shift, 3 meta, 4 alt, 5 altgr, then the user's
	Opts o;
	int find(const std::string &n) const;
};
Cfg base_cfg();                                 // the built-in layers and modifier keys

// ---------------------------------------------------------------- rendering
struct Style { std::function<unsigned(unsigned)> rnd; };   // notation choices: draw in [0,n)
extern const Style *g_style;                    // when set, equivalent notations are chosen at random
std::string render_key(int code);
std::string render_lhs(const Binding &b);
std::string render_macro(const Macro &m);
std::string render_action(const Cfg &c, const Action &a);
std::string render_binding(const Cfg &c, const Binding &b);
std::string layer_heading(const Cfg &c, int i);
std::string render_opts(const Opts &o);
std::string render(const Cfg &c);               // the whole file

// ---------------------------------------------------------------- observable trace
struct Ev {
	enum K { KEY, LAYER, SLEEP, CMD } k;    // CMD: the text is only known to the model
	long t;
	int code;                               // key code / microseconds
	int state;
	std::string name;                       // layer name
	bool operator==(const Ev &o) const { return k == CMD && o.k == CMD ? t == o.t : k == o.k && t == o.t && code == o.code && state == o.state && name == o.name; }
	bool operator!=(const Ev &o) const { return !(*this == o); }
};
std::string show(const Ev &e);
std::string show(const std::vector<Ev> &v, size_t from = 0, size_t n = 1000);

struct In { int code; int pressed; long t; };   // one input event; code 0 = just let time pass

// ---------------------------------------------------------------- the reference model
class Model {
public:
	explicit Model(const Cfg &c);
	void key(int code, bool pressed, long t);       // fires what falls due first
	void advance(long t);                           // let time pass up to and including t
	const std::vector<Ev> &trace() const { return out_; }
	bool ambiguous() const { return !amb_.empty(); }    // left the specified domain
	const std::string &why() const { return amb_; }
	// Statistics for labels
	std::map<std::string, int> stat;
	// state, for invariants
	bool layer_active(int i) const { return L[i].count > 0; }
	int held_count() const { return (int)held_.size(); }
	std::vector<long> fired;                // when deadlines were met
	bool waiting() const { return deadline() != 0; }
	bool idle() const { return !pend_.open && chord_ == CH_NONE; }
	void rebind(int layer, int code, const Action &a) { km_[layer][code] = std::make_shared<Action>(a); }
	void rebind_chord(int layer, const std::vector<int> &keys, const Action &a);
	void reset_bindings();
	std::set<int> down() const { std::set<int> s; for (int i = 0; i < 256; i++) if (ks_[i]) s.insert(i); return s; }
private:
	typedef std::shared_ptr<const Action> AP;
	struct LS { int count = 0; long seq = 0; bool toggled = false; int oneshot = 0; };
	struct Held { int code; AP a; int dl; int layer; };
	struct Chord { std::vector<int> keys; AP a; };
	struct Live { bool on = false, ending = false; std::vector<int> left; AP a; int dl = 0; };

	const Cfg &c_;
	std::vector<std::map<int, AP>> km_;
	std::vector<std::vector<Chord>> chords_;
	std::vector<LS> L;
	std::vector<Held> held_;
	std::vector<Ev> out_;
	std::string amb_;
	bool ks_[256] = {};
	long wall_ = 0, seq_ = 1;
	int last_out_ = 0, last_code_ = 0;
	bool guard_off_ = false;
	std::set<int> latch_;
	long oneshot_due_ = 0;
	// macro being repeated
	std::shared_ptr<const std::vector<MacroOp>> mac_;
	int mac_dl_ = 0;
	long mac_due_ = 0; int mac_every_ = 0;
	long ov_start_ = 0, last_sym_ = 0;
	// open timed decision
	struct { bool open = false; int code = 0, dl = 0; long due = 0; AP tap, hold; Kind k = TIMEOUT; std::vector<In> q; } pend_;
	// chord recognition
	enum { CH_NONE, CH_RESOLVING, CH_WAIT, CH_HOLD } chord_ = CH_NONE;
	std::vector<In> chq_;
	long ch_last_ = 0;
	bool ch_match_ = false; Chord ch_best_; int ch_layer_ = 0;
	Live live_[3];

	void ambiguous(const std::string &w) { if (amb_.empty()) amb_ = w; }
	void emit_key(int code, int st) { out_.push_back({Ev::KEY, wall_, code, st, ""}); }
	void set_key(int code, bool down);
	void drop_mod(int code);
	void set_mods(int mods);
	void mods_for(int excluded_layer, int extra);
	void on(int l); void off(int l);
	void consume_oneshots();
	void clear_all();
	void type_macro(int dl, const std::vector<MacroOp> &ops);
	AP lookup(int code, int &dl);
	void press(int code, AP a, int dl, long t);
	void release(int code, AP a, int dl, long t);
	void start_timed(int code, AP tap, AP hold, int dl, long due, Kind k);
	void core(int code, bool pressed, long t);
	bool timed(int code, bool pressed, long t);
	bool chord(int code, bool pressed, long t);
	int match(const std::vector<In> &q, bool &full);
	void resolve(bool with_chord);
	void step(int code, bool pressed, long t);
	void run(const std::vector<In> &evs, size_t from);
	long next_due() const;
	long deadline() const;
	void overdue(long t);
	bool phys_[256] = {};
	long now_ = 0;
	Held *find(int code);
};

} // namespace spec
