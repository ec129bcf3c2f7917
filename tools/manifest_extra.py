FUZZ = "property-based testing / fuzzing"
T["C15"] = (FUZZ + " of configuration files under sanitizers", "Mutated, grammar-generated and limit-probing files are loaded by the real parser (ASan, UBSan, hang watchdog); the daemon's loader must come back and leave a usable keyboard. Sampling, no proof of absence.")
T["C28"] = ("property-based testing (round trip: generated text through macros, bindings, the command line client, the control socket and the daemon, decoded by a reference of the US layout and the shipped compose file)", "Generated texts; the typed key stream is decoded back with data/keyd.compose and must equal the text. Sampling, no proof of absence.")
T["C29"] = ("property-based testing with exhaustive generation (every code point)", "Every code point is typed by the real engine and decoded through data/keyd.compose as shipped; both directions.")
T["C34"] = ("property-based testing (exhaustive over shipped files, generated histories on them)", "Every file of layouts/ and examples/ is loaded by the real parser and driven with generated histories; a reference model judges the result.")
T["C35"] = ("property-based testing with exhaustive generation (key table) and generated non-names", "Every key name, alias and code through parser, renderer and the listing; generated strings which are not names must be refused.")
SIM = "property-based testing of the whole daemon on a simulated kernel"
T["C20"] = (SIM + " (generated [ids] sections and devices, reference matcher)", "keyd's main() runs on simulated input devices; a reference of the documented matching rules says which configuration each device must get. Sampling, no proof of absence.")
T["C21"] = (SIM + " (differential: event streams in against events on the virtual devices)", "Random device event streams (keys, buttons, touch, stylus, other pointers) go in; what the virtual devices receive is compared with a reference translation. Sampling, no proof of absence.")
T["C22"] = (SIM + " (differential: motion in against motion out)", "Random relative/absolute/wheel streams, several devices, axis ranges; virtual pointer is compared exactly with a reference. Sampling, no proof of absence.")
T["C24"] = (SIM + " (stateful: listeners' view folded against the reference model's layers)", "Histories of keys, binds, reloads, device changes with listeners that connect, stall and go; folding what each has read must give the true layers. Sampling, no proof of absence.")
T["C25"] = (SIM + " (stateful: reload and hot-plug histories, reference model, injected faults)", "Histories with reloads, plugging, failing devices; after each the daemon must behave as one freshly started. Sampling, no proof of absence.")
T["C26"] = (SIM + " (timing oracle from the reference model, interference generated)", "Timed-key histories with motion, clients, other keyboards and device changes interfering; deadlines compared with the reference model. Sampling, no proof of absence.")
T["C27"] = (SIM + " (generated and exhaustive key combinations against the documented sequence)", "Histories around backspace+escape+enter on one or several keyboards; keyd must exit exactly when the sequence is held. Sampling, no proof of absence.")
T["C30"] = (SIM + " (LED state compared with reference after generated histories)", "Histories of layers, system LEDs and hot-plugging; LED state of every keyboard is compared with the specification. Sampling, no proof of absence.")
T["C33"] = (SIM + " with real child processes (recording stand-in for exec, and a real shell with harmless text)", "Generated commands and histories; what each child asked exec to run, when, and with which descriptors is compared with the reference model; children must all end and be reaped. Sampling, no proof of absence.")
T["C23"] = (SIM + " (fuzzed clients and fault injection on the control socket)", "Generated hostile clients (malformed, truncated, dribbled, stalled, closing, flooding) mixed with key histories; every complete request answered, keymap compared with the reference model, blocking bounded. Sampling, no proof of absence.")
T["C31"] = (SIM + " (keyd built with the USB gadget backend, simulated USB host, HID usage tables as reference)", "Generated key histories and configurations through the daemon with the gadget backend against a host which is busy at random; every report is judged against the HID usage tables and the keys the reference model says are down. Every key exhaustively, histories by sampling.")
T["C32"] = ("stateful property-based testing of the real script on simulated desktops (reference model of filters and requests, shrinking)", "Generated app.conf files and histories of focus changes, edits and signals on simulated gnome, wlroots, cosmic, KDE and X desktops; a stand-in for keyd reports the requests, which are compared with a reference model. The modules Xlib and dbus are stand-ins. Sampling, no proof of absence.")
T["C36"] = (SIM + " (the real client against scripted daemons)", "Generated arguments and daemon behaviours; the requests sent, what is printed and the exit status are compared with what the script implies. Sampling, no proof of absence.")
T["C37"] = (SIM + " (the real monitor, output compared line by line; ids round-tripped through the daemon)", "Generated devices and event histories; every output line is compared with the history, and an id shown is listed in a configuration of the real daemon. Sampling, no proof of absence.")
T["C38"] = ("property-based testing of both extensions on a simulated GNOME Shell (stateful, reference model, shrinking)", "The extensions run in node with stand-ins for GLib, Gio, Shell and Main; each line written is compared with the window focused at that moment. The stand-ins cover the calls such an extension can reasonably make. Sampling, no proof of absence.")
T["C39"] = (SIM + " (key histories around take-overs; simulated input core which knows who sees each press)", "Generated devices, keys held and struck around every take-over, reloads, plugging and devices grabbed by others; each press must be seen exactly once. Sampling, no proof of absence.")
T["C40"] = ("property-based testing (generated configurations which fill up one resource, reference model)", "Files, run-time bindings and resets which fill each counted resource up to and beyond its limit run through the real parser and engine; up to 44 of the bindings are struck and compared with the reference model, commands with their text; ids on the simulated kernel. Sampling, no proof of absence.")
T["C41"] = ("stateful property-based testing with real processes (keyd's main() in each, on simulated devices; real socket, lock and signals)", "Generated histories of starts (several at once), ends, kills, outliving commands and leftovers; after each step the socket is dialled and its owner, answer, mode and group compared with the history. Scheduling is the kernel's, with random delays. Sampling, no proof of absence.")
T["C42"] = (SIM + " (several configurations and unhandled pointing devices, reference model)", "Generated configurations, histories and foreign clicks; the events of the virtual devices are compared to the millisecond with the reference model of each configuration, told of those clicks which concern it. Sampling, no proof of absence.")
