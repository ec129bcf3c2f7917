#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, obs, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=obs, hook_needed=None)))

SAMP = "t/*.t samples 86 fixed key sequences against one fixed config; "
KB, CF, DM = "src/keyboard.c", "src/config.c", "src/daemon.c"

p("C01", "No key or layer stays stuck once everything is released and cleared",
  "After every physical key has been released, all timers have run out and a key bound to clear() has been tapped, the virtual keyboard holds no key down and the only active layers are main and the selected layout. This holds for every configuration and every history of key presses, releases and pauses with at most 16 keys held at once, whatever actions the keys are bound to or nested in one another.",
  ["configurations", "histories"], "all generated configurations (every action, nested, chords, layouts, timeouts) x all key histories with arbitrary timing",
  SAMP + "stuck keys appear only for particular interleavings of nested actions, layer changes and timeouts that no sample contains.",
  [KB], [("press/release pairing through the per-key cache", "keyboard.c: process_event, cache_set/cache_get"), ("activation/deactivation pairing", "keyboard.c: activate_layer, deactivate_layer, clear")],
  ["virtual keyboard output stream", "layer change notifications"])
p("C02", "The emitted key stream is well formed",
  "For every key, the events sent to applications alternate strictly between press and release, starting with a press, as long as no macro contains a key or modifier that is also being held by another binding. Only real keys are emitted: noop, placeholder and internal chord codes never reach the virtual keyboard.",
  ["configurations", "histories"], "all generated configurations and key histories, including duplicated and spurious input events",
  SAMP + "alternation must hold after every history, and a sample only shows its own.",
  [KB, "src/macro.c"], [("output deduplication by key state", "keyboard.c: send_key, set_mods")], ["virtual keyboard output stream"])
p("C03", "Layer lookup: the right binding is chosen on every key press",
  "A pressed key runs its binding in the most recently activated active layer that binds it (a composite layer whose constituents are all active beats ordinary layers, and the one with more constituents wins); if no active layer binds it, the key acts as itself. The choice is made at press time from the layers active then, the active layout counts as activated before every layer, and a key bound in an inactive layer has no effect.",
  ["configurations", "histories"], "random layer stacks (held, toggled, one-shot, layouts, composites) x key histories",
  SAMP + "precedence depends on activation order among arbitrary stacks, which one fixed config cannot enumerate.",
  [KB], [("recency ordered lookup with composite override", "keyboard.c: lookup_descriptor"), ("activation timestamps", "keyboard.c: activate_layer, setlayout")], ["virtual keyboard output stream"])
p("C04", "Modifiers applied to each key press are exactly the documented ones",
  "When a key's binding emits a key, the modifiers down at that moment are exactly those of the active layers, minus those of the layer that defines the binding (or, for a composite layer, of its constituents), plus those written in the binding itself. After the key is released (or, after a macro, at the next key event) the modifiers return to exactly those of the active layers, and modifiers which are already correct are neither released nor pressed again.",
  ["configurations", "histories"], "random layers with random modifier sets, composites, modified bindings, rollovers and held modifiers",
  SAMP + "the combinations of layer modifiers, exclusions and rollovers are far more than the sampled ones.",
  [KB], [("modifier set recomputation with exclusion", "keyboard.c: update_mods, set_mods")], ["virtual keyboard output stream"])
p("C05", "Releasing a key undoes what its own press did",
  "A key release always ends the action its own press started (same emitted key, same layer), no matter how layers, layouts or dynamically changed bindings moved in between. A press of a key already down and a release of a key not down have no effect other than the passing of time.",
  ["configurations", "histories"], "histories with layer changes and run-time rebinding between press and release, duplicated presses, orphan releases",
  SAMP + "the hazard is the interleaving of other keys' layer changes or rebinding between one key's press and release.",
  [KB], [("descriptor cached from press to release", "keyboard.c: cache_set/cache_get in process_event")], ["virtual keyboard output stream", "layer change notifications"])
p("C06", "oneshot affects exactly the next key press",
  "Tapping a oneshot key keeps its layer (and modifiers) active until the next key has been emitted, macro started or toggle/command run, and no longer; oneshots stack, and a oneshot key used while held behaves as a plain layer key. With oneshot_timeout set, an unused oneshot expires exactly that long after the latest oneshot tap, and never when the option is 0.",
  ["configurations", "histories"], "sequences of oneshot taps/holds, stacked oneshots, intervening keys and pauses around the timeout",
  SAMP + "which later event consumes a oneshot depends on arbitrary interleavings and timings.",
  [KB], [("oneshot latch and depth", "keyboard.c: OP_ONESHOT, clear_oneshot")], ["virtual keyboard output stream", "layer change notifications"])
p("C07", "toggle, swap, clear and setlayout keep the set of active layers right",
  "toggle(L) flips L, swap(L) replaces the layer its key is defined in (held, toggled or one-shot) by L in the same role, clear() turns off every toggled and one-shot layer but no held one, and setlayout(X) leaves X as the only layout besides main; the m variants additionally type their macro. The set of active layers after any sequence of these is exactly the one these rules give.",
  ["configurations", "histories"], "random programs of toggle/swap/clear/setlayout/layer keys (and m variants) spread over several layers",
  SAMP + "the layer state after long interleavings of these actions is never enumerated.",
  [KB], [("toggled/oneshot/active bookkeeping", "keyboard.c: process_descriptor, clear, setlayout")], ["layer change notifications", "virtual keyboard output stream"])
p("C08", "overload: hold gives the layer, tap gives the action",
  "overload(L, A) activates L while held and runs A, pressed and released as if A had been bound to a key of its own, exactly when it is released without another key having been pressed since (and, with overload_tap_timeout, before that time). In every other case A does not run, and A may be any other action.",
  ["configurations", "histories"], "overloaded keys with arbitrary nested actions, interleaved keys, hold times around overload_tap_timeout",
  SAMP + "nested actions and interleavings at the tap boundary are not covered.",
  [KB], [("tap detection by last pressed key", "keyboard.c: OP_OVERLOAD")], ["virtual keyboard output stream", "layer change notifications"])
p("C09", "Timed keys (overloadt, overloadt2, timeout, overloadi, lettermod) decide right",
  "overloadt, overloadt2, timeout, overloadi and lettermod resolve every press to tap or hold exactly as documented: by hold duration against the given timeout, by an intervening key press (timeout) or completed tap (overloadt2), or by the time since the last symbol key (overloadi). The decision takes effect at the moment it becomes determined (its deadline at the latest, or the end of the previous decision for a key queued behind one), and keys struck while it is open are delivered afterwards in order, none lost, duplicated or reordered.",
  ["configurations", "histories"], "timed keys (also nested) with random timeouts x key histories with gaps at, just below and above each deadline",
  SAMP + "correctness is quantified over all timings relative to the deadlines and all overlaps of queued keys.",
  [KB], [("pending key queue and deadlines", "keyboard.c: handle_pending_key")], ["virtual keyboard output stream", "layer change notifications"])
p("C10", "Chords fire exactly when all their keys are struck together",
  "A chord a+b+... of an active layer runs its action exactly when all its keys, and no others, are struck each within chord_timeout of the previous one (and held for chord_hold_timeout if set), the longest match winning; it ends when the last of its keys is released. (Composite layers have no chords, and at most three chords are held at once.) In every other case each key is delivered individually, in order, none lost or duplicated.",
  ["configurations", "histories"], "sets of overlapping chords on several layers x key histories with gaps around the timeouts",
  SAMP + "overlapping chords, partial matches and timing boundaries multiply beyond samples.",
  [KB, CF], [("chord matching state machine", "keyboard.c: handle_chord, resolve_chord, check_chord_match"), ("chord definition", "config.c: set_layer_entry, layer_lookup_chord")], ["virtual keyboard output stream"])
p("C11", "Macros type their tokens in order, wait as told, and repeat until the next key",
  "A macro emits exactly its tokens in order: key sequences wrapped in their modifiers, plain text character by character, +-joined groups pressed together and then released, and delays of the written length, with macro_sequence_timeout between keys. While its key stays down and no other key event occurs, it repeats first after macro_timeout and then every macro_repeat_timeout (or the macro2 values; 0 disables repetition), and it stops at the next key event.",
  ["configurations", "histories"], "random macro expressions (all token kinds, escapes) x timeouts x key histories",
  SAMP + "neither token combinations, delays nor repeat timing under interleaved keys are enumerated.",
  [KB, "src/macro.c", CF], [("macro parsing", "macro.c: macro_parse"), ("macro execution and repeat", "macro.c: macro_execute; keyboard.c: OP_MACRO, process_event")], ["virtual keyboard output stream", "sleeps requested"])
p("C12", "No lone tap of meta or alt leaks when a layer key produced it",
  "When keyd itself drops meta, alt or altgr that would otherwise be seen by applications as a lone tap (press directly followed by release), it wraps the release in a press and release of left control, unless the user really tapped a layer() key, disable_modifier_guard is set or control is already down. In those cases no control event is added.",
  ["configurations", "histories"], "modifier layers with bindings that suppress the modifier, rollovers, option on/off",
  SAMP + "the guard depends on the exact last emitted key and path by which the modifier is dropped.",
  [KB], [("modifier guard", "keyboard.c: clear_mod, inhibit_modifier_guard")], ["virtual keyboard output stream"])
p("C13", "Output depends only on the timed key history",
  "Feeding a history in one batch, or event by event with timers run when they fall due, gives the same output; so does shifting all timestamps by a constant, and inserting timer wake-ups at arbitrary other moments (unless a deadline lies exactly in the past when it is set). A fresh keyboard given the same configuration and history always produces the same output.",
  ["configurations", "histories", "schedules"], "random configurations and histories x random batch partitions, spurious wake-ups and time offsets",
  SAMP + "each is run in one batch at one time origin; the property quantifies over all ways of delivering the same history.",
  [KB, DM], [("timer multiplexing", "keyboard.c: schedule_timeout, calculate_main_loop_timeout, kbd_process_events")], ["virtual keyboard output stream"])
p("C14", "No key history can crash or wedge the engine",
  "Whatever keys are pressed and released, in whatever order, number (including far more keys at once than can be tracked), duplication and timing, and whatever the configuration, the engine never aborts, corrupts memory or loops forever. Once all keys are up and timers have run out it still obeys later key presses.",
  ["histories", "configurations"], "adversarial histories: >16 held keys, floods during open decisions, four and more simultaneous chords, toggles/swaps in all orders",
  SAMP + "crashes hide in capacity limits (queues, slots, timers) that no sample approaches.",
  [KB], [("fixed-size queues and slots", "keyboard.c: cache, pending_key.queue, chord.queue, active_chords, timeouts")], ["process exit status", "virtual keyboard output stream"])
p("C15", "Any file can be given as configuration",
  "Loading a configuration file of arbitrary bytes either succeeds or is refused with an error: it never crashes, hangs, or reads or writes outside its buffers. The keyboard built from any accepted file can then process key events without crashing.",
  ["inputs"], "arbitrary byte strings, mutated real configurations, oversized sections/lines/names/macros, invalid UTF-8, includes",
  "The tests load one well-formed file; the property is over all byte strings.",
  [CF, "src/ini.c", "src/macro.c", "src/string.c", "src/unicode.c"], [("bounds checks while parsing", "config.c: read_file, config_add_layer, parse_fn, parse_descriptor; ini.c: ini_parse_string")], ["process exit status", "return value of loading"])
p("C16", "A faulty line affects only itself",
  "An invalid line in a configuration (unknown key or action, wrong number of arguments, unknown layer, bad alias, over-long id, unknown option, malformed layer heading) is reported in the log, naming its line for bindings, and otherwise ignored. Every other line means exactly what it would have meant without the faulty one.",
  ["configurations", "inputs"], "valid configurations x faulty lines of many kinds inserted at random places",
  "The test config is entirely valid; isolation quantifies over every faulty line in every position.",
  [CF, "src/ini.c"], [("per-entry error handling", "config.c: config_parse_string, config_add_entry, parse_global_section, parse_alias_section, parse_id_section")], ["behaviour of the loaded configuration on key histories", "log output"])
p("C17", "Different notations of the same configuration mean the same",
  "Comments, blank lines, indentation, spacing around = and after commas, splitting a section into several headings, repeating a binding (the last one wins), aliases in place of keys, alternative key names, deprecated action names, lettermod versus its expansion, and order of independent lines do not change what a configuration does. An alias names every key it was given to, and a key whose alias is itself a key name acts as that key by default.",
  ["configurations"], "random configurations rendered twice with different notations, compared on random key histories",
  "The tests use one spelling of one configuration.",
  [CF, "src/ini.c", "src/keys.c"], [("line and expression parsing", "ini.c: parse_kvp, ini_parse_string; config.c: parse_fn, parse_descriptor, set_layer_entry, parse_alias_section")], ["behaviour of the loaded configuration on key histories"])
p("C18", "include behaves as if the included text stood in its place",
  "A line 'include X' behaves exactly as the contents of file X in its place, X being looked up next to the including file first and in the shared data directory second. A missing file, or a name with a file extension, is reported and skipped without affecting any other line.",
  ["configurations"], "random configurations split at random lines into including and included files, both directories, missing trailing newlines, missing files",
  "No test uses include at all.",
  [CF], [("include resolution and splicing", "config.c: read_file, resolve_include_path")], ["behaviour of the loaded configuration on key histories"])
p("C19", "Run-time bind equals the same line in the file, and reset undoes it",
  "Applying bindings at run time gives the same behaviour as if the lines had been in the configuration file, for keys pressed from then on; 'reset' restores the file's bindings exactly, whatever was bound before. A refused bind reports an error and leaves the keymap's behaviour unchanged.",
  ["configurations", "histories"], "random configurations, random valid and invalid bind expressions between key events, resets",
  "No test exercises run-time binding.",
  [KB, CF, DM], [("bind and reset", "keyboard.c: kbd_eval; config.c: config_add_entry")], ["behaviour on key histories", "return value of bind"])
p("C20", "Device ids select the right configuration for every device",
  "A device is grabbed by a configuration exactly when that lists its id (with the k: or m: prefix matching only keyboards or mice) or has the wildcard and does not exclude it, explicit ids taking precedence over wildcards of other files; ids may be given as vendor:product or in full. The wildcard never takes devices which are only mice, and keyd never grabs its own virtual devices.",
  ["configurations", "inputs"], "random sets of config files with ids/wildcards/exclusions/prefixes x random devices and capabilities",
  "No test involves devices.",
  [CF, DM, "src/device.c"], [("matching", "config.c: config_check_match, parse_id_section; daemon.c: lookup_config_ent, manage_device")], ["which devices are grabbed", "which configuration's bindings they produce"])
p("C21", "Device events reach applications through the virtual devices intact",
  "Every key or button event of a grabbed device arrives, remapped, on the right virtual device with the right Linux code in order, each followed by a sync report: keys on the virtual keyboard, mouse buttons on the virtual pointer. Kernel autorepeat, unknown codes and other event types produce nothing, and events of devices keyd does not manage are left alone.",
  ["inputs", "histories"], "all key codes and random streams of raw evdev events over several devices",
  "The tests stop at the engine; the device and uinput layers are never executed.",
  ["src/device.c", "src/vkbd/uinput.c", DM, "src/evloop.c"], [("event translation", "device.c: device_read_event; vkbd/uinput.c: vkbd_send_key")], ["bytes written to the virtual device files"])
p("C22", "Pointer motion, absolute position and wheel pass through exactly",
  "For grabbed pointing devices the sum of relative motion on each axis, every absolute position (scaled to the virtual pointer's range) and every wheel step reach the virtual pointer with the right axis, sign and amount, none lost or invented; wheel steps can be remapped like keys. With scroll() active motion becomes scrolling, one step per sensitivity units with the remainder carried over.",
  ["inputs", "histories"], "random streams of relative, absolute and wheel events interleaved with keys",
  "No test feeds pointer events.",
  ["src/device.c", "src/vkbd/uinput.c", DM], [("pointer event handling", "device.c: device_read_event; daemon.c: event_handler; vkbd/uinput.c")], ["bytes written to the virtual pointer"])
p("C23", "No client of the control socket can take the daemon down",
  "Whatever bytes a client sends (malformed, oversized, truncated, garbage types, invalid text) and whenever it disconnects or stalls, the daemon neither crashes, exits nor blocks for good: every well-formed request is answered with success or an error, and keyboards and other clients keep working. A refused request has no effect on the keymap.",
  ["inputs", "fault_sequences", "histories"], "arbitrary client byte streams, disconnects at every byte, stalled clients, interleaved with key events and other clients",
  "No test opens the socket.",
  [DM, "src/ipc.c", "src/util.c", "src/keyd.c"], [("message handling", "daemon.c: handle_client, send_success, send_fail; util/ipc reads and writes")], ["process exit status", "reply bytes", "later keyboard output"])
p("C24", "Layer listeners always see the true set of active layers",
  "A client of 'keyd listen' first receives the current layout and active layers and then one line for every change, so replaying its lines gives the set of active layers and layout at every moment. A listener that disconnects or stops reading is dropped without disturbing keyboards or other listeners.",
  ["histories", "fault_sequences"], "random layer activity x listeners joining, leaving and stalling at random moments",
  "No test attaches a listener.",
  [DM], [("layer broadcast", "daemon.c: add_listener, on_layer_change")], ["bytes received by listeners"])
p("C25", "Reload and hot-plugging take full effect and leave nothing behind",
  "After a reload, or after devices are plugged in or removed in any order, every present device is handled by exactly the configuration that should apply now, no key remains pressed on the virtual devices after a reload, devices no longer matched are released, and the daemon keeps running with the new bindings only. Keys held, timers, layers and listeners pending at that moment cause no crash or stray output.",
  ["histories", "configurations"], "random histories of key events, device add/remove, config rewrites and reloads",
  "No test reloads or hot-plugs.",
  [DM, "src/evloop.c", "src/device.c"], [("reload", "daemon.c: reload, manage_device, clear_vkbd"), ("device table upkeep", "evloop.c: evloop")], ["grab state of devices", "virtual device output", "process exit status"])
p("C26", "Timeouts fire on time whatever else happens",
  "Timed decisions, oneshot expiry and macro repetition take effect at their deadline in the running daemon even while unrelated events (mouse motion, events from other devices, client requests, LED changes, hot-plugging) keep arriving, whatever their timing. No such event loses, delays or duplicates a deadline.",
  ["schedules", "histories"], "timed keys x streams of unrelated events at arbitrary moments around the deadlines, on a virtual clock",
  "The tests bypass the event loop; only the engine's own timer values are exercised.",
  [DM, "src/evloop.c", KB], [("poll timeout bookkeeping", "evloop.c: evloop; daemon.c: event_handler")], ["virtual keyboard output against the virtual clock"])
p("C27", "The panic sequence, and nothing else, terminates keyd",
  "Holding backspace, escape and enter together on keyboards keyd reads, in any order, terminates the daemon whatever the configuration. No other history of keys, LEDs, pointer events or device changes does.",
  ["histories", "inputs"], "random event streams with near misses of the sequence over several devices",
  "No test runs the event loop.",
  ["src/evloop.c"], [("panic check on raw events", "evloop.c: panic_check")], ["process exit"])
p("C28", "Typed text arrives exactly as given",
  "Text given to 'keyd input' or written in macros, sent through 'keyd do' or a binding, produces key events which a US layout with keyd's compose table turns back into exactly that text, for every mix of ASCII and supported Unicode characters. Unsupported characters are reported by 'keyd input', and never replaced by other characters.",
  ["inputs"], "random strings over ASCII and all supported code points, decoded by an independent keyboard-layout and compose model",
  "The tests type a handful of fixed strings.",
  ["src/macro.c", DM, "src/keys.c", "src/unicode.c", "src/string.c"], [("text to keys", "macro.c: macro_parse, macro_execute; daemon.c: input; string.c: utf8_read_char")], ["virtual keyboard output decoded to text"])
p("C29", "Unicode sequences and the shipped compose file agree",
  "Every code point keyd can type produces a four-key sequence that the shipped compose definitions map to exactly that character; sequences are distinct, and code points not in the table are refused. The generator of both makes them agree for any character list.",
  ["inputs"], "all code points U+0000..U+10FFFF and all lines of the compose file; random character lists through the generator",
  "No test reads the compose file.",
  ["src/unicode.c", "src/unicode.h", "data/keyd.compose", "scripts/generate_xcompose"], [("sequence encoding", "unicode.c: unicode_get_sequence, unicode_lookup_index")], ["emitted key sequence versus compose file"])
p("C30", "Keyboard LEDs show what they should",
  "With layer_indicator set, the caps lock LED of every keyboard using that configuration is on exactly while some layer other than a layout is active; without it keyd never changes LEDs on its own. LED changes made by the system on the virtual keyboard are passed to every grabbed device.",
  ["histories", "configurations"], "random layer activity over several keyboards and configurations, LED writes at random moments",
  "No test observes LEDs.",
  [DM, "src/device.c"], [("indicator and LED propagation", "daemon.c: on_layer_change, event_handler; device.c: device_set_led")], ["bytes written to the devices"])
p("C31", "USB gadget reports carry exactly the keys held",
  "With the USB gadget backend each report written to the host lists exactly the modifiers and keys then held (up to six keys), with their standard HID usage codes, and every press or release is reported once; keys without a HID usage change nothing.",
  ["histories", "inputs"], "random key histories through the backend, including more than six keys",
  "No test compiles this backend's behaviour.",
  ["src/vkbd/usb-gadget.c", "src/vkbd/usb-gadget.h"], [("report building", "usb-gadget.c: vkbd_send_key, update_modifier_state, send_hid_report")], ["bytes written to the HID device"])
p("C32", "The application mapper applies exactly the bindings of the focused window",
  "On every focus change, also when several follow in quick succession, keyd-application-mapper sends one bind request consisting of 'reset' followed by the bindings of all matching sections in file order, where a section matches by window class and title patterns as documented. An edited app.conf is used from the next focus change or USR1 signal on. Malformed lines, unknown windows and a missing app.conf never stop it.",
  ["configurations", "histories"], "random app.conf files x random window class/title sequences",
  "No test runs the script.",
  ["scripts/keyd-application-mapper"], [("config parsing and lookup", "keyd-application-mapper: parse_config, lookup_bindings, on_window_change")], ["arguments of the keyd commands it runs"])
p("C33", "command() runs the given shell command exactly once per press",
  "Each press of a key bound to command(X) runs X exactly once in a shell with the text exactly as written (after unescaping parentheses and backslashes), detached from keyd's own input and output, without stopping key processing or leaving child processes behind in keyd.",
  ["configurations", "histories"], "random command strings and key histories, with stand-in commands that record their execution",
  "No test uses command().",
  [KB, CF], [("command execution", "keyboard.c: execute_command; config.c: parse_command")], ["records written by the executed commands"])
p("C34", "Every shipped layout and example loads cleanly and works",
  "Every shipped layout and example configuration loads without any error (one line of examples/macos.conf, which binds a key to the non-action alt, is a known exception), and each layout types for every key exactly what its own lines say (as far as keyd can type those characters), with and without shift or altgr. It can be included, selected as default or switched to at run time with the same result.",
  ["configurations", "inputs"], "all shipped files x all keys of each x random histories",
  "No test loads any of them.",
  ["layouts", "examples", CF], [("parsing of shipped files", "config.c: config_parse")], ["log output", "virtual keyboard output"])
p("C35", "Key names and codes are consistent everywhere",
  "Every name printed by 'keyd list-keys', and every alternative name is accepted wherever a key is and denotes the key whose Linux code it stands for, and every shifted symbol, wherever an action is expected, that key with shift; pressing a key not mentioned in the configuration emits that same key. Modifier prefixes on a key name add exactly those modifiers, in any order, and any other string is refused.",
  ["inputs"], "all 256 codes, all names, random modifier prefixes, random non-names",
  "The tests name a few keys.",
  ["src/keys.c", "src/keys.h", "src/keyd.c", CF], [("key table and parsing", "keys.c: keycode_table, parse_key_sequence; config.c: lookup_keycode")], ["virtual keyboard output", "output of list-keys"])
p("C36", "The command line reports truthfully and relays exactly",
  "'keyd bind' sends every argument to the daemon once, unaltered and in order, shows the daemon's reason for each one refused, and reports success (message and exit status 0) iff all were accepted; a daemon which is missing, closes or answers late is never taken for success and never makes a client hang. 'keyd listen' passes on exactly the bytes the daemon sends, at once, and ends when the daemon or its reader goes. 'keyd reload' sends one request; list-keys prints exactly the accepted names; no unknown command becomes a daemon.",
  ["inputs", "fault_sequences"], "random arguments of any bytes up to beyond the size limit, scripted daemons which accept, refuse, delay, close or cut replies; streams in random pieces",
  "No test runs the client.",
  ["src/keyd.c", "src/ipc.c", "src/util.c"], [("client commands", "keyd.c: ipc_exec, add_bindings, layer_listen, list_keys, main")], ["requests on the socket", "standard output", "exit status"])
p("C37", "keyd monitor shows every device and key event, and changes nothing",
  "'keyd monitor' shows each press and release of every keyboard and mouse exactly once, in order and at once, with the key's keyd name, the device's name and its id, and each device which is added or removed (keys held on it come up first); with -t also the time since the event before. Listing an id it shows makes the daemon manage that device. It grabs nothing, sends nothing, ends when the reader of its output goes, and leaves the terminal (and the flags of its standard input) as it found them, without what was typed meanwhile.",
  ["histories", "inputs"], "random devices, plugging, key presses over all key codes, repeats and motion",
  "No test runs the monitor.",
  ["src/monitor.c", "src/device.c", "src/evloop.c", "src/keys.c"], [("reporting", "monitor.c: event_handler, monitor; device.c: device_init, device_read_event")], ["standard output", "device grabs", "virtual devices"])
p("C38", "The GNOME extensions report every focus change while enabled",
  "While enabled, and while the mapper reads keyd.fifo, each change of the focused window (and each modal dialog) writes exactly one line with class and title of the window focused then (root and nothing, if there is none), from which the mapper gets exactly these, whatever characters they contain; while disabled nothing is written, however often it was enabled before. When the mapper goes, the fifo is opened again and reporting resumes. Enabling starts the mapper once and disabling ends it.",
  ["histories", "inputs"], "random focus changes, titles, modal dialogs, enabling, disabling, and a reader which comes and goes",
  "No test runs the extensions, which need a GNOME Shell.",
  ["data/gnome-extension/extension.js", "data/gnome-extension-45/extension.js"], [("reporting", "extension.js: enable, disable, send, on_pipe_open")], ["bytes written to the fifo", "processes started"])
p("C39", "Taking over a device neither loses, doubles nor sticks a key",
  "Whenever keyd takes a device over (at start, on plugging, after a reload which lists it) it waits until no key or button of the device is down, so applications see every key come up. Each press is seen either by applications directly (before) or by keyd (from then on), never by both or neither, and nothing pressed before counts later, not in the panic sequence either. A device another program has grabbed is left alone: keyd goes on serving the others and takes it after a later reload or plugging.",
  ["histories", "schedules", "faults"], "random keyboards and mice with keys held or struck around every take-over, reloads, plugging, devices grabbed by others",
  "No test runs the daemon.",
  ["src/device.c", "src/daemon.c", "src/evloop.c"], [("taking over", "device.c: device_grab, device_ungrab; daemon.c: manage_device"), ("keys down", "evloop.c: panic_check, release_keys")], ["device grabs", "virtual devices", "keyd's exit"])
p("C40", "Everything within the limits takes effect; what is beyond is refused alone",
  "A configuration that stays within the limits (64 KB, lines up to 255 bytes, 32 sections, 1024 lines in a section, 32 layers (6 of them built in), layer names of 64 and aliases of 31 bytes, 64 chords per layer, 64 commands of up to 240 bytes, 256 macros, 1024 nested actions, 64 ids) is accepted in full, and every binding in it, the last of them included, does what it says. A binding beyond a limit is refused by itself: it changes nothing else, and whatever needs none of the exhausted resource is still accepted. Refused bindings use up nothing, and a reset gives back all that run-time bindings took.",
  ["inputs", "histories"], "configurations which fill one resource up to, and beyond, its limit, from a file, through run-time bindings and resets, between refused bindings; up to 44 of the bindings are struck",
  "Tests use configurations of a few lines; the limits are counted resources that only long files or long sessions reach.",
  ["src/config.c", "src/ini.c", "src/macro.c", "src/keyboard.c"], [("limits", "config.h: struct config; ini.h; config.c: parse_descriptor, set_layer_entry, config_add_layer, read_file"), ("giving back", "config.c: config_add_entry; keyboard.c: reset_config")], ["output events", "return values of bindings", "commands run"])
p("C41", "One keyd at a time serves the socket, open to its group only",
  "However many keyds are started, one after another or at the same moment, at most one runs; when none is running, one of those started does. One which finds another running ends with an error status before it grabs any input device or creates any virtual one, and disturbs nothing: clients still reach the running keyd and are answered by it. However a keyd ends (SIGTERM, SIGKILL, killed while starting), whatever commands it has started still run, and whether the path of the socket then holds nothing, a dead socket, a link or an ordinary file, the next one started serves the socket; while none runs no client is let in. The socket always has mode 0660 and belongs to the group keyd (to that of the process where there is no such group), whatever the umask; nobody else can open the lock file. A keyd which cannot create its virtual devices ends with an error, and takes no device.",
  ["schedules", "crash points", "histories"], "1-4 processes started at a time, ended, killed (also while they start or as others start), with commands which outlive them, several umasks and leftovers of the socket",
  "Tests never start a daemon, let alone two.",
  ["src/ipc.c", "src/daemon.c"], [("one at a time", "ipc.c: ipc_create_server (lock, unlink, bind, listen, chmod)"), ("group", "ipc.c: chgid"), ("order at start", "daemon.c: run_daemon")], ["socket file", "connections", "exit status", "device grabs"])
p("C42", "A click or wheel step on any other mouse settles pending keys",
  "Each button press, button release and wheel step on a pointing device which keyd does not handle (a mouse, a touchpad or tablet, a keyboard with a pointer, whose keys count too) acts as a keystroke that types nothing, on the configuration whose device was used last (its pointer's motion included): a oneshot layer waiting for a key is used up, a held overload or swapped key is no longer a tap, a timed decision or chord in progress takes the keystroke as another key, a repeating macro stops as for any key. It reaches no other configuration, nothing before a device was used or since a reload, and types nothing itself. Motion, touches, key repeat, unhandled keyboards without a pointer and keyd's own virtual devices have no such effect.",
  ["histories", "schedules"], "1-3 configurations rich in pending actions, each with a keyboard and sometimes a mouse; several unhandled devices of five kinds clicking, scrolling and moving at any moment, reloads in between",
  "Tests drive the key engine only; which device's event reaches which configuration is decided in the daemon.",
  ["src/daemon.c", "src/keyboard.c"], [("foreign events", "daemon.c: event_handler, process_keypress, active_kbd"), ("capabilities", "device.c: resolve_device_capabilities"), ("no output", "keyboard.c: send_key")], ["events of the virtual devices"])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), [len(e['title']) for e in P if len(e['title']) > 80])
