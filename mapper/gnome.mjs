#!/usr/bin/env -S node --experimental-vm-modules --no-warnings
// C38: the GNOME extensions of /repo/data, run on a simulated GNOME Shell.
import fs from 'node:fs';
import vm from 'node:vm';
import path from 'node:path';
import crypto from 'node:crypto';
import { fileURLToPath } from 'node:url';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const REPO = process.env.VERIF_REPO || '/repo';
const FILES = { old: REPO + '/data/gnome-extension/extension.js', esm: REPO + '/data/gnome-extension-45/extension.js' };
const SRC = {};

// ------------------------------------------------------------------ simulated GNOME
function world(kase) {
	const w = { out: [], spawned: [], fifos: new Set(), opens: [], reader: false, errors: [], log: [], focus: null, stage: 'stage' };
	const env = { XDG_RUNTIME_DIR: kase.runtime, HOME: '/home/u', USER: 'u' };
	const enc = new TextEncoder(), dec = new TextDecoder();
	const bytes = (m) => typeof m === 'string' ? m : dec.decode(m.toArray ? m.toArray() : m);

	class Stream {
		constructor(p) { this.p = p; this.dead = false; }
		write_all(m) {
			if (this.dead) throw new Error('Broken pipe');
			w.out.push([this.p, bytes(m)]);
			return [true, enc.encode(bytes(m)).length];
		}
		write(m) { return this.write_all(m)[1]; }
		write_bytes(m) { return this.write_all(m)[1]; }
		flush() { if (this.dead) throw new Error('Broken pipe'); return true; }
		close() { return true; }
		is_closed() { return false; }
	}
	w.streams = [];
	class File {
		constructor(p) { this.p = p; }
		get_path() { return this.p; }
		query_exists() { return w.fifos.has(this.p); }
		append_to_async(flags, prio, cancel, cb) { w.opens.push({ file: this, cb }); }
		append_to_finish(res) { if (res.stream) return res.stream; throw new Error('not opened'); }
	}
	// Opening a fifo for writing completes once it has a reader.
	w.settle = () => {
		while (w.reader && w.opens.length) {
			const o = w.opens.shift();
			const s = new Stream(o.file.p);
			w.streams.push(s);
			call(() => o.cb(o.file, { stream: s }));
		}
	};
	const call = w.call = (f) => { try { return f(); } catch (e) { w.errors.push(String(e && e.stack || e).split('\n').slice(0, 2).join(' ')); } };

	const words = (c) => Array.isArray(c) ? c : c.trim().split(/\s+/);
	const spawn = (c) => {
		const a = words(c);
		const cmd = path.basename(a[0]);
		if (cmd === 'id') return [true, enc.encode(kase.uid + '\n'), enc.encode(''), 0];
		if (cmd === 'mkfifo') { w.fifos.add(a[a.length - 1]); return [true, enc.encode(''), enc.encode(''), 0]; }
		w.spawned.push(a.join(' '));
		return [true, enc.encode(''), enc.encode(''), 0];
	};
	class Emitter {
		constructor() { this.h = []; this.n = 1; }
		connect(sig, cb) { this.h.push({ id: this.n, sig, cb, obj: null }); return this.n++; }
		connect_after(sig, cb) { return this.connect(sig, cb); }
		disconnect(id) { const n = this.h.length; this.h = this.h.filter((x) => x.id !== id); if (n === this.h.length) throw new Error('no such handler ' + id); }
		connectObject(...a) {
			const obj = a.pop();
			for (let i = 0; i + 1 < a.length; i += 2) { if (typeof a[i + 1] !== 'function') { i--; continue; } const id = this.connect(a[i], a[i + 1]); this.h[this.h.length - 1].obj = obj; }
		}
		disconnectObject(obj) { this.h = this.h.filter((x) => x.obj !== obj || obj == null); }
		connect_object(...a) { return this.connectObject(...a); }
		disconnect_object(o) { return this.disconnectObject(o); }
		emit(sig) { for (const x of [...this.h]) if (x.sig === sig && this.h.includes(x)) call(() => x.cb(this)); }
	}
	const tracker = w.tracker = new Emitter(), layout = w.layout = new Emitter(), display = w.display = new Emitter();
	Object.defineProperty(display, 'focus_window', { get: () => w.focus && { get_wm_class: () => w.focus[0], get_title: () => w.focus[1], title: w.focus[1], wm_class: w.focus[0] } });
	display.get_focus_window = () => display.focus_window;
	const global = { display, stage: { get_title: () => w.stage, title: w.stage } };
	const GLib = {
		getenv: (n) => env[n] ?? null, spawn_command_line_sync: spawn, spawn_command_line_async: (c) => { spawn(c); return true; },
		get_user_runtime_dir: () => env.XDG_RUNTIME_DIR ?? '/run/user/' + kase.uid, file_test: (p) => w.fifos.has(p), FileTest: { EXISTS: 16 },
		spawn_async: (d, a) => { spawn(a); return [true, 1]; }, SpawnFlags: { SEARCH_PATH: 4, DEFAULT: 0 }, PRIORITY_DEFAULT: 0, build_filenamev: (a) => a.join('/'),
		Bytes: class { constructor(b) { this.b = b; } toArray() { return this.b; } },
	};
	const Gio = {
		File: { new_for_path: (p) => new File(p) }, FileCreateFlags: { NONE: 0 }, SubprocessFlags: { NONE: 0 },
		Subprocess: { new: (a) => { spawn(a); return {}; } },
	};
	const Shell = { WindowTracker: { get_default: () => tracker } };
	const Main = { layoutManager: layout };
	const log = (...a) => w.log.push(a.join(' '));
	w.ctx = { global, log, logError: log, print: log, TextDecoder, TextEncoder, console: { log, warn: log, error: log, debug: log },
		imports: { gi: { Shell, GLib, Gio }, ui: { main: Main }, misc: { extensionUtils: {} } } };
	w.ctx.globalThis = w.ctx.window = w.ctx;
	w.mods = {
		'resource:///org/gnome/shell/ui/main.js': Main, 'gi://GLib': { default: GLib }, 'gi://Shell': { default: Shell }, 'gi://Gio': { default: Gio },
		'resource:///org/gnome/shell/extensions/extension.js': { Extension: class { constructor(m) { this.metadata = m; this.uuid = 'keyd'; } } },
	};
	return w;
}

async function load(w, kind) {
	const c = vm.createContext(w.ctx);
	if (kind === 'old') {
		vm.runInContext(SRC.old, c, { filename: 'extension.js' });
		return vm.runInContext('typeof init === "function" ? init({}) : { enable, disable }', c);
	}
	const m = new vm.SourceTextModule(SRC.esm, { context: c, identifier: 'extension.js' });
	await m.link((spec) => {
		const x = w.mods[spec];
		if (!x) throw new Error('import of ' + spec);
		const s = new vm.SyntheticModule(Object.keys(x), function () { for (const k in x) this.setExport(k, x[k]); }, { context: c });
		return s;
	});
	await m.evaluate();
	return new m.namespace.default({ uuid: 'keyd' });
}

// ------------------------------------------------------------------ generation
function prng(seed) {
	let s = crypto.createHash('sha256').update(seed).digest().readUInt32LE(0) || 1;
	return (n) => { s ^= s << 13; s >>>= 0; s ^= s >>> 17; s ^= s << 5; s >>>= 0; return s % n; };
}
const CH = ['a', 'B', '7', ' ', '-', '|', '[', ']', '=', '\u00e9', '\u4e2d', '\u{1f600}', '"', "'", '\\', '$', '%', '*', '.', '/', '\t', '\n', '${x}', '\r'];
function text(r, cls) {
	if (r(8) === 0) return '';
	let t = '';
	for (let n = 1 + r(r(5) ? 6 : 60); n > 0; n--) t += CH[r(cls ? 20 : CH.length)];
	return t;
}
function gen(seed) {
	const r = prng(seed);
	const k = { kind: r(2) ? 'old' : 'esm', runtime: r(4) ? '/run/user/' + r(3000) : r(2) ? null : '/tmp/x' + r(9), uid: 1000 + r(5), steps: [] };
	const n = 1 + r(16);
	for (let i = 0; i < n; i++) {
		const x = r(20);
		if (x < 9) k.steps.push(['focus', r(9) ? [text(r, true), text(r, false)] : null]);
		else if (x < 11) k.steps.push(['modal', text(r, true)]);
		else if (x < 14) k.steps.push(['toggle']);
		else if (x < 18) k.steps.push(['reader']);
		else k.steps.push(['gone']);
	}
	if (r(4)) k.steps.unshift(['toggle']);
	if (r(4)) k.steps.splice(r(3), 0, ['reader']);
	return k;
}

// ------------------------------------------------------------------ reference
// What the mapper makes of what arrived: lines, each split at its first tab.
function fail(msg) { const e = new Error(msg); e.verdict = true; throw e; }
async function run(k, stat = {}) {
	const w = world(k);
	let ext;
	try { ext = await load(w, k.kind); } catch (e) { fail('the extension does not load: ' + e); }
	const fifo = (k.runtime || '/run/user/' + k.uid) + '/keyd.fifo';
	let on = false, connected = false, written = 0, i = 0;
	if (!w.fifos.has(fifo)) fail(`the fifo the mapper reads, ${fifo}, was not made`);
	// after one dead write (which must not throw) the pipe is opened again
	for (const st of k.steps) {
		i++;
		const before = w.out.length, sp = w.spawned.length;
		let want = null, maybe = false;
		if (st[0] === 'toggle') {
			w.call(() => on ? ext.disable() : ext.enable());
			on = !on;
			const s = w.spawned.slice(sp);
			if (s.length !== 1) fail(`step ${i}: ${on ? 'enable' : 'disable'} ran ${JSON.stringify(s)}`);
			if (on ? !/^(\S*\/)?keyd-application-mapper( |$).*-d/.test(s[0]) : !/^p?kill.*keyd-application-mapper/.test(s[0])) fail(`step ${i}: ${on ? 'enable' : 'disable'} ran '${s[0]}'`);
			stat.toggles = (stat.toggles || 0) + 1;
		} else if (st[0] === 'reader') {
			w.reader = true;
		} else if (st[0] === 'gone') {
			w.reader = false;
			for (const s of w.streams) s.dead = true;
		} else if (st[0] === 'focus') {
			w.focus = st[1];
			want = st[1] || ['root', ''];
			w.tracker.emit('notify::focus-app');
		} else {
			w.stage = st[1];
			want = ['system-modal', st[1]];
			w.layout.emit('system-modal-opened');
		}
		const now = w.out.slice(before);
		w.settle();
		if (w.errors.length) fail(`step ${i} (${st[0]}): ${w.errors[0]}`);
		if (w.out.length !== before + now.length) fail(`step ${i}: something was written when the pipe was opened`);
		if (w.opens.length > 1) fail(`step ${i}: the pipe is being opened ${w.opens.length} times`);
		if (!want || !on) { if (now.length) fail(`step ${i} (${st[0]}${on ? '' : ', disabled'}): wrote ${JSON.stringify(now)}`); }
		else if (connected) {
			// Exactly one line for the mapper, on the fifo it reads.
			const all = now.map((x) => x[1]).join('');
			if (now.some((x) => x[0] !== fifo)) fail(`step ${i}: wrote to ${now[0][0]}`);
			const lines = all.split('\n');
			if (!all.endsWith('\n') || lines.length !== 2) fail(`step ${i} (${JSON.stringify(want)}): wrote ${JSON.stringify(now.map((x) => x[1]))}, which is not one line`);
			const tab = lines[0].indexOf('\t');
			const [c, t] = tab < 0 ? ['', ''] : [lines[0].slice(0, tab), lines[0].slice(tab + 1)];
			const norm = (s) => s.replace(/[\s]+/g, ' ').trim();
			if (c !== want[0] || norm(t) !== norm(want[1])) fail(`step ${i} (${JSON.stringify(want)}): the mapper reads class ${JSON.stringify(c)}, title ${JSON.stringify(t)}`);
			written++;
		} else if (now.length) fail(`step ${i}: wrote ${JSON.stringify(now)} while nobody reads`);
		if (st[0] === 'gone') connected = false;
		else if (st[0] === 'reader') connected = w.streams.some((s) => !s.dead) || false;
		if (w.reader && !w.streams.some((s) => !s.dead)) {
			// The old pipe is dead and nobody noticed yet: one message may be lost in finding out.
			connected = false;
		} else if (w.reader) connected = true;
		if (want && on && w.reader && !connected) fail(`step ${i}: the pipe was not opened again after a failing write`);
	}
	stat.written = written;
	return stat;
}

async function judge(k, stat) {
	try { await run(k, stat); return null; } catch (e) { return e.verdict ? e.message : 'harness: ' + (e.stack || e); }
}
async function shrink(k) {
	const drop = (s, i) => s.slice(0, i).concat(s.slice(i + 1));
	let again = true;
	while (again) {
		again = false;
		const cands = [];
		for (let i = 0; i < k.steps.length; i++) cands.push({ ...k, steps: drop(k.steps, i) });
		for (let i = 0; i < k.steps.length; i++) {
			const [a, b] = k.steps[i];
			if (a === 'focus' && b) for (const j of [0, 1]) for (let c = 0; c < b[j].length; c++) {
				const nb = [...b]; nb[j] = b[j].slice(0, c) + b[j].slice(c + 1);
				cands.push({ ...k, steps: k.steps.map((s, n) => n === i ? [a, nb] : s) });
			}
		}
		for (const c of cands) if (await judge(c, {})) { k = c; again = true; break; }
	}
	return k;
}

// ------------------------------------------------------------------ driver
const o = { '--tier': 'quick', '--seed': '1', '--known': '', '--out': HERE + '/../out', '--evidence': '', '--replay': '', '--prop': 'C38', '--part': '', '--cases': '' };
for (let a = process.argv.slice(2); a.length; a = a.slice(2)) {
	if (!(a[0] in o) || a.length < 2) { console.error('unknown argument ' + a[0]); process.exit(2); }
	o[a[0]] = a[1];
}
for (const f in FILES) SRC[f] = fs.readFileSync(FILES[f], 'utf8');
if (o['--replay']) {
	const k = JSON.parse(fs.readFileSync(o['--replay'], 'utf8').split('\n--- case\n')[1].split('\n--- failure')[0]);
	const f = await judge(k, {});
	console.log(f ? 'FAILS: ' + f : 'passes');
	if (f) console.log(`VIOLATION property=${o['--prop']} replay=${o['--replay']}`);
	process.exit(f ? 1 : 0);
}
const t0 = Date.now(), thorough = o['--tier'] === 'thorough';
const n = Number(o['--cases'] || (thorough ? 60000 : 3000)), limit = t0 + (thorough ? 600 : 60) * 1000;
let cases = 0, nt = 0, bad = null;
const seen = new Set(), labels = {}, samples = [];
for (let i = 0; i < n && Date.now() < limit && !bad; i++) {
	const k = gen(o['--seed'] + ':' + i), stat = {};
	const f = await judge(k, stat);
	cases++;
	for (const l of [k.kind, ...new Set(k.steps.map((s) => s[0]))]) labels[l] = (labels[l] || 0) + 1;
	if (stat.written > 1 && stat.toggles) { nt++; seen.add(crypto.createHash('sha1').update(JSON.stringify(k)).digest('hex')); }
	if (i < 3) samples.push(JSON.stringify(k));
	if (f) bad = [i, k, f];
}
let rc = 0;
if (bad) {
	const k = await shrink(bad[1]), f = await judge(k, {});
	const body = JSON.stringify(k, null, 1);
	fs.mkdirSync(o['--out'], { recursive: true });
	const p = `${fs.realpathSync(o['--out'])}/${o['--prop']}-shell-${crypto.createHash('sha1').update(body).digest('hex').slice(0, 16)}.replay`;
	fs.writeFileSync(p, `property ${o['--prop']}\npart shell\nseed ${o['--seed']}\ncase ${bad[0]}\n--- case\n${body}\n--- failure\n${f}\n`);
	console.log(`${o['--prop']}/shell: ${f}\n--- case ${bad[0]} (shrunk)\n${body}`);
	console.log(`VIOLATION property=${o['--prop']} replay=${p}`);
	rc = 1;
}
const wall = (Date.now() - t0) / 1000;
if (o['--evidence']) {
	fs.writeFileSync(o['--evidence'], JSON.stringify({ property: o['--prop'], tier: o['--tier'], seed: Number(o['--seed']), level: 'exploration', coverage: {
		evaluations: cases, distinct_nontrivial: seen.size, nontrivial: nt, exhaustive: false,
		rule: 'shell: one of the two extensions on a simulated GNOME Shell: focus changes (any class and title), modal dialogs, enabling and disabling, the mapper opening and closing the fifo; non-trivial: the extension was switched on or off and at least two lines were written',
		parts: { shell: cases }, labels, samples }, wall_s: Math.round(wall * 10) / 10, violations: bad ? 1 : 0 }, null, 1));
}
console.log(`${o['--prop']}: ${cases} cases, ${seen.size} distinct non-trivial, ${wall.toFixed(1)} s`);
process.exit(rc);
