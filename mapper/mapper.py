#!/usr/bin/env python3
"""C32: scripts/keyd-application-mapper as a whole, against simulated desktops.

The real script runs in a process of its own.  What it sees of the desktop comes from here (the
fifo of the gnome extension, a wayland compositor speaking the wire protocol, stand-ins for the
modules Xlib and dbus), and the `keyd` in its PATH reports its arguments back.  Cases are random
(app.conf, sequence of focus changes, edits, signals); the expected requests come from the model
below.  A failing case is shrunk by leaving out parts of it, and written to a replay file (JSON).
"""
import ctypes, hashlib, json, os, random, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time, traceback, types, stat

HERE = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = REPO + "/scripts/keyd-application-mapper"
MONITORS = ["gnome", "wlroots", "x", "cosmic", "kde"]
WAIT = 20.0
SENT = "verif-end"


# ------------------------------------------------------------------ model
def norm_class(s):
    out = ""
    for ch in s:
        if ("a" <= ch <= "z") or ("A" <= ch <= "Z") or ("0" <= ch <= "9"):
            out += ch
        elif not out.endswith("-"):
            out += "-"
    return out.strip("-").lower()


def norm_title(s):
    out = ""
    for ch in s:
        if ch.isalnum():
            out += ch
        elif not out.endswith("-"):
            out += "-"
    return out.strip("-").lower()


def tokens(p):
    out, i = [], 0
    while i < len(p):
        ch = p[i]
        i += 1
        if ch == "[":
            j = i + (p[i:i + 1] == "!")
            k = p.find("]", j + 1)          # a bracket in the first place stands for itself
            if k >= 0:
                body, neg = p[j:k], j > i
                rs, n = [], 0
                while n < len(body):
                    if n + 2 < len(body) and body[n + 1] == "-":
                        rs.append((body[n], body[n + 2]))
                        n += 3
                    else:
                        rs.append((body[n], body[n]))
                        n += 1
                out.append((neg, rs))
                i = k + 1
                continue
        out.append(ch)
    return out


def glob(p, s):
    """Does s match the wildcard pattern p?"""
    at = {0}                                # how much of s may be matched so far
    for t in tokens(p):
        if not at:
            return False
        if t == "*":
            at = set(range(min(at), len(s) + 1))
        elif t == "?":
            at = {i + 1 for i in at if i < len(s)}
        elif isinstance(t, tuple):
            at = {i + 1 for i in at if i < len(s) and any(a <= s[i] <= b for a, b in t[1]) != t[0]}
        else:
            at = {i + 1 for i in at if i < len(s) and s[i] == t}
    return len(s) in at


def parse(lines):
    secs = []
    for l in lines:
        l = l.strip(" \t\r")
        if not l or l[0] == "#" or "\0" in l:
            continue
        if l[0] == "[" and l[-1] == "]":
            f = l[1:-1].split("|")
            secs.append((f[0], f[1] if len(f) > 1 else "*", []))
        elif secs:
            secs[-1][2].append(l)
    return secs


def request(lines, cls, title):
    c, t = norm_class(cls), norm_title(title)
    r = ["bind", "reset"]
    for sc, st, b in parse(lines):
        if glob(sc, c) and glob(st, t):
            r += b
    return r


# ------------------------------------------------------------------ generator
WORDS = ["kitty", "st", "Gnome", "find", "Org.Mozilla", "x", "A", "b1", "chromium", "Term", "é", "Straße", "日本", "vim", "MAIN", "q2", "İx", "ǅ", "²", "0"]
SEPS = [" ", "-", "_", ".", " - ", "/", "::", "", "  ", "—", "|", "#", "[", "]", "*", "?", "\\", "'", "\"", "$", "%", "\u0301", "=", "\u00a0", ";"]


def gen_name(r, title):
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4] if title else [1, 1, 1, 2, 2, 3, 0])
    s = r.choice(SEPS) if r.random() < .15 else ""
    for i in range(n):
        s += r.choice(WORDS)
        if i + 1 < n or r.random() < .15:
            s += r.choice(SEPS)
    if title and r.random() < .04:
        s += "\U0001f600" * r.randrange(1, 40) + "w" * r.randrange(0, 3000)
    return s


def gen_pattern(r, names):
    s = r.choice(names)
    k = r.randrange(12)
    if k <= 3:
        return s
    if k == 4:
        return "*"
    if k == 5:
        return s[:r.randrange(len(s) + 1)] + "*"
    if k == 6:
        return "*" + s[r.randrange(len(s) + 1):]
    if k == 7:
        i = r.randrange(len(s) + 1)
        return "*" + s[i:i + r.randrange(1, 5)] + "*"
    if k == 8 and s:
        i = r.randrange(len(s))
        return s[:i] + "?" + s[i + 1:]
    if k == 9 and s:
        i = r.randrange(len(s))
        c = s[i] if s[i] not in "]!-^[" else "x"
        return s[:i] + r.choice(["[%sz]" % c, "[!z]", "[!%s]" % c, "[a-f]", "[%s]" % c, "[0-9a-z]"]) + s[i + 1:]
    if k == 10:
        return s.upper() or "?"
    return r.choice(["", "nothing", s + "x", s[:-1], "?*", "*-*", "**", s + "*"])


def gen_line(r):
    k = r.randrange(14)
    if k <= 7:
        return r.choice(["alt.t = C-t", "control.1 = macro(Inside space chrome!)", "a = b", "alt.] = C-tab", "alt.[ = C-S-tab", "x = oneshot(shift)", "capslock = overload(l, esc)", "main.y = z"]) + r.choice(["", "", str(r.randrange(100))])
    if k == 8:
        return r.choice(["$(reboot)", "`x`", "a = command(echo \"$HOME\" > x)", "'q'", "a\\", "-t", "--help", "reset", "*", "~", "a;b", "&", "a = macro(! ( )", "x = [", "q = \"", "%s", "a\tb", "= =", "|", "a|b", "a # b", "{x}"])
    if k == 9:
        return r.choice(["é = ü", "日 = macro(本)", "x = \udcff", "\udc80\udcc3 = y", "x = macro(\U0001f600)"])
    if k == 10:
        return r.choice(["", "  ", "\t", "# comment", "#[kitty]", "  # c", "#a = b"])
    if k == 11:
        return r.choice(["a = \0b", "\0", "x\0"])
    if k == 12:
        return "n" * r.randrange(1, 3000) + " = x"
    return r.choice(["[unclosed", "closed]", "a = ]", "[a] = x", "[k|t] b"])


def gen_config(r, wins):
    cn = [norm_class(w[0]) for w in wins] or ["x"]
    tn = [norm_title(w[1]) for w in wins] or ["x"]
    lines = []
    if r.random() < .12:
        lines += [gen_line(r) for _ in range(r.randrange(1, 4))]

    def sentinel():
        pad = r.choice(["", "", " ", "\t"])
        lines.append(pad + "[%s]" % SENT + r.choice(["", " "]))
        lines.append("zz = sentinel")
    n, at = r.randrange(0, 7), -1
    at = r.randrange(n + 1)
    for i in range(n):
        if i == at:
            sentinel()
        c = gen_pattern(r, cn)
        h = "[" + c + ("|" + gen_pattern(r, tn) if r.random() < .5 else "") + "]"
        if h.count("|") > 1:
            h = "[*]"
        lines.append(r.choice(["", "", "", "  ", "\t"]) + h + r.choice(["", "", "", " ", "\r"]))
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            l = gen_line(r)
            lines.append((r.choice(["", "", "\t", "   "]) + l + r.choice(["", "", " ", "\r"])) if l else l)
    if at == n:
        sentinel()
    return lines


def gen_case(seed, index):
    r = random.Random("%d:%d" % (seed, index))
    mon = r.choice(["gnome"] * 4 + ["wlroots"] * 4 + ["x"] * 3 + ["cosmic"] * 2 + ["kde"])
    wins = [[gen_name(r, False), gen_name(r, True)] for _ in range(r.randrange(1, 6))]
    for i in range(r.randrange(0, 3)):
        w = list(r.choice(wins))
        if r.random() < .6:
            w[1] = gen_name(r, True)
        wins.append(w)
    case = {"monitor": mon, "wins": wins, "config": gen_config(r, wins), "flags": [], "rc": r.choice([0, 0, 0, 0, 1, 255]), "ms": r.choice([0, 0, 0, 0, 3, 12]), "kde": r.choice(["5", "6"]),
            "chunks": r.choice([0, 0, 1, 1]), "steps": []}
    if r.random() < .15:
        case["flags"].append("-v")
    if r.random() < .15:
        case["flags"].append("-d")
    steps = case["steps"]
    for _ in range(r.randrange(1, 14)):
        k = r.random()
        if k < .62:
            steps.append(["focus", r.randrange(len(wins))])
        elif k < .70:
            steps.append(["edit", gen_config(r, wins), r.choice(["rewrite", "rename", "rename"]), r.choice([-1, 1])])
        elif k < .74:
            steps.append(["remove"])
        elif k < .80:
            steps.append(["usr1"])
        elif k < .83:
            steps.append(["second"])
        elif k < .92:
            steps.append(["burst", [r.randrange(len(wins)) for _ in range(r.randrange(2, 6))]])
        else:
            steps.append(["odd", r.randrange(1 << 16)])
    return case


# ------------------------------------------------------------------ the script's process
CODE = None


class Hung(Exception):
    pass


class Bad(Exception):
    def __init__(self, tag, msg):
        self.tag, self.msg = tag, msg


def child(case, d, feed, argv):
    """Runs the script; never returns."""
    rc = 1
    try:
        os.setpgid(0, 0)
        log = os.open(d + "/log", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(null, 0); os.dup2(log, 1); os.dup2(log, 2)
        keep = {0, 1, 2} | ({feed.fileno()} if feed else set())
        for fd in os.listdir("/proc/self/fd"):
            if int(fd) not in keep:
                try:
                    os.close(int(fd))
                except OSError:
                    pass
        env = {"HOME": d + "/home", "PATH": d + "/bin:/usr/bin:/bin", "XDG_RUNTIME_DIR": d + "/run", "VERIF_REC": d + "/rec", "VERIF_RC": str(case["rc"]), "VERIF_MS": str(case["ms"]), "LANG": "C.UTF-8"}
        mon = case["monitor"]
        if mon == "gnome":
            env["XDG_CURRENT_DESKTOP"] = "ubuntu:GNOME"
        elif mon in ("wlroots", "cosmic"):
            env["WAYLAND_DISPLAY"] = "wayland-0" if case["chunks"] else d + "/run/wayland-0"
        elif mon == "x":
            env["DISPLAY"] = ":0"
            fake_xlib(feed)
        elif mon == "kde":
            env["KDE_SESSION_VERSION"] = case["kde"]
            fake_dbus(feed, case)
        os.environ.clear()
        os.environ.update(env)
        os.chdir(d)
        signal.signal(signal.SIGUSR1, signal.SIG_DFL)
        sys.argv = [SCRIPT] + argv
        real_open = open

        def redirected(p, *a, **k):
            if isinstance(p, str) and p.startswith("/tmp/keyd-kwin-"):
                p = d + "/kwin.js"
            return real_open(p, *a, **k)
        g = {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__, "open": redirected}
        main = types.ModuleType("__main__")
        main.__dict__.update(g)
        sys.modules["__main__"] = main
        exec(CODE, main.__dict__)
        rc = 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
    try:
        sys.stdout.flush(); sys.stderr.flush()
    except BaseException:
        pass
    os._exit(rc & 255)


class Lines:
    """JSON messages from a socket, with a queue of its own as Xlib has."""
    def __init__(self, sock):
        self.sock, self.buf, self.q = sock, b"", []

    def fill(self, block):
        while True:
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                self.q.append(json.loads(l))
            if block and self.q:
                return
            if not block and not select.select([self.sock], [], [], 0)[0]:
                return
            data = self.sock.recv(65536)
            if not data:
                if self.q:
                    return
                raise ConnectionError("the server is gone")
            self.buf += data


def fake_xlib(feed):
    ATOMS = {}
    src = Lines(feed)
    state = {"wins": {}, "focus": 1, "root": 100}

    class BadWindow(Exception):
        pass

    class Prop:
        def __init__(self, v):
            self.value = v

    class Tree:
        pass

    class Win:
        def __init__(self, i):
            self.id = i

        def __eq__(self, o):
            return isinstance(o, Win) and o.id == self.id

        def __hash__(self):
            return hash(self.id)

        def rec(self):
            if self.id == state["root"]:
                return {"cls": None, "parent": None}
            w = state["wins"].get(str(self.id))
            if w is None or w.get("bad"):
                raise BadWindow(self.id)
            return w

        def change_attributes(self, **kw):
            self.rec()

        def get_full_property(self, atom, typ, sizehint=10):
            w = self.rec()
            name = {v: k for k, v in ATOMS.items()}.get(atom)
            if name == "_NET_WM_NAME":
                return Prop(w["net"].encode("latin1")) if w.get("net") is not None else None
            if name == "WM_NAME":
                return Prop(w["wm"].encode("latin1")) if w.get("wm") is not None else None
            if name == "_NET_WM_STATE":
                return Prop([ATOMS.setdefault(a, 300 + len(ATOMS)) for a in w["state"]]) if w.get("state") else None
            if name == "_NET_WM_WINDOW_TYPE":
                return Prop([ATOMS.setdefault(a, 300 + len(ATOMS)) for a in w["types"]]) if w.get("types") else None
            return None
        get_property = get_full_property

        def get_wm_class(self):
            c = self.rec().get("cls")
            return tuple(c) if c else None

        def query_tree(self):
            t = Tree()
            p = self.rec().get("parent")
            t.parent = Win(p) if p is not None else 0
            t.children = [Win(int(i)) for i, w in sorted(state["wins"].items(), key=lambda x: int(x[0])) if w.get("parent") == self.id and not w.get("bad")]
            t.root = Win(state["root"])
            return t

    class Screen:
        root = Win(100)

    class Focus:
        pass

    class Display:
        def __init__(self, *a):
            feed.sendall(b"or")

        def screen(self, *a):
            return Screen()

        def fileno(self):
            return feed.fileno()

        def intern_atom(self, name, only_if_exists=False):
            return ATOMS.setdefault(name, 300 + len(ATOMS))
        get_atom = intern_atom

        def pending_events(self):
            src.fill(False)
            return len(src.q)

        def next_event(self):
            src.fill(True)
            state.update(src.q.pop(0))
            return types.SimpleNamespace(type=28)

        def get_input_focus(self):
            f = Focus()
            f.focus = state["focus"] if state["focus"] in (0, 1) else Win(state["focus"])
            return f

        def flush(self):
            pass
        sync = flush

        def create_resource_object(self, kind, i):
            return Win(i)

    X = types.ModuleType("Xlib"); D = types.ModuleType("Xlib.display"); C = types.ModuleType("Xlib.X"); A = types.ModuleType("Xlib.Xatom"); E = types.ModuleType("Xlib.error")
    D.Display = Display
    C.SubstructureNotifyMask, C.PropertyChangeMask, C.AnyPropertyType = 1 << 19, 1 << 22, 0
    A.ATOM = 4
    E.BadWindow = E.XError = BadWindow
    X.display, X.X, X.Xatom, X.error, X.__path__ = D, C, A, E, []
    for n, m in (("Xlib", X), ("Xlib.display", D), ("Xlib.X", C), ("Xlib.Xatom", A), ("Xlib.error", E)):
        sys.modules[n] = m


def fake_dbus(feed, case):
    src = Lines(feed)
    objs = []
    db = types.ModuleType("dbus"); sv = types.ModuleType("dbus.service"); ml = types.ModuleType("dbus.mainloop"); gl = types.ModuleType("dbus.mainloop.glib")

    class Obj:
        def __init__(self, dest, path):
            self.dest, self.path = dest, path

        def unloadScript(self, name):
            pass

        def loadScript(self, name, *a):
            text = open(name if not name.startswith("/tmp/keyd-kwin-") else os.getcwd() + "/kwin.js").read()
            want = "windowActivated" if case["kde"] == "6" else "clientActivated"
            if want not in text or "updateWindow" not in text:
                raise Exception("script for another version of kwin:\n" + text)
            return 7

        def run(self):
            want = "/Scripting/Script7" if case["kde"] == "6" else "/7"
            if self.path != want:
                raise Exception("no such object " + self.path)
            feed.sendall(b"r")

    class SessionBus:
        def get_object(self, dest, path):
            return Obj(dest, path)

    class Object:
        def __init__(self, *a, **k):
            objs.append(self)
            feed.sendall(b"o")

    def method(iface, **kw):
        return lambda f: f
    db.SessionBus, sv.Object, sv.method = SessionBus, Object, method
    sv.BusName = lambda *a, **k: a
    gl.DBusGMainLoop = lambda **k: None
    db.service, db.mainloop, ml.glib = sv, ml, gl
    db.__path__, ml.__path__ = [], []

    class MainLoop:
        def run(self):
            while True:
                src.fill(True)
                t, c, i = src.q.pop(0)
                objs[-1].updateWindow(t, c, i)
    gi = types.ModuleType("gi"); rp = types.ModuleType("gi.repository"); G = types.ModuleType("gi.repository.GLib")
    G.MainLoop = MainLoop
    gi.repository, rp.GLib = rp, G
    gi.__path__, rp.__path__ = [], []
    for n, m in (("dbus", db), ("dbus.service", sv), ("dbus.mainloop", ml), ("dbus.mainloop.glib", gl), ("gi", gi), ("gi.repository", rp), ("gi.repository.GLib", G)):
        sys.modules[n] = m


# ------------------------------------------------------------------ the desktop
def wl_string(s):
    b = (s if isinstance(s, bytes) else s.encode("utf8", "surrogateescape")) + b"\0"
    return struct.pack("I", len(b)) + b + b"\0" * (-len(b) % 4)


def wl_msg(obj, op, payload=b""):
    return struct.pack("II", obj, op | (len(payload) + 8) << 16) + payload


class Run:
    def __init__(self, case, d, wait):
        self.case, self.d, self.wait = case, d, wait
        self.r = random.Random(json.dumps(case, sort_keys=True))
        self.cfg = case["config"]          # what the mapper has to go by
        self.mtime = 1600000000
        self.conn = None
        self.dead = None
        self.late = []                      # requests which may or may not come
        self.pid = 0
        self.expected = 0

    # -- plumbing
    def write_config(self, lines, mode):
        p = self.d + "/home/.config/keyd/app.conf"
        data = "\n".join(lines).encode("utf8", "surrogateescape") + b"\n"
        q = p + ".new" if mode == "rename" else p
        with open(q, "wb") as f:
            f.write(data)
        self.mtime += 10
        os.utime(q, (self.mtime, self.mtime))
        if q != p:
            os.rename(q, p)

    def alive(self):
        while True:
            try:
                p, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                p = -1
            if p <= 0:
                break
            if p == self.pid and not ("-d" in self.case["flags"] and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
                self.dead = st
        try:
            os.killpg(self.pid, 0)
            return self.dead is None
        except ProcessLookupError:
            return False

    def log(self):
        try:
            return open(self.d + "/log", errors="replace").read()[-1500:]
        except OSError:
            return ""

    def record(self, timeout):
        end = time.time() + timeout
        while True:
            if select.select([self.rec], [], [], min(.05, max(0, end - time.time())))[0]:
                data = self.rec.recv(200000)
                return data.decode("utf8", "surrogateescape").split("\0")[:-1]
            if not self.alive():
                if select.select([self.rec], [], [], 0)[0]:
                    continue
                raise Bad("stopped", "the mapper has ended\n" + self.log())
            if time.time() >= end:
                return None

    def expect(self, cls, title, what, mandatory=True):
        want = request(self.cfg, cls, title)
        if not mandatory:
            self.late.append(want)
            return
        self.expected += 1
        while True:
            got = self.record(self.wait)
            if got is None:
                raise Bad("missing", "%s: no request within %g s\n%s" % (what, self.wait, self.log()))
            if got == want:
                self.late = [x for x in self.late if x == want]
                return
            if got in self.late:
                self.late.remove(got)
                continue
            raise Bad("request", "%s (class %r, title %r)\nexpected: keyd %s\ngot     : keyd %s" % (what, norm_class(cls), norm_title(title)[:200], show(want), show(got)))

    def until(self, fn, what):
        end = time.time() + self.wait
        while not fn():
            if not self.alive():
                raise Bad("stopped", "the mapper has ended (%s)\n%s" % (what, self.log()))
            if time.time() > end:
                raise Bad("hangs", what + "\n" + self.log())
            time.sleep(.002)

    def fork(self, argv, feed):
        pid = os.fork()
        if pid == 0:
            try:
                child(self.case, self.d, feed, argv)
            finally:
                os._exit(1)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        return pid

    # -- start, per desktop
    def start(self):
        d, case = self.d, self.case
        for x in ("home/.config/keyd", "run", "bin"):
            os.makedirs(d + "/" + x)
        os.symlink(RECORDER, d + "/bin/keyd")
        self.rec = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        self.rec.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        self.rec.bind(d + "/rec")
        self.write_config(case["config"], "rewrite")
        mon = case["monitor"]
        feed = None
        if mon == "gnome":
            os.mkfifo(d + "/run/keyd.fifo")
        elif mon in ("wlroots", "cosmic"):
            self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.srv.bind(d + "/run/wayland-0")
            self.srv.listen(5)
        else:
            self.conn, feed = socket.socketpair()
        self.pid = self.fork(case["flags"], feed)
        if feed:
            feed.close()
        if mon == "gnome":
            self.open_fifo()
        elif mon == "wlroots":
            self.wl_start(True)
        elif mon == "cosmic":
            self.wl_start(False)
            self.wl_start(True)
        else:
            got = b""
            self.conn.setblocking(False)

            def ready():
                nonlocal got
                try:
                    got += self.conn.recv(100)
                except BlockingIOError:
                    pass
                return b"o" in got and b"r" in got
            self.until(ready, "the display is not opened")
            self.conn.setblocking(True)
        if mon == "x":
            self.x = {"100": None}
            self.xw = {}
            self.xid = 200
            self.last = ("", "")
        if mon in ("wlroots", "cosmic"):
            self.h = {}                     # handle -> what was last announced
            self.next = 0xff000000
            self.active = None
            self.told = None

    def open_fifo(self):
        self.fifo = None

        def opened():
            try:
                self.fifo = os.open(self.d + "/run/keyd.fifo", os.O_WRONLY | os.O_NONBLOCK)
                return True
            except OSError:
                return False
        self.until(opened, "nobody reads the fifo of the gnome extension")
        os.set_blocking(self.fifo, True)

    def put(self, data, lost=False):
        """Writes to the mapper, now and then in pieces."""
        out = (lambda b: os.write(self.fifo, b)) if self.case["monitor"] == "gnome" else (lambda b: self.conn.send(b))
        if self.case["chunks"] and self.r.random() < .3 and len(data) > 1:
            cuts = sorted(self.r.randrange(1, len(data)) for _ in range(self.r.randrange(1, 4)))
            parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        else:
            parts = [data]
        try:
            for i, p in enumerate(parts):
                if i:
                    time.sleep(.002)
                while p:
                    p = p[out(p):]
        except (BrokenPipeError, ConnectionResetError):
            if lost:
                return
            self.until(lambda: False, "the mapper does not listen any more")

    def wl_start(self, wanted):
        iface = {"wlroots": "zwlr_foreign_toplevel_manager_v1", "cosmic": "zcosmic_toplevel_info_v1"}[self.case["monitor"]]
        self.srv.setblocking(False)

        def accepted():
            try:
                self.conn, _ = self.srv.accept()
                return True
            except BlockingIOError:
                return False
        self.until(accepted, "no connection to the compositor")
        self.conn.setblocking(True)
        self.conn.settimeout(self.wait)
        reg = syn = None
        while not (reg and syn):
            o, op, p = self.wl_read()
            if (o, op) == (1, 1):
                reg = struct.unpack("I", p)[0]
            elif (o, op) == (1, 0):
                syn = struct.unpack("I", p)[0]
            else:
                raise Bad("wayland", "unexpected request %d.%d" % (o, op))
        names = [("wl_compositor", 4), ("wl_shm", 1), ("wl_seat", 7), ("xdg_wm_base", 3), (iface + "x", 1), ("org_kde_plasma", 2)]
        self.r.shuffle(names)
        names = names[:self.r.randrange(len(names) + 1)]
        g = None
        if self.case["monitor"] == "wlroots" or wanted:
            at = self.r.randrange(len(names) + 1)
            names.insert(at, (iface, 3))
        data = b""
        for i, (n, v) in enumerate(names):
            p = struct.pack("I", 10 + i) + wl_string(n) + struct.pack("I", v)
            if n == iface:
                g = p
            data += wl_msg(reg, 0, p)
        data += wl_msg(syn, 0, struct.pack("I", 1)) + wl_msg(1, 1, struct.pack("I", syn))
        self.put(data, not wanted)      # without that interface the mapper hangs up
        if not wanted:
            return
        if g is None:
            raise Bad("wayland", "no such interface")
        while True:
            o, op, p = self.wl_read()
            if (o, op) == (reg, 0):
                break
        if p[:-4] != g:
            raise Bad("wayland", "wrong bind request %r" % p)
        self.mgr = struct.unpack("I", p[-4:])[0]

    def wl_read(self):
        def exactly(n):
            b = b""
            while len(b) < n:
                try:
                    c = self.conn.recv(n - len(b))
                except TimeoutError:
                    raise Bad("wayland", "no request\n" + self.log())
                except ConnectionError:
                    c = b""
                if not c:
                    self.until(lambda: False, "the mapper has closed the connection")
                b += c
            return b
        o, w = struct.unpack("II", exactly(8))
        return o, w & 0xffff, exactly((w >> 16) - 8)

    # -- focus changes: returns data to send and a list of (cls, title, mandatory)
    def focus(self, cls, title):
        mon = self.case["monitor"]
        if mon == "gnome":
            return ("%s\t%s\n" % (cls, title)).encode(), [(cls, title, True)]
        if mon == "kde":
            return (json.dumps([title, cls, "id"]) + "\n").encode(), [(cls, title, True)]
        if mon == "x":
            return self.x_focus(cls, title)
        if mon == "wlroots":
            return self.wlr_focus(cls, title)
        return self.cosmic_focus(cls, title)

    def x_focus(self, cls, title):
        r = self.r
        if len(self.xw) > 12:
            self.xw = {}
        k = r.randrange(5)
        # a window of that class and title, perhaps with children which have no class
        top = self.xid; self.xid += 10
        w = {"parent": 100, "cls": ["inst", cls]}
        try:
            lat = title.encode("latin1").decode("latin1")
        except UnicodeEncodeError:
            lat = None
        if lat is not None and k == 1:
            w["wm"] = lat
        elif lat is not None and k == 2:
            w["wm"], w["net"] = lat, "\xff\xfe bad"
        else:
            w["net"] = title.encode("utf8", "surrogateescape").decode("latin1")
            if r.random() < .5:
                w["wm"] = "something else"
        if r.random() < .3:
            w["state"] = r.choice([["_NET_WM_STATE_MAXIMIZED_VERT"], ["_NET_WM_STATE_FOCUSED"], ["_NET_WM_STATE_HIDDEN", "_NET_WM_STATE_FOCUSED"]])
        self.xw[str(top)] = w
        foc = top
        for _ in range(r.randrange(0, 3)):
            self.xid += 1
            self.xw[str(self.xid)] = {"parent": foc, "cls": None, "net": "child"}
            foc = self.xid
        self.xid += 10
        if not cls:
            pass
        wins = dict(self.xw)
        n = r.randrange(8)
        other = None
        if n == 0:      # a floating window has the say
            self.xid += 1
            wins[str(self.xid)] = dict(w, state=["_NET_WM_STATE_ABOVE"])
            foc = 100 if r.random() < .3 else self.xid + 100000 if r.random() < .1 else r.choice([int(i) for i in wins])
        elif n == 1:    # ... but not a notification
            self.xid += 1
            wins[str(self.xid)] = {"parent": 100, "cls": ["n", "Dunst"], "net": "note", "state": ["_NET_WM_STATE_ABOVE"], "types": ["_NET_WM_WINDOW_TYPE_NOTIFICATION"]}
        self.wins = wins
        return (json.dumps({"wins": wins, "focus": foc}) + "\n").encode(), self.x_told(cls, title)

    def x_told(self, cls, title):
        if (cls, title) == self.last:
            return []
        self.last = (cls, title)
        return [(cls, title, True)]

    def wlr_batch(self, h, ev, done=True):
        """ev: list of (opcode, payload) on handle h."""
        return b"".join(wl_msg(h, op, p) for op, p in ev) + (wl_msg(h, 5) if done else b"")

    def states(self, on):
        s = [x for x in (0, 1, 3) if self.r.random() < .25] + ([2] if on else [])
        self.r.shuffle(s)
        return struct.pack("I", 4 * len(s)) + b"".join(struct.pack("I", x) for x in s)

    def wlr_focus(self, cls, title):
        r = self.r
        out, exp = b"", []
        have = [h for h, w in self.h.items() if w["cls"] == cls]
        if have and r.random() < .7:
            h, ev = r.choice(have), []
        else:
            h = self.next
            self.next += 1
            self.h[h] = {"cls": cls, "title": ""}
            out += wl_msg(self.mgr, 0, struct.pack("I", h))
            ev = [(1, wl_string(cls))]
        if self.h[h]["title"] != title:
            ev.append((0, wl_string(title)))
            self.h[h]["title"] = title
        ev.append((4, self.states(True)))
        if r.random() < .3:
            ev.append((r.choice([2, 3]), struct.pack("I", 9)))
        if r.random() < .2:
            ev.append((7, struct.pack("I", 0)))
        r.shuffle(ev)
        old = self.active
        lose = self.wlr_batch(old, [(4, self.states(False))]) if old not in (None, h) else b""
        first = r.random() < .5
        if first:
            out += lose
        out += self.wlr_batch(h, ev)
        self.active = h
        exp.append((cls, title, True))
        if not first:
            out += lose
        # an unrelated window changes its state as well
        rest = [x for x in self.h if x not in (h, old)]
        if rest and r.random() < .4:
            x = r.choice(rest)
            k = r.randrange(3)
            if k == 0:
                out += self.wlr_batch(x, [(4, self.states(False))])
            elif k == 1:
                out += wl_msg(x, 6)
                del self.h[x]
            else:
                t = gen_name(r, True)
                self.h[x]["title"] = t
                out += self.wlr_batch(x, [(0, wl_string(t))])
        return out, exp

    def cosmic_focus(self, cls, title):
        r = self.r
        out = b""
        have = [h for h, w in self.h.items() if w["cls"] == cls]
        if have and r.random() < .7:
            h, ev = r.choice(have), []
        else:
            h = self.next
            self.next += 1
            self.h[h] = {"cls": cls, "title": None}
            out += wl_msg(self.mgr, 0, struct.pack("I", h))
            ev = [(3, wl_string(cls))]
        if self.h[h]["title"] != title:
            ev.append((2, wl_string(title)))
            self.h[h]["title"] = title
        r.shuffle(ev)
        old = self.active
        if old not in (None, h):
            out += wl_msg(old, 8, self.states(False)) + wl_msg(old, 1)
        for op, p in ev:
            out += wl_msg(h, op, p)
        out += wl_msg(h, 8, self.states(True)) + wl_msg(h, 1)
        self.active = h
        return out, [(cls, title, True)]

    def odd(self, n):
        """Something unusual which must not stop the mapper."""
        r, mon = self.r, self.case["monitor"]
        if mon == "gnome":
            k = n % 4
            if k == 0:      # the extension goes away and comes back
                os.close(self.fifo)
                time.sleep(.01)
                self.open_fifo()
            elif k == 1:    # a title with a tab
                self.put(b"kitty\ta\tb\n")
                self.expect("kitty", "a\tb", "a title with a tab")
            elif k == 2:    # half a line is no window
                self.put(b"no window\n")
                self.expect("", "", "a line without a title", False)
            else:
                self.put(b"kitty\t\xff\xfe\xc3\n")
                self.expect("kitty", "", "a title which is not UTF-8")
        elif mon == "x":
            k = n % 4
            wins = dict(self.xw)
            if k == 0:
                self.put((json.dumps({"wins": wins, "focus": r.choice([0, 1])}) + "\n").encode())
            elif k == 1:
                wins["999"] = {"parent": 100, "cls": ["a", "b"], "bad": True}
                self.put((json.dumps({"wins": wins, "focus": 999}) + "\n").encode())
            elif k == 2:    # no class anywhere
                wins["998"] = {"parent": 100, "cls": None, "net": "x"}
                self.put((json.dumps({"wins": wins, "focus": 998}) + "\n").encode())
                for c, t, m in self.x_told("root", ""):
                    self.expect(c, t, "a window without a class", m)
            else:           # nothing has changed
                if self.last != ("", "") and hasattr(self, "wins"):
                    self.put((json.dumps({}) + "\n").encode())
        elif mon == "wlroots":
            k = n % 4
            if k == 0 and self.active:      # the title of the active window changes
                t = gen_name(r, True)
                h = self.h[self.active]
                same = t == h["title"]
                h["title"] = t
                self.put(self.wlr_batch(self.active, [(0, wl_string(t))]))
                self.expect(h["cls"], t, "the title changes", not same)
            elif k == 1 and self.active:
                self.put(wl_msg(self.active, 6))
                del self.h[self.active]
                self.active = None
            elif k == 2 and self.active:    # it is made fullscreen, or loses the focus
                on = r.random() < .5
                self.put(self.wlr_batch(self.active, [(4, self.states(on))]))
                h = self.h[self.active]
                if on:
                    self.expect(h["cls"], h["title"], "the state changes", False)
                else:
                    self.active = None
            else:
                t = b"a\xff\xfeb"
                x = self.next
                self.next += 1
                self.h[x] = {"cls": "\0", "title": ""}
                self.put(wl_msg(self.mgr, 0, struct.pack("I", x)) + self.wlr_batch(x, [(0, wl_string(t)), (1, wl_string("oddcls")), (4, self.states(False))]))
        elif mon == "cosmic":
            x = self.next
            self.next += 1
            self.h[x] = {"cls": "\0", "title": ""}
            self.put(wl_msg(self.mgr, 0, struct.pack("I", x)) + wl_msg(x, 2, wl_string(b"a\xff\xfeb")) + wl_msg(x, 3, wl_string("oddcls")) + wl_msg(x, 8, self.states(False)) + wl_msg(x, 1))

    def go(self):
        case = self.case
        self.start()
        wins = case["wins"]
        seen = missing = False
        self.disk = self.cfg
        for n, s in enumerate(case["steps"] + [["focus", -1]]):
            op = s[0]
            what = "step %d" % n
            if op in ("focus", "burst"):
                todo = [s[1]] if op == "focus" else s[1]
                data, exp = b"", []
                for i in todo:
                    w = wins[i % len(wins)] if i >= 0 else [SENT, "the end"]
                    if case["monitor"] in ("wlroots", "cosmic", "x") and "\0" in w[0] + w[1]:
                        continue
                    if case["monitor"] == "x" and i >= 0:
                        w = [w[0] or "x", w[1]]
                    dd, e = self.focus(*w)
                    data += dd
                    exp += e
                if not missing and exp:
                    self.cfg = self.disk
                self.put(data)
                for c, t, m in exp:
                    self.expect(c, t, what + (": focus" if op == "focus" else ": focus changes in quick succession"), m)
                seen |= bool(exp)
                if exp:
                    self.lastwin = exp[-1][:2]
            elif op == "edit":
                self.disk = s[1]
                missing = False
                if s[3] < 0:
                    self.mtime -= 100000 + self.r.randrange(1000) * 100
                self.write_config(s[1], s[2])
                case.setdefault("edited", True)
            elif op == "remove":
                if not missing:
                    os.unlink(self.d + "/home/.config/keyd/app.conf")
                    missing = True
            elif op == "usr1":
                if not seen:
                    continue
                if not missing:
                    self.cfg = self.disk
                # (a signal just before the mapper goes to sleep is noticed with the next event)
                time.sleep(.005)
                for p in self.pids():
                    os.kill(p, signal.SIGUSR1)
                if not select.select([self.rec], [], [], 1)[0]:
                    self.late.append(request(self.cfg, *self.lastwin))
                    for p in self.pids():
                        os.kill(p, signal.SIGUSR1)
                self.expect(*self.lastwin, what + ": USR1")
            elif op == "second":
                if "-d" in case["flags"] or missing or not seen:
                    continue
                pid = self.fork([], None)
                end = time.time() + self.wait
                while True:
                    p, st = os.waitpid(pid, os.WNOHANG)
                    if p:
                        break
                    if time.time() > end:
                        os.killpg(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        raise Bad("instance", "a second instance runs beside the first")
                    time.sleep(.002)
            elif op == "odd":
                before, c0 = self.expected, self.cfg
                if not missing:
                    self.cfg = self.disk
                self.odd(s[1])
                self.settled = bool(self.late)
                if self.late:
                    # whatever was optional is over once this has arrived
                    data, exp = self.focus(SENT, "the end")
                    self.put(data)
                    for c, t, m in exp:
                        self.expect(c, t, what, m)
                    self.late = []
                elif self.expected == before:
                    self.cfg = c0
                if self.case["monitor"] == "gnome" and s[1] % 4 == 1:
                    self.lastwin = ("kitty", "a\tb")
                elif self.case["monitor"] == "gnome" and s[1] % 4 == 3:
                    self.lastwin = ("kitty", "")
                elif self.case["monitor"] == "x":
                    self.lastwin = self.last
                elif self.case["monitor"] == "wlroots" and s[1] % 4 == 0 and self.active:
                    self.lastwin = (self.h[self.active]["cls"], self.h[self.active]["title"])
                if self.settled:
                    self.lastwin = (SENT, "the end")
                seen |= self.expected > before
        time.sleep(.001)
        if not self.alive():
            raise Bad("stopped", "the mapper has ended\n" + self.log())

    def pids(self):
        """The mapper's own process (in the background it is not our child any more)."""
        if "-d" not in self.case["flags"]:
            return [self.pid]
        out = []
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if int(f[2]) == self.pid and f[0] != "Z":
                    out.append(int(p))
        return out

    def stop(self):
        if self.pid:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            end = time.time() + 5
            while time.time() < end:
                try:
                    if os.waitpid(-1, os.WNOHANG)[0] == 0:
                        time.sleep(.0005)
                except ChildProcessError:
                    break
        for s in (self.conn, getattr(self, "rec", None), getattr(self, "srv", None)):
            if s:
                s.close()
        if getattr(self, "fifo", None) is not None:
            try:
                os.close(self.fifo)
            except OSError:
                pass


def show(args):
    return " ".join(repr(a)[1:-1] if re.match(r"^[\w.=-]+$", a) else repr(a[:200]) for a in args)


def run_case(case, wait=WAIT):
    """None, or (tag, message)."""
    d = tempfile.mkdtemp(prefix="c", dir=SCRATCH)
    run = Run(json.loads(json.dumps(case)), d, wait)
    try:
        run.go()
        return None
    except Bad as e:
        return (e.tag, e.msg)
    except OSError:
        return ("desktop", traceback.format_exc() + run.log())
    finally:
        run.stop()
        shutil.rmtree(d, ignore_errors=True)


def labels(case):
    out = {case["monitor"]}
    ops = {s[0] for s in case["steps"]}
    out |= {"edit"} & ops | {"burst"} & ops | {"usr1"} & ops | {"remove"} & ops | {"second"} & ops | {"odd"} & ops
    if "-d" in case["flags"]:
        out.add("daemonized")
    multi = match = False
    for s in case["steps"]:
        if s[0] == "focus":
            w = case["wins"][s[1] % len(case["wins"])]
            n = sum(1 for sc, st, b in parse(case["config"]) if b and glob(sc, norm_class(w[0])) and glob(st, norm_title(w[1])))
            match |= n >= 1
            multi |= n >= 2
    if match:
        out.add("a section matches")
    if multi:
        out.add("several sections match")
    return out


def nontrivial(case):
    l = labels(case)
    return bool(l & {"a section matches", "edit", "burst"}) and len(case["steps"]) > 1


def doc(case):
    s = "monitor %s, flags %s, keyd takes %d ms and ends with %d%s\n" % (case["monitor"], case["flags"], case["ms"], case["rc"], ", data arrives in pieces" if case["chunks"] else "")
    s += "app.conf:\n" + "".join("  %s\n" % repr(l)[1:-1][:300] for l in case["config"])
    for i, w in enumerate(case["wins"]):
        s += "window %d: class %r title %r\n" % (i, w[0], w[1][:300])
    for i, st in enumerate(case["steps"]):
        if st[0] == "edit":
            s += "step %d: app.conf changes (%s):\n" % (i, st[2]) + "".join("  %s\n" % repr(l)[1:-1][:300] for l in st[1])
        else:
            s += "step %d: %s\n" % (i, " ".join(map(str, st)))
    return s


# ------------------------------------------------------------------ shrinking
def shrink(case, tag, seconds):
    end = time.time() + seconds

    def fails(c):
        f = run_case(c, 3)
        return f is not None and f[0] == tag

    def variants(c):
        for i in range(len(c["steps"])):
            yield dict(c, steps=c["steps"][:i] + c["steps"][i + 1:])
        for k, v in (("rc", 0), ("ms", 0), ("chunks", 0), ("flags", [])):
            if c[k] != v:
                yield dict(c, **{k: v})
        for i in range(len(c["config"])):
            if SENT not in c["config"][i]:
                yield dict(c, config=c["config"][:i] + c["config"][i + 1:])
        for i, s in enumerate(c["steps"]):
            if s[0] == "burst" and len(s[1]) > 1:
                yield dict(c, steps=c["steps"][:i] + [["burst", s[1][:-1]]] + c["steps"][i + 1:])
                yield dict(c, steps=c["steps"][:i] + [["focus", s[1][0]]] + c["steps"][i + 1:])
            if s[0] == "edit":
                for j in range(len(s[1])):
                    if SENT not in s[1][j]:
                        yield dict(c, steps=c["steps"][:i] + [[s[0], s[1][:j] + s[1][j + 1:]] + s[2:]] + c["steps"][i + 1:])
        for i, w in enumerate(c["wins"]):
            for k in (0, 1):
                for n in (len(w[k]) // 2, len(w[k]) - 1):
                    if 0 <= n < len(w[k]):
                        v = list(w)
                        v[k] = w[k][:n]
                        yield dict(c, wins=c["wins"][:i] + [v] + c["wins"][i + 1:])
        if len(c["wins"]) > 1 and not any(s[0] in ("focus", "burst") for s in c["steps"]):
            yield dict(c, wins=c["wins"][:1])
    again = True
    while again and time.time() < end:
        again = False
        for v in variants(case):
            if time.time() > end:
                break
            if fails(v):
                case, again = v, True
                break
    return case


# ------------------------------------------------------------------ driver
def worker(w, W, n, seed, deadline, out):
    libc = ctypes.CDLL(None, use_errno=True)
    libc.prctl(36, 1, 0, 0, 0)              # orphans come to us
    libc.prctl(1, 9, 0, 0, 0)               # and we go when our parent does
    i = w
    while i < n and time.time() < deadline:
        case = gen_case(seed, i)
        f = run_case(case)
        if f:
            again = run_case(case, 8)
            if again is None:
                again = run_case(case, 8)
            if again is None:
                f = ("unreproduced", f[1])
        l = json.dumps({"i": i, "labels": sorted(labels(case)), "nt": nontrivial(case), "h": hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16], "fail": f}) + "\n"
        os.write(out, l.encode())
        if f and f[0] != "unreproduced":
            break
        i += W


def main():
    global CODE, RECORDER, SCRATCH
    o = {"--tier": "quick", "--seed": "1", "--known": "", "--out": HERE + "/../out", "--evidence": "", "--replay": "", "--prop": "C32", "--part": "", "--cases": ""}
    a = sys.argv[1:]
    while a:
        if a[0] == "--show":
            print(doc(gen_case(int(o["--seed"]), int(a[1]))))
            return 0
        if a[0] not in o or len(a) < 2:
            sys.stderr.write("unknown argument %s\n" % a[0])
            return 2
        o[a[0]] = a[1]
        a = a[2:]
    known = []
    if o["--known"] and os.path.exists(o["--known"]):
        for l in open(o["--known"]):
            m = re.match(r"known: property=%s key=(\S+) ?(.*)" % o["--prop"], l)
            if m:
                known.append((m.group(1), m.group(2)))
    import argparse, fnmatch, fcntl, errno      # the script's own modules, once
    src = open(SCRIPT, encoding="utf8").read()
    try:
        CODE = compile(src, SCRIPT, "exec")
    except SyntaxError as e:
        sys.stderr.write("the script does not compile: %s\n" % e)
        return 2
    SCRATCH = tempfile.mkdtemp(prefix="verif-mapper-")
    try:
        RECORDER = SCRATCH + "/keyd"
        subprocess.run(["gcc", "-O1", "-static", HERE + "/recorder.c", "-o", RECORDER], check=True)
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
        if o["--replay"]:
            case = json.loads(open(o["--replay"]).read().split("\n--- case\n", 1)[1].split("\n--- failure", 1)[0])
            f = run_case(case)
            print(("FAILS (%s)\n%s" % f if f else "passes") + "\n--- case\n" + doc(case))
            if f:
                print("VIOLATION property=%s replay=%s" % (o["--prop"], o["--replay"]))
            return 1 if f else 0
        thorough = o["--tier"] == "thorough"
        seed, n = int(o["--seed"]), int(o["--cases"] or (60000 if thorough else 4000))
        t0 = time.time()
        deadline = t0 + (720 if thorough else 90)
        W = 8
        rd, wr = os.pipe()
        pids = []
        for w in range(W):
            p = os.fork()
            if p == 0:
                try:
                    os.close(rd)
                    worker(w, W, n, seed, deadline, wr)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            pids.append(p)
        os.close(wr)
        cases, nt, hs, lab, unrep, fails = 0, 0, set(), {}, 0, []
        with os.fdopen(rd) as f:
            for l in f:
                r = json.loads(l)
                cases += 1
                for x in r["labels"]:
                    lab[x] = lab.get(x, 0) + 1
                if r["nt"]:
                    nt += 1
                    hs.add(r["h"])
                if r["fail"]:
                    if r["fail"][0] == "unreproduced":
                        unrep += 1
                        sys.stderr.write("did not reproduce: case %d: %s\n" % (r["i"], r["fail"][1]))
                    else:
                        fails.append((r["i"], r["fail"]))
        broken = False
        for p in pids:
            broken |= os.waitpid(p, 0)[1] != 0
        rc = 0
        if fails:
            i, (tag, msg) = min(fails)
            case = shrink(gen_case(seed, i), tag, 60)
            f = run_case(case, 5) or (tag, msg)
            print("%s/desktop: %s\n%s\n--- case %d (shrunk)\n%s" % (o["--prop"], f[0], f[1], i, doc(case)))
            os.makedirs(o["--out"], exist_ok=True)
            body = json.dumps(case, indent=1)
            path = o["--out"] + "/%s-desktop-%s.replay" % (o["--prop"], hashlib.sha1(body.encode()).hexdigest()[:16])
            with open(path, "w") as fh:
                fh.write("property %s\npart desktop\nseed %d\ncase %d\n--- case\n%s\n--- failure (%s)\n%s\n" % (o["--prop"], seed, i, body, f[0], f[1]))
            print("VIOLATION property=%s replay=%s" % (o["--prop"], os.path.realpath(path)))
            rc = 1
        for k in known:
            print("KNOWN-FINDING: property=%s %s %s" % (o["--prop"], k[0], k[1]))
        wall = time.time() - t0
        if o["--evidence"]:
            os.makedirs(os.path.dirname(o["--evidence"]), exist_ok=True)
            ev = {"property": o["--prop"], "tier": o["--tier"], "seed": seed, "level": "exploration", "coverage": {
                "evaluations": cases, "distinct_nontrivial": len(hs), "nontrivial": nt, "exhaustive": False, "unreproduced_failures": unrep,
                "rule": "desktop: a random app.conf and a random sequence of focus changes, edits of the file and signals on a simulated gnome, wlroots, cosmic, KDE or X desktop; non-trivial: more than one step and a section with bindings matches a focused window, or the file is edited, or focus changes follow in quick succession",
                "parts": {"desktop": cases}, "labels": lab, "samples": [doc(gen_case(seed, i)) for i in (0, 1, 2, 3)]},
                "wall_s": round(wall, 1), "violations": len(fails)}
            with open(o["--evidence"], "w") as fh:
                json.dump(ev, fh, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %.1f s" % (o["--prop"], cases, len(hs), wall))
        if rc == 0 and (broken or cases == 0):
            sys.stderr.write("a worker failed\n")
            return 2
        return rc
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
