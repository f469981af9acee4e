"""Runs the mnemonikey command the way a person would: on a terminal, one line at a time.

Everything happens in a scratch directory per history.  A worker process is the leader of its own session; every run
gets a fresh pseudo-terminal as controlling terminal and standard input.  Before each item is typed the driver waits
until the command is quiescent (every thread asleep, nothing unread on the terminal) and notes the terminal mode, so
that observations do not depend on timing.
"""
import datetime, errno, fcntl, hashlib, multiprocessing, os, re, resource, select, signal, stat, struct, sys, tempfile, termios, time, traceback

TIOCINQ = 0x541B
FLOOD = 4 << 20      # bytes of output after which a run counts as one that does not end
HANG = 20.0          # seconds of activity without reaching quiescence
ANSI = re.compile(rb"\x1b(?:\[[0-9;]*[A-Za-z]|[78])")
SHOWN = re.compile(rb"^\s*(\d+):\s*([^\s]+)\s*$")


def tty_mode(fd):
    l = termios.tcgetattr(fd)[3]
    if not l & termios.ICANON:
        return "raw"
    return "cooked" if l & termios.ECHO else "secret"


def inq(fd):
    return struct.unpack("i", fcntl.ioctl(fd, TIOCINQ, b"\0\0\0\0"))[0]


def read_file(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""


class Threads:
    """What the threads of a process are doing."""
    def __init__(self, pid):
        self.pid = pid

    def tids(self):
        try:
            return os.listdir("/proc/%d/task" % self.pid)
        except OSError:
            return []

    def asleep(self):
        for t in self.tids():
            s = read_file("/proc/%d/task/%s/stat" % (self.pid, t))
            i = s.rfind(b")")
            if i > 0 and s[i + 2:i + 3] not in b"SZX":
                return False
        return True

    def held(self):
        """Threads the tracer holds."""
        out = set()
        for t in self.tids():
            s = read_file("/proc/%d/task/%s/stat" % (self.pid, t))
            i = s.rfind(b")")
            if i > 0 and s[i + 2:i + 3] in b"tT":
                out.add(t)
        return out

    def switches(self):
        out = {}
        for t in self.tids():
            m = re.search(rb"^voluntary_ctxt_switches:\s*(\d+)", read_file("/proc/%d/task/%s/status" % (self.pid, t)), re.M)
            if m:
                out[t] = int(m.group(1))
        return out

    def readers(self):
        """Threads blocked in read(0, ...)."""
        out = []
        for t in self.tids():
            f = read_file("/proc/%d/task/%s/syscall" % (self.pid, t)).split()
            if len(f) > 1 and f[0] == b"0" and f[1] in (b"0x0", b"0"):
                out.append(t)
        return out


class Proc:
    """One run of the command."""
    def __init__(self, binary, argv, cwd, stdin="tty", stdout="pipe", win=(24, 80), env=None, fsize=None, feed=b"", term=None, tracer=(), held=None, pieces=()):
        self.binary, self.started = os.path.realpath(binary), False
        self.on_held, self.held_since = held, {}
        self.t0 = time.time()
        self.out, self.err, self.tty = b"", b"", b""
        self.status = None
        self.master, self.slave = os.openpty()
        fcntl.ioctl(self.slave, termios.TIOCSWINSZ, struct.pack("HHHH", win[0], win[1], 0, 0))
        fcntl.ioctl(self.slave, termios.TIOCSCTTY, 0)
        if term:
            a = termios.tcgetattr(self.slave)
            term(a)
            termios.tcsetattr(self.slave, termios.TCSANOW, a)
        self.initial = termios.tcgetattr(self.slave)
        er, ew = os.pipe()
        self.er = er
        self.orr, self.pipe_w = None, None
        if stdout in ("pipe", "block", "broken"):
            orr, ow = os.pipe()
            self.orr = orr
            if stdout == "block":
                fcntl.fcntl(ow, fcntl.F_SETPIPE_SZ, 4096)
                os.set_blocking(ow, False)
                try:
                    while True:
                        os.write(ow, b"\0" * 4096)
                except BlockingIOError:
                    pass
                os.set_blocking(ow, True)
            elif stdout == "broken":
                os.close(orr)
                self.orr = None
        elif stdout == "term":
            # another terminal, which passes everything on unchanged
            self.orr, ow = os.openpty()
            a = termios.tcgetattr(ow)
            a[1] &= ~termios.OPOST
            termios.tcsetattr(ow, termios.TCSANOW, a)
        elif stdout == "full":
            ow = os.open("/dev/full", os.O_WRONLY)
        self.blocked = stdout == "block"
        self.tr, tw = os.pipe() if tracer else (None, None)
        self.log = b""
        gr, gw = os.pipe()
        ir = iw = None
        if stdin == "pipe":
            ir, iw = os.pipe()
        elif stdin == "null":
            ir = os.open("/dev/null", os.O_RDONLY)
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(gw)
                os.read(gr, 1)
                for s in (signal.SIGTTOU, signal.SIGTTIN, signal.SIGHUP, signal.SIGINT, signal.SIGPIPE):
                    signal.signal(s, signal.SIG_DFL)
                os.dup2(self.slave if ir is None else ir, 0)
                os.dup2(ow, 1)
                os.dup2(ew, 2)
                if tw is not None:
                    os.dup2(tw, 3)                  # the tracer's log
                os.closerange(3 if tw is None else 4, 256)
                os.chdir(cwd)
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if fsize is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
                av = [os.ttyname(0) if x == "@tty" else x for x in tracer] + [binary] + list(argv)
                os.execve(av[0], av, env)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
            os._exit(126)
        self.pid = pid
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.tcsetpgrp(self.slave, pid)
        os.close(gw)
        os.close(gr)
        for fd in (ow, ew, ir, tw):
            if fd is not None:
                os.close(fd)
        self.th = Threads(pid)
        for fd in (self.master, self.er, self.orr, self.tr):
            if fd is not None:
                os.set_blocking(fd, False)
        if iw is not None:
            # small inputs only: a pipe holds 64 KB
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            try:
                for i in range(len(pieces) + 1):
                    if i:
                        time.sleep(0.03)            # what comes through a pipe need not come at once
                    os.write(iw, feed[pieces[i - 1] if i else 0:pieces[i] if i < len(pieces) else None])
            except BrokenPipeError:
                pass
            os.close(iw)

    def drain(self):
        for fd, name in ((self.master, "tty"), (self.er, "err"), (None if self.blocked else self.orr, "out"), (self.tr, "log")):
            for _ in range(64 if fd is not None else 0):
                try:
                    b = os.read(fd, 65536)
                except BlockingIOError:
                    break
                except OSError as e:
                    if e.errno == errno.EIO:
                        break
                    raise
                if not b:
                    break
                if len(getattr(self, name)) < FLOOD:
                    setattr(self, name, getattr(self, name) + b)

    def exited(self):
        if self.status is None:
            p, s = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.status = s
        return self.status is not None

    def quiet(self, samples=3, limit=HANG):
        """Waits until the command exits ('exited'), waits for something ('idle') or works on for too long ('hung')."""
        end = time.time() + limit
        n = 0
        last = None
        while time.time() < end:
            self.drain()
            if self.exited():
                self.drain()
                return "exited"
            if max(len(self.out), len(self.err), len(self.tty)) >= FLOOD:
                return "hung"
            if self.on_held:
                self.watch_held()
            if not self.started:
                try:
                    self.started = os.readlink("/proc/%d/exe" % self.pid) == self.binary
                except OSError:
                    pass
            if self.started and self.th.asleep():
                sw = self.th.switches()
                n = n + 1 if sw == last or last is None else 1
                last = sw
                # something unread on the terminal: it is on its way, or the command is not interested
                if n >= samples and (inq(self.slave) == 0 or n >= 500):
                    return "idle"
                time.sleep(0.002)
            else:
                n, last = 0, None
                time.sleep(0.0005)
        return "hung"

    def watch_held(self):
        """Calls the hook once a thread has been held for a while."""
        now = time.time()
        held = self.th.held()
        self.held_since = {t: self.held_since.get(t, now) for t in held}
        if any(now - x > 0.06 for x in self.held_since.values()):
            f, self.on_held = self.on_held, None
            f()

    def type(self, data):
        """Types bytes and waits until the command has noticed."""
        readers = self.th.readers()
        before = self.th.switches()
        os.write(self.master, data)
        end = time.time() + 2.0
        while time.time() < end:
            self.drain()
            if self.exited() or max(len(self.err), len(self.tty)) >= FLOOD:
                return
            now = self.th.switches()
            if readers:
                if any(now.get(t) != before.get(t) for t in readers):
                    return
            elif sum(now.values()) != sum(before.values()):
                return
            time.sleep(0.0003)

    def kill(self):
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            _, self.status = os.waitpid(self.pid, 0)

    def close(self):
        self.kill()
        self.drain()
        end = time.time() + 10
        while self.tr is not None and time.time() < end:
            # the tracer has finished when its log ends
            if select.select([self.tr], [], [], 0.2)[0]:
                b = os.read(self.tr, 65536)
                if not b:
                    break
                self.log += b
        restored = True
        try:
            restored = termios.tcgetattr(self.slave) == self.initial
        except termios.error:
            restored = False
        try:
            fcntl.ioctl(self.slave, termios.TIOCNOTTY)
        except OSError:
            pass
        for fd in (self.master, self.slave, self.er, self.orr, self.tr):
            if fd is not None:
                os.close(fd)
        return restored


def shown_words(err):
    """The numbered words on the terminal: 1: alpha, 2: beta, ..."""
    out = []
    for line in ANSI.sub(b"", err).replace(b"\r", b"\n").split(b"\n"):
        m = SHOWN.match(line)
        if m and int(m.group(1)) == len(out) + 1:
            out.append(m.group(2).decode("latin-1"))
        elif m and int(m.group(1)) == 1:
            out = [m.group(2).decode("latin-1")]
    return out


RECORD_TEXT = []         # the word list, when what is shown is to be recorded as well


def looks(err, tty, out, words):
    """What the terminal and standard error showed, in pieces the specification can judge."""
    text = ANSI.sub(b"", err) + b"\n" + ANSI.sub(b"", tty)
    t = text.decode("latin-1")
    index = {w: i for i, w in enumerate(words)}
    fp = re.compile(r"(?<![0-9A-Za-z])[0-9A-Fa-f]{40}(?![0-9A-Za-z])")
    labelled, times, facts = [], [], {"version": "", "encrypted": ""}
    for l in t.replace("\r", "\n").split("\n"):
        f = fp.findall(l)
        n = [x for x in ("master", "encryption", "authentication", "signing") if x in l.lower()]
        if len(f) == 1 and len(n) == 1:
            labelled.append({"label": n[0], "fp": f[0].lower()})
        m = re.match(r"^\s*(version|encrypted)\s*[:=]\s*(\w+)\s*$", l, re.I)
        if m:
            facts[m.group(1).lower()] = m.group(2).lower()
    for m in re.findall(r"\d{4,}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(?:Z|[+-]\d\d:\d\d)", t):
        try:
            d = datetime.datetime.fromisoformat(m.replace("Z", "+00:00"))
            times.append(int(d.timestamp()).to_bytes(8, "big", signed=True).hex())
        except ValueError:
            times.append("nonsense")
    leak = any(len(x) >= 20 and x in text for x in out.split(b"\n"))
    offered = sorted(set(re.findall(r"^\s*--?([a-z][a-z-]*)", t.replace("\r", "\n"), re.M)))
    return {"text": text.hex(), "offered": offered, "listed": sorted({index[w] for w in re.findall("[a-z]+", t.lower()) if w in index}),
            "prints": sorted({x.lower() for x in fp.findall(t)}), "labelled": labelled, "times": sorted(set(times)), "facts": facts, "outleak": leak}


def calls(log, root, out):
    """What a traced run did to the world outside: programs started, sockets, files opened for writing."""
    res = []
    near = os.path.realpath(os.path.join(root, os.path.dirname(out))) if out else None
    execs = 0
    for l in log.decode("latin-1").split("\n"):
        m = re.match(r"^(?:\d+\s+)?(\w+)\((.*)$", l)
        if not m:
            continue
        call, rest = m.groups()
        if call in ("execve", "execveat"):
            execs += 1
            if execs > 1:
                res.append({"what": "exec", "path": rest[:80], "near": False})
        elif call in ("socket", "connect", "sendto", "bind"):
            res.append({"what": "net", "path": rest[:80], "near": False})
        else:
            paths = re.findall(r'"((?:[^"\\]|\\.)*)"', rest)
            if call in ("open", "openat", "openat2") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_TMPFILE", rest):
                continue
            for x in paths[-1:]:
                p = os.path.realpath(os.path.join(root, os.path.dirname(x))) if not x.startswith("/dev/") else None
                if p is None:
                    continue
                res.append({"what": "write", "path": x, "near": p == near})
    return res


def content(b):
    return b.hex() if len(b) <= 200000 else "sha256:" + hashlib.sha256(b).hexdigest()


def snapshot(root):
    out = []
    for d, ds, fs in os.walk(root):
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = l1(os.path.relpath(p, root))
            if stat.S_ISLNK(st.st_mode):
                out.append({"path": rel, "kind": "link", "hex": os.readlink(p).encode().hex(), "open": False})
            elif stat.S_ISDIR(st.st_mode):
                out.append({"path": rel, "kind": "dir", "hex": "", "open": False})
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out.append({"path": rel, "kind": "file", "hex": content(f.read()), "open": bool(st.st_mode & 0o077)})
            else:
                out.append({"path": rel, "kind": "other", "hex": "", "open": False})
    return sorted(out, key=lambda x: x["path"])


HUNG = multiprocessing.get_context("fork").Value("i", 0)


class Stopped(Exception):
    """The run did not end: the history is over, and after many of them so is the recording."""


class History:
    """A history of runs in one scratch directory; records events for the specification."""
    def __init__(self, ident, binary, rng, base):
        self.id, self.binary, self.rng = ident, binary, rng
        self.ev = []
        self.root = tempfile.mkdtemp(prefix="h-", dir=base)
        self.last = None

    def put(self, path, data=b"", kind="file", perm=0o644):
        p = os.path.join(self.root, path)
        if kind == "file":
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, perm)
        elif kind == "dir":
            os.mkdir(p)
        elif kind == "link":
            os.symlink(data, p)
        self.ev.append({"op": "put", "files": snapshot(self.root)})

    def run(self, cmd, opts=None, typed=(), argv=None, stdin="tty", stdout="pipe", win=(24, 80), fsize=None, env=None, trace=None):
        """opts: option name -> value (str, or True/False for switches). typed: items."""
        opts = dict(opts or {})
        if argv is None:
            argv = [cmd] + flags(opts, self.rng)
        typed = [dict(i) for i in typed]
        e = {"PATH": "/usr/bin:/bin", "HOME": self.root, "TERM": "xterm", "TMPDIR": self.root}
        for x in self.rng.sample(sorted(SURROUNDINGS), 4):
            e[x] = self.root if SURROUNDINGS[x] == "@" else SURROUNDINGS[x]
        if self.rng.random() < 0.5:
            e["TZ"] = self.rng.choice(["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Nowhere/Land"])
        e.update(env or {})
        feed = b"".join(bytes.fromhex(i["hex"]) + (b"\n" if i["t"] == "line" else b"") for i in typed if i["t"] in ("line", "keys"))
        pieces = sorted(self.rng.randrange(len(feed)) for _ in range(self.rng.randrange(4))) if stdin == "pipe" and feed else ()
        lo = int(time.time()) - 1672531200
        tracer, held, racer = (), None, {"won": "none", "hex": ""}
        if trace:
            tracer = strace(trace, self.root)
            if trace["kind"] == "race":
                def held():
                    # another process gets there while the command is held at the system call
                    try:
                        f = os.open(os.path.join(self.root, trace["path"]), os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o644)
                    except OSError:
                        racer["won"] = "lost"
                        return
                    os.write(f, trace["data"])
                    os.fchmod(f, 0o644)
                    os.close(f)
                    racer.update(won="won", hex=trace["data"].hex())
        p = Proc(self.binary, argv, self.root, stdin=stdin, stdout=stdout, win=win, fsize=fsize, env=e, feed=feed, tracer=tracer, held=held, pieces=pieces)
        modes, echo = [], []
        exit_ = None
        try:
            st = p.quiet()
            if stdin == "tty":
                todo, typed = typed, []
                for it in todo:
                    if st == "hung":
                        break
                    if it["t"] == "pause":
                        time.sleep(it["s"])
                        continue
                    if it["t"] == "keys" and st != "exited" and tty_mode(p.slave) != "raw":
                        continue                    # single keys are only pressed where single keys are asked for
                    typed.append(it)
                    if st == "exited":
                        modes.append("gone")
                        echo.append("")
                        continue
                    modes.append(tty_mode(p.slave) if not it.get("hasty") else "gone")
                    mark = len(p.tty)
                    if it["t"] == "touch":
                        with open(os.path.join(self.root, it["path"]), "wb") as f:
                            f.write(bytes.fromhex(it["hex"]))
                            os.fchmod(f.fileno(), 0o644)
                        echo.append("")
                        continue
                    data = {"line": lambda: bytes.fromhex(it["hex"]) + b"\r", "keys": lambda: bytes.fromhex(it["hex"]),
                            "int": lambda: b"\x03", "eof": lambda: b"\x04"}[it["t"]]()
                    if it.get("hasty"):
                        time.sleep(it["hasty"])     # typed at once, whatever the command is doing
                    p.type(data)
                    st = p.quiet() if not it.get("nowait") else "idle"
                    echo.append(p.tty[mark:].hex())
            if st == "idle":
                st = p.quiet(samples=8)
            end = time.time() + 6
            while trace and trace["kind"] == "slow" and st == "idle" and time.time() < end:
                time.sleep(0.1)                     # the tracer's pauses are not the command's
                st = p.quiet(samples=8)
            if st == "exited":
                exit_ = "ok" if p.status == 0 else "fail"
            else:
                exit_ = {"idle": "waiting", "hung": "hung"}[st]
            files = snapshot(self.root)
        finally:
            restored = p.close()
        hi = int(time.time()) - 1672531200
        fault, crash = "disk" if fsize is not None else "none", False
        if trace:
            if trace["kind"] == "fault" and b"INJECTED" in p.log:
                fault = trace["fault"]
            crash = trace["kind"] == "crash" and exit_ == "fail" and os.WIFSIGNALED(p.status) and os.WTERMSIG(p.status) == signal.SIGKILL
        words = shown_words(p.err)
        r = {"exit": exit_, "modes": modes, "echo": echo, "out": p.out.hex() if len(p.out) <= 65536 else "ff", "words": words,
             "restored": restored, "said": ANSI.sub(b"", p.err).strip() != b"", "signalled": exit_ == "fail" and os.WIFSIGNALED(p.status), "files": files, "lo": lo, "hi": hi}
        if RECORD_TEXT:
            r.update(looks(p.err, p.tty, p.out, RECORD_TEXT))
            r["calls"] = calls(p.log, self.root, opts.get("out-word-file", "")) if trace and trace["kind"] == "watch" else []
        self.ev.append({"op": "run", "cmd": cmd, "argv": [hx(a) for a in argv], "stdin": stdin, "stdout": stdout, "fault": fault,
                        "feed": feed.hex() if stdin == "pipe" else "", "racer": racer["won"], "racerhex": racer["hex"], "crash": crash,
                        "typed": [{"t": i["t"], "hex": i.get("hex", ""), "path": l1(i.get("path", ""))} for i in typed], "r": r,
                        "line": argv, "err": p.err.decode("latin-1")[-600:].encode("ascii", "backslashreplace").decode()})
        self.last, self.out = r, opts.get("out-word-file", "")
        if exit_ == "hung":
            with HUNG.get_lock():
                HUNG.value += 1
            raise Stopped()
        return r

    def done(self):
        outs = sorted({x for e in self.ev if e["op"] == "run" for a in e["line"] for x in (a, a.partition("=")[2])})
        return {"id": self.id, "ev": self.ev, "dirs": [{"path": l1(o), "dir": l1(os.path.dirname(o))} for o in outs]}


WATCHED = "execve,execveat,socket,connect,sendto,bind,open,openat,openat2,creat,mkdir,mkdirat,mknod,mknodat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,truncate,memfd_create"
FILECALLS = "openat,open,creat,newfstatat,statx,faccessat,faccessat2,write,pwrite64,writev,close,fsync,fdatasync,rename,renameat,renameat2,link,linkat,symlinkat,unlink,unlinkat,fchmod,chmod,fchmodat,ftruncate,fcntl"


def strace(trace, root):
    """The tracer's command line. kinds: race (hold the k-th call that concerns the path), crash (kill at the k-th call), fault (let calls fail)."""
    a = ["/usr/bin/strace", "-DD", "-f", "-o", "/dev/fd/3"]
    if trace.get("path"):
        a += ["-P", trace["path"]] + (["-P", os.path.join(root, trace["path"])] if trace["path"] != "@tty" else [])
    if trace["kind"] == "watch":
        return a + ["-e", "trace=" + WATCHED, "-e", "signal=none", "--"]
    if trace["kind"] == "slow":
        return a + ["-e", "trace=" + trace["calls"], "-e", "signal=none", "-e", "inject=%s:delay_enter=%d" % (trace["calls"], trace["delay"]), "--"]
    calls = trace.get("calls", FILECALLS)
    when = ":when=%s" % trace["when"] if "when" in trace else ""
    what = {"race": "delay_enter=350000", "crash": "signal=KILL", "fault": "error=" + trace.get("error", "")}[trace["kind"]]
    return a + ["-e", "trace=" + calls, "-e", "signal=none", "-e", "inject=%s:%s%s" % (calls, what, when), "--"]


def can_trace():
    """Whether the tracer works here."""
    import subprocess
    try:
        r = subprocess.run(["/usr/bin/strace", "-DD", "-f", "-o", "/dev/null", "-e", "trace=write", "/bin/true"], capture_output=True, timeout=20)
        return r.returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False


# what else a command may find in its environment
SURROUNDINGS = {"XDG_STATE_HOME": "@", "XDG_CACHE_HOME": "@", "XDG_CONFIG_HOME": "@", "XDG_RUNTIME_DIR": "@", "XDG_DATA_HOME": "@", "DEBUG": "1", "VERBOSE": "1", "NO_COLOR": "1",
                "GNUPGHOME": "@", "LANG": "tr_TR.UTF-8", "LC_ALL": "C", "COLUMNS": "40", "LINES": "3", "CI": "true", "EDITOR": "false", "MNEMONIKEY_DEBUG": "1"}
SWITCHES = {"encrypt-keys", "encrypt-phrase", "simple", "verbose", "self-cert"}


def flags(opts, rng):
    """Options as arguments, in one of the spellings the flag package knows."""
    items = list(opts.items())
    rng.shuffle(items)
    out = []
    for k, v in items:
        dash = rng.choice(["-", "--"])
        if k in SWITCHES:
            if v is True and rng.random() < 0.8:
                out.append(dash + k)
            else:
                out.append("%s%s=%s" % (dash, k, rng.choice(["true", "1", "T"]) if v else rng.choice(["false", "0", "F"])))
        elif rng.random() < 0.5:
            out.append("%s%s=%s" % (dash, k, v))
        else:
            out += [dash + k, v]
    return out


def l1(path):
    """A path as the specification has it: a character per byte."""
    return os.fsencode(path).decode("latin-1")


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


def line(s):
    return {"t": "line", "hex": hx(s)}


def keys(s):
    return {"t": "keys", "hex": hx(s)}


def pause(s):
    return {"t": "pause", "s": s}


INT = {"t": "int"}
EOF = {"t": "eof"}


def touch(path, data):
    return {"t": "touch", "path": path, "hex": hx(data)}


# ------------------------------------------------------------------ worker pool

def _worker_init():
    os.setsid()
    for s in (signal.SIGTTOU, signal.SIGTTIN, signal.SIGHUP, signal.SIGINT, signal.SIGPIPE):
        signal.signal(s, signal.SIG_IGN)


def _one(job):
    f, ident, binary, seed, base, args = job
    import random, shutil
    h = History(ident, binary, random.Random("%s/%s" % (seed, ident)), base)
    try:
        if HUNG.value < 12:
            f(h, *args)
        return h.done()
    except Stopped:
        return h.done()
    except BaseException:
        return {"id": ident, "error": traceback.format_exc(), "ev": h.ev}
    finally:
        shutil.rmtree(h.root, ignore_errors=True)


def play(jobs, binary, seed, base, workers=8):
    """jobs: (scenario, ident, args). Returns the recorded histories, in order."""
    HUNG.value = 0
    mp = multiprocessing.get_context("fork")
    with mp.Pool(workers, initializer=_worker_init) as pool:
        return pool.map(_one, [(f, i, binary, seed, base, a) for f, i, a in jobs], chunksize=1)
