"""The simulated environment of one process lifetime.

The disk is a private scratch directory.  Every file toughio opens below it goes through
`SimRaw`, which the simulator makes short, slow, interrupted, failing or fatal at any
system-call-like event; buffered and text layers on top are CPython's own, with buffer
sizes the simulator picks.  The clock toughio can read is simulated, and every loop of
toughio code is counted so that an endless loop is an event and not a hung check.
"""
import builtins
import errno
import hashlib
import io
import os
import shutil
import sys
import time as _time

REAL_OPEN = io.open
FAULT_ERRNO = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "eacces": errno.EACCES,
    "emfile": errno.EMFILE,
    "estale": errno.ESTALE,
    "enoent": errno.ENOENT,
    "eread": errno.EIO,
}


LINE_KINDS = {"interrupt": KeyboardInterrupt, "nomem": MemoryError}


class SimHang(BaseException):
    """The step budget of an operation is exhausted."""


class HarnessError(Exception):
    """The harness itself is at fault; never a verdict about toughio."""


class Sim(object):
    """Environment state of the current process lifetime."""

    def __init__(self, root, knobs=None, rng=None):
        self.root = os.path.realpath(root)
        self.extra_roots = []
        self.rng = rng
        self.knobs = knobs or {}
        self.on = False
        self.events = 0  # raw I/O events so far
        self.trace = []  # [(event index, what)]
        self.keep_trace = True
        self.digest = hashlib.sha256()
        self.fired = {}
        self.fault = None  # {"at":, "kind":, ...}
        self.fault_fired = False
        self.struck_line = False
        self.crash_hook = None
        self.handles = []
        self.written_paths = set()
        self.opened_paths = []
        self.eof_reads = 0
        self.lines = 0  # lines of toughio code run while lines are counted
        self.places = None  # {(code, line): indices of its first runs} while they are listed
        # steps
        self.jumps = 0
        self.budget = None
        # clock
        self.clock0 = self.knobs.get("clock0", 1.6e9)
        self.clock_step = self.knobs.get("clock_step", 1.0)
        self.clock_now = self.clock0
        self.clock_reads = 0
        self.clock_jumps = self.knobs.get("clock_jumps") or []
        self.sched = None

    # -- log -----------------------------------------------------------------------
    def log(self, what, *args):
        s = what + " " + " ".join(str(a) for a in args)
        self.digest.update(s.encode("utf-8", "replace") + b"\n")
        if self.keep_trace and len(self.trace) < 4000:
            self.trace.append("{:5d} {}".format(self.events, s))

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # -- steps ---------------------------------------------------------------------
    def start_budget(self, n):
        self.jumps = 0
        self.eof_reads = 0
        self.budget = n

    def stop_budget(self):
        self.budget = None

    # -- events --------------------------------------------------------------------
    def rel(self, path):
        for e in self.extra_roots:
            if str(path).startswith(e + os.sep):
                return "<toughio>/" + os.path.relpath(path, e)
        try:
            return os.path.relpath(path, self.root)
        except ValueError:
            return str(path)

    def event(self, op, raw, n=0, eintr=True):
        """Called before a raw I/O step; may raise the planned fault.

        Returns the number of bytes to transfer (short transfers) for reads and writes.
        """
        if self.sched is not None and op in ("open-r", "open-w", "read", "write", "meta"):
            self.sched.io(op, raw._sim_path if raw is not None else "-")
        k = self.events
        self.events += 1
        name = self.rel(raw._sim_path) if raw is not None else "-"
        f = self.fault
        if f is not None and "line" not in f and k >= f["at"] and (not self.fault_fired or f.get("persist")):
            if f["kind"] in LINE_KINDS:
                if f["after"] or not op.startswith("open") and (f["kind"] == "nomem" or op not in ("read", "write")):
                    f["line"] = self.lines + max(1, f["after"])
                else:
                    self.strike(f, op + " " + name.replace(":", "_"))
            elif self._applies(f, op):
                return self._inject(f, op, raw, n, name, k)
        kn = self.knobs
        if op in ("read", "write") and n > 0 and self.rng is not None:
            if kn.get("eintr") and self.rng.random() < kn["eintr"] and eintr:
                self.fire("eintr-" + op)
                self.log("EINTR", op, name)
                raise InterruptedError(errno.EINTR, "Interrupted system call (simulated)")
            if kn.get("short") and n > 1 and self.rng.random() < kn["short"]:
                m = 1 + self.rng.randrange(n - 1) if self.rng.random() < 0.7 else 1
                self.fire("short-" + op)
                self.log(op, name, "{}/{}".format(m, n))
                return m
        self.log(op, name, n)
        return n

    def strike(self, f, where):
        """Ctrl-C or a failing allocation, between two lines of toughio or inside an I/O step."""
        f["line"] = None
        self.fault_fired = True
        self.struck_line = ":" in where
        self.fire(f["kind"] + "@" + ("line" if ":" in where else where.split(" ")[0]))
        self.log("FAULT", f["kind"], where)
        raise LINE_KINDS[f["kind"]]("(simulated)")

    def _applies(self, f, op):
        kind = f["kind"]
        if kind in ("crash", "powercut"):
            return True
        if kind == "enospc":
            return op in ("open-w", "write", "close-w", "meta")
        if kind in ("eacces", "emfile", "enoent"):
            return op in ("open-r", "open-w", "meta")
        if kind == "eread":
            return op in ("open-r", "read")
        if kind == "estale":
            return op in ("open-r", "read")
        return op not in ("close-r",)  # eio

    def _inject(self, f, op, raw, n, name, k):
        kind = f["kind"]
        self.fault_fired = True
        self.fire(kind + "@" + op)
        self.log("FAULT", kind, op, name, n)
        if kind in ("crash", "powercut"):
            if op == "write" and n > 0:
                m = int(n * f.get("frac", 0.5))
                raw._real_write_part(m)
            self.crash_hook(kind)
            raise HarnessError("crash hook returned")
        if op == "write" and n > 1 and f.get("frac", 0) > 0 and not f.get("_part"):
            # a short write first, the error strikes the rest
            m = int(n * f["frac"])
            if 0 < m < n:
                f["_part"] = True
                self.fault_fired = False
                f["at"] = k + 1
                self.fired[kind + "@" + op] -= 1
                return m
        if op == "close-w":
            raw._real_close()
        raise OSError(FAULT_ERRNO[kind], os.strerror(FAULT_ERRNO[kind]) + " (simulated)",
                      raw._sim_path if raw is not None else None)

    # -- clock ---------------------------------------------------------------------
    def now(self):
        self.clock_reads += 1
        self.clock_now += self.clock_step
        for at, delta in self.clock_jumps:
            if at == self.clock_reads:
                self.clock_now += delta
                self.fire("clock-jump")
        self.fire("clock-read")
        self.log("clock", repr(self.clock_now))
        return self.clock_now

    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        r = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if r == self.root or r.startswith(self.root + os.sep):
            return r
        for e in self.extra_roots:
            if r.startswith(e + os.sep):
                return r
        return None


CUR = None  # the Sim of this process, or None


class SimRaw(io.FileIO):
    """A raw file whose every step is an event of the simulator."""

    def __init__(self, path, mode, sim, opener=None, closefd=True, sim_path=None):
        self._sim = sim
        self._sim_path = sim_path or (path if isinstance(path, str) else str(path))
        self._sim_w = any(c in mode for c in "wax+")
        self._sim_closed = False
        self._pending = None
        self._sim_open = False
        self._sim_eintr = True
        if sim.on:
            rec = _fds.pop(path, None) if isinstance(path, int) else None
            if rec is not None:  # opened by os.open before
                rec.closed = True
            else:
                sim.event("open-w" if self._sim_w else "open-r", self)
            if self._sim_w:
                sim.written_paths.add(self._sim_path)
            sim.opened_paths.append((self._sim_path, "w" if self._sim_w else "r"))
        super().__init__(path, mode.replace("t", ""), closefd=closefd, opener=opener)
        self._sim_open = True
        if sim.on:
            sim.handles.append(self)

    # FileIO.readall and FileIO.read bypass readinto
    def readinto(self, b):
        sim = self._sim
        if not sim.on:
            return super().readinto(b)
        mv = memoryview(b).cast("B")
        n = sim.event("read", self, len(mv), self._sim_eintr)
        r = super().readinto(mv[:n])
        if r == 0:
            sim.eof_reads += 1
            if sim.budget is not None and sim.eof_reads > 20000:
                raise SimHang("endless reads at end of file of " + sim.rel(self._sim_path))
        return r

    def read(self, size=-1):
        if not self._sim.on:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n]) if n is not None else None

    def readall(self):
        if not self._sim.on:
            return super().readall()
        out = bytearray()
        b = bytearray(8192)
        while True:
            try:
                n = self.readinto(b)
            except InterruptedError:
                continue
            if not n:
                break
            out += b[:n]
        return bytes(out)

    def write(self, b):
        sim = self._sim
        if not sim.on:
            return super().write(b)
        mv = memoryview(b).cast("B")
        self._pending = mv
        n = sim.event("write", self, len(mv), self._sim_eintr)
        self._pending = None
        return super().write(mv[:n])

    def _real_write_part(self, m):
        if self._pending is not None and m > 0:
            super().write(self._pending[:m])

    def _real_close(self):
        self._sim_closed = True
        super().close()

    def close(self):
        if self._sim_closed or self.closed:
            self._sim_closed = True
            return super().close()
        sim = self._sim
        if sim.on and self._sim_open:
            self._sim_closed = True
            try:
                sim.event("close-w" if self._sim_w else "close-r", self)
            finally:
                super().close()
            return
        self._sim_closed = True
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    sim = CUR
    if sim is None or not sim.on or not isinstance(mode, str):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        try:
            target = os.readlink("/proc/self/fd/%d" % file)
        except OSError:
            target = None
        path = sim.owns(target) if target else None
    else:
        path = sim.owns(file)
    if path is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)

    binary = "b" in mode
    # same argument checks as the real open
    kinds = [c for c in mode if c in "rwxa"]
    if (len(kinds) != 1 or set(mode) - set("rwxab+tU") or len(set(mode)) != len(mode)
            or (binary and "t" in mode)
            or (binary and not (encoding is None and errors is None and newline is None))
            or (not binary and buffering == 0)):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)

    raw = SimRaw(file, "".join(c for c in mode if c in "rwxa+"), sim, opener=opener,
                 closefd=closefd, sim_path=path)
    try:
        line_buffering = False
        if buffering == 0:
            raw._sim_eintr = False  # the system call is retried by Python itself
            return raw
        if buffering == 1 and not binary:
            line_buffering = True
        size = buffering if buffering > 1 else sim.knobs.get("buf") or io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif kinds[0] in "wxa":
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, io.text_encoding(encoding) if False else encoding,
                                errors, newline, line_buffering)
        if sim.knobs.get("chunk"):
            text._CHUNK_SIZE = sim.knobs["chunk"]
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


_META = {}


def _meta(name, npaths):
    real = getattr(os, name)
    _META[name] = real

    def wrapper(*args, **kwargs):
        sim = CUR
        if sim is not None and sim.on:
            paths = [sim.owns(a) for a in args[:npaths] if not isinstance(a, int)]
            paths = [p for p in paths if p]
            if paths:
                class R(object):
                    _sim_path = paths[-1]

                    def _real_close(self):
                        pass

                sim.event("meta", R())
                sim.written_paths.update(paths)
        return real(*args, **kwargs)

    wrapper.__name__ = name
    return wrapper


# -- file descriptors (os.open and friends) ------------------------------------------------
_fds = {}  # descriptors of simulated files opened by os.open


class _Fd(object):
    """What the simulator keeps of a descriptor opened by os.open."""

    def __init__(self, fd, path, w):
        self.fd, self._sim_path, self._sim_w, self.closed = fd, path, w, False
        self._pending = None

    def _real_write_part(self, m):
        if self._pending is not None and m > 0:
            _OS["write"](self.fd, self._pending[:m])

    def _real_close(self):
        self.closed = True
        _OS["close"](self.fd)


_OS = {k: getattr(os, k) for k in ("open", "read", "write", "close", "fsync", "fdatasync", "ftruncate", "getpid", "urandom")}


def _active():
    return CUR is not None and CUR.on


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = CUR.owns(path) if _active() and dir_fd is None else None
    if p is None or flags & os.O_DIRECTORY:
        return _OS["open"](path, flags, mode, dir_fd=dir_fd)
    sim = CUR
    rec = _Fd(-1, p, bool(flags & (os.O_WRONLY | os.O_RDWR)))
    sim.event("open-w" if rec._sim_w else "open-r", rec)
    rec.fd = _OS["open"](path, flags, mode)
    if rec._sim_w:
        sim.written_paths.add(p)
    sim.opened_paths.append((p, "w" if rec._sim_w else "r"))
    sim.handles.append(rec)
    _fds[rec.fd] = rec
    return rec.fd


def _os_read(fd, n):
    rec = _fds.get(fd) if _active() else None
    return _OS["read"](fd, CUR.event("read", rec, n, False) if rec else n)


def _os_write(fd, data):
    rec = _fds.get(fd) if _active() else None
    if rec is None:
        return _OS["write"](fd, data)
    rec._pending = memoryview(data).cast("B")
    n = CUR.event("write", rec, len(rec._pending), False)
    part, rec._pending = rec._pending[:n], None
    return _OS["write"](fd, part)


def _os_close(fd):
    rec = _fds.pop(fd, None) if _active() else None
    if rec is None:
        return _OS["close"](fd)
    try:
        CUR.event("close-w" if rec._sim_w else "close-r", rec)
    finally:
        if not rec.closed:
            rec._real_close()


def _os_sync(name):
    def wrapper(fd, *args):
        if _active():
            n = fd if isinstance(fd, int) else fd.fileno()
            rec = _fds.get(n)
            if rec is None:
                for h in CUR.handles:
                    if isinstance(h, SimRaw) and not h.closed and h.fileno() == n:
                        rec = h
            if rec is not None:
                CUR.event("sync", rec)
        return _OS[name](fd, *args)

    wrapper.__name__ = name
    return wrapper


def _seed_process(sim):
    """Every source of randomness of a simulated process follows from its seed."""
    import random
    import tempfile

    s = "{}/{}".format(sim.knobs.get("seed", 0), sim.knobs.get("process", 0))
    r = random.Random(s)
    random.seed(s + "r")
    if "numpy" in sys.modules:
        sys.modules["numpy"].random.seed(r.randrange(2 ** 32))
    _PROC["pid"] = r.randrange(300, 4000000)
    _PROC["rng"] = r
    tempfile._name_sequence = iter("".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(8)) for _ in iter(int, 1))


_PROC = {}


def _install_h5():
    """Opening an HDF5 file and every transfer of a data set are I/O steps too."""
    import h5py

    def step(op, path, n):
        p = CUR.owns(path) if _active() and path else None
        if p is None:
            return None

        class R(object):
            _sim_path = p

            def _real_write_part(self, m):
                pass

            def _real_close(self):
                pass

        CUR.event(op, R(), n, False)
        return p

    def wrap(cls, name, before):
        real = getattr(cls, name)

        def wrapper(self, *args, **kwargs):
            before(self, *args, **kwargs)
            return real(self, *args, **kwargs)

        wrapper.__name__ = name
        setattr(cls, name, wrapper)

    def opening(self, name, mode="r", *args, **kwargs):
        if isinstance(name, (str, bytes, os.PathLike)):
            w = mode not in (None, "r")
            p = step("open-w" if w else "open-r", name, 0)
            if p and w:
                CUR.written_paths.add(p)

    wrap(h5py.File, "__init__", opening)
    wrap(h5py.Dataset, "__getitem__", lambda self, *a, **k: step("read", self.file.filename, 0))
    wrap(h5py.Group, "create_dataset", lambda self, *a, **k: step("write", self.file.filename, 0))


def install():
    """Put the simulator behind every seam (done once, before forking)."""
    import datetime as _dt

    os.open, os.read, os.write, os.close = _os_open, _os_read, _os_write, _os_close
    for name in ("fsync", "fdatasync", "ftruncate"):
        setattr(os, name, _os_sync(name))
    os.getpid = lambda: _PROC["pid"] if _active() else _OS["getpid"]()
    os.urandom = lambda n: _PROC["rng"].randbytes(n) if _active() else _OS["urandom"](n)

    class datetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CUR.now(), tz) if _active() else super().now(tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CUR.now(), _dt.timezone.utc).replace(tzinfo=None) if _active() else super().utcnow()

    class date(_dt.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(CUR.now()) if _active() else super().today()

    _dt.datetime, _dt.date = datetime, date
    builtins.open = sim_open
    io.open = sim_open
    shutil._USE_CP_SENDFILE = False
    for name, n in (("replace", 2), ("rename", 2), ("remove", 1), ("unlink", 1),
                    ("truncate", 1), ("link", 2), ("symlink", 2)):
        setattr(os, name, _meta(name, n))
    real = {k: getattr(_time, k) for k in ("time", "ctime", "localtime", "gmtime", "strftime",
                                           "asctime", "time_ns")}

    def on():
        return CUR is not None and CUR.on

    _time.time = lambda: CUR.now() if on() else real["time"]()
    _time.time_ns = lambda: int(CUR.now() * 1e9) if on() else real["time_ns"]()
    _time.ctime = lambda secs=None: real["ctime"](CUR.now() if secs is None and on() else secs)
    _time.localtime = lambda secs=None: real["localtime"](
        CUR.now() if secs is None and on() else secs)
    _time.gmtime = lambda secs=None: real["gmtime"](CUR.now() if secs is None and on() else secs)
    _time.asctime = lambda t=None: real["asctime"](
        *([real["localtime"](CUR.now())] if t is None and on() else [] if t is None else [t]))
    _time.strftime = lambda fmt, t=None: real["strftime"](
        fmt, *([real["localtime"](CUR.now())] if t is None and on() else [] if t is None else [t]))


REAL_TIME = _time.time
PERF = _time.perf_counter


# -- step counting and thread switching: sys.monitoring on toughio's own code -------------
TOOL = 3
_codes = []


def _walk_code(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _walk_code(c, seen)


def toughio_codes(pkg_dir):
    """All code objects compiled from toughio's files that are reachable from its modules."""
    import gc
    import types

    seen = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(pkg_dir):
            _walk_code(o.__code__, seen)
    return seen


def _on_jump(code, src, dst):
    sim = CUR
    if sim is not None and sim.budget is not None:
        sim.jumps += 1
        if sim.jumps > sim.budget:
            sim.budget = None
            raise SimHang("endless loop in {} ({})".format(
                code.co_name, os.path.basename(code.co_filename)))


def _on_line(code, line):
    sim = CUR
    if sim is None:
        return
    if sim.sched is not None:
        sim.sched.point(code, line)
    elif sim.on:
        sim.lines += 1
        if sim.places is not None:
            runs = sim.places.setdefault((code, line), [])
            if len(runs) < 3:
                runs.append(sim.lines)
        f = sim.fault
        if f is not None and f.get("line") is not None and sim.lines >= f["line"]:
            sim.strike(f, "{}:{}".format(code.co_name, line))


def install_monitoring(pkg_dir, delegated=()):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "dsim")
    mon.register_callback(TOOL, mon.events.JUMP, _on_jump)
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    codes = toughio_codes(pkg_dir)
    _codes.extend(codes)
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.JUMP)
    for d in delegated:
        _delegated.extend(toughio_codes(d))
    return len(codes)


_delegated = []  # code of the libraries toughio delegates formats to
_lines_on = None


def enable_lines(on=True, delegated=False):
    """Report every line of toughio (and of the libraries it delegates formats to)."""
    global _lines_on
    if (on, delegated) == _lines_on:
        return
    mon = sys.monitoring
    ev = mon.events.JUMP | (mon.events.LINE if on else 0)
    for c in _codes:
        mon.set_local_events(TOOL, c, ev)
    if delegated or _lines_on and _lines_on[1]:
        for c in _delegated:
            mon.set_local_events(TOOL, c, mon.events.LINE if on and delegated else 0)
    _lines_on = on, delegated
