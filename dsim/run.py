"""Running scenarios: simulated processes, fault placement, one run = one forked child."""
import gc
import hashlib
import io
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import core
from .core import HarnessError, Sim, SimHang
from .draw import Draw
from .ops.base import Op, deep, exc_key, first_diff, rread, rwrite, short

REAL_UNLINK = os.unlink  # rebound by install() users through core._META when patched


class Violation(Exception):
    """A property does not hold; carries its class (for minimisation) and its text."""

    def __init__(self, cls, message):
        Exception.__init__(self, message)
        self.cls = cls
        self.message = message


# -- framed pickles over a pipe -------------------------------------------------------------
def send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv(fd, deadline=None):
    def exact(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - core.PERF()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out

    h = exact(8)
    if h is None:
        return None
    return pickle.loads(exact(struct.unpack("<Q", h)[0]))


def fork_call(fn, on_message=None, timeout=None, group=False):
    """Run fn(send) in a forked child; returns the list of messages it sent."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if group:
                os.setpgid(0, 0)
            fn(lambda m: send(w, m))
            code = 0
        except HarnessError:
            try:
                send(w, ("harness", traceback.format_exc()))
            except Exception:
                pass
        except BaseException:
            try:
                send(w, ("harness", traceback.format_exc()))
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    out = []
    deadline = None if timeout is None else core.PERF() + timeout
    try:
        while True:
            m = recv(r, deadline)
            if m is None:
                break
            out.append(m)
            if on_message:
                on_message(m)
    except TimeoutError:
        try:
            os.killpg(pid, signal.SIGKILL) if group else os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        raise HarnessError("wall-clock limit of {} s".format(timeout))
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    for m in out:
        if isinstance(m, tuple) and m and m[0] == "harness":
            raise HarnessError(m[1])
    if status != 0:
        raise HarnessError("child process ended with status {}".format(status))
    return out


# -- directories ----------------------------------------------------------------------------
def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = b"->" + os.readlink(p).encode()
                continue
            out[os.path.relpath(p, root)] = rread(p)
    return out


def restore(root, snap):
    now = snapshot(root)
    for k in now:
        if k not in snap:
            core._META.get("unlink", os.unlink)(os.path.join(root, k))
    for k, v in snap.items():
        if now.get(k) != v:
            os.makedirs(os.path.dirname(os.path.join(root, k)), exist_ok=True)
            rwrite(os.path.join(root, k), v)


def sha(data):
    return None if data is None else hashlib.sha256(data).hexdigest()[:16]


# -- attempts ---------------------------------------------------------------------------------
class Outcome(object):
    """What a call did."""

    def __init__(self):
        self.kind = "ok"  # ok, raised, hang
        self.value = None
        self.exc = None
        self.exc_type = None
        self.stop = False
        self.leaks = []
        self.events = 0
        self.lines = 0
        self.fault_fired = False
        self.written = ()
        self.steps = 0

    def key(self):
        return self.kind if self.kind == "ok" else "{} {}".format(self.kind, self.exc)


BUDGET = 50000000


def scrub(text, sim):
    return text.replace(sim.root, "<root>")


def attempt(sim, op, fault=None, call=None, budget=BUDGET, setup=True):
    """Make the call of op under the simulator."""
    o = Outcome()
    if setup:
        do_setup(sim, op)
    sim.handles = []
    sim.written_paths = set()
    sim.fault = dict(fault, at=fault["at"] + sim.events) if fault else None
    sim.lines = 0
    if fault and fault["kind"] in core.LINE_KINDS:
        core.enable_lines(True, True)
    sim.fault_fired = False
    start = sim.events
    op.prepare()
    sim.log("call", scrub(op.describe(), sim))
    sim.start_budget(budget)
    sim.on = True
    try:
        o.value = (call or op.call)()
        o.leaks = [sim.rel(h._sim_path) for h in sim.handles if not h.closed]
    except SimHang as e:
        o.kind, o.exc = "hang", str(e)
    except HarnessError:
        raise
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        sim.stop_budget()
        o.leaks = [sim.rel(h._sim_path) for h in sim.handles if not h.closed]
        o.kind, o.exc, o.exc_type = "raised", scrub(exc_key(e), sim), type(e).__name__
        o.stop = isinstance(e, StopIteration) or (
            isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration))
        e.__traceback__ = None
        e.__context__ = None
        e.__cause__ = None
        del e
    finally:
        sim.on = False
        o.steps = sim.jumps
        sim.stop_budget()
        o.fault_fired = sim.fault_fired
        sim.fault = None
    o.events = sim.events - start
    o.lines = sim.lines
    if fault and fault["kind"] in core.LINE_KINDS and o.fault_fired and sim.struck_line:
        # between a file's opening and the statement that guards it nothing can close it (and CPython loses the
        # reference when a line callback raises on leaving a with statement)
        o.leaks = []
    o.written = tuple(sorted(sim.rel(p) for p in sim.written_paths))
    sim.handles = []
    gc.collect()
    sim.log("outcome", o.key())
    return o


def verify(sim, op, value, budget=BUDGET):
    """None or what is wrong with the result of an acknowledged call."""
    sim.fault = None
    sim.start_budget(budget)
    sim.on = True
    try:
        bad = op.verify(value)
    except SimHang as e:
        bad = "reading the result back: " + str(e)
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        bad = "reading the result back raised " + scrub(exc_key(e), sim) + where(e)
    finally:
        sim.on = False
        sim.stop_budget()
        sim.handles = []
    sim.log("verify", "ok" if not bad else "BAD")
    return bad


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " at " + "; ".join("{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb[-3:]) if tb else ""


def do_setup(sim, op):
    """Another process prepares the sources of op."""
    if type(op).setup is Op.setup:
        return
    if getattr(op, "setup_pure", False):
        op.setup()
    else:
        def child(snd):
            core.CUR = None
            op.setup()

        fork_call(child)


class Count(int):
    """Number of I/O steps of a call; `lines` is that of the lines of code it runs, `places` the different ones."""

    lines = 0
    places = ()


def count_events(sim, op, root, faults=(), setup=True):
    """Number of I/O steps of the call, from a dry run that leaves no trace."""
    if setup:
        do_setup(sim, op)
    snap = snapshot(root)

    lines = any(f and f["kind"] in core.LINE_KINDS for f in faults)

    def child(snd):
        if lines:
            core.enable_lines(True, True)
            sim.places = {}
        o = attempt(sim, op, setup=False)
        snd(("n", o.events, o.lines, list((sim.places or {}).values())))

    m = fork_call(child)[-1]
    restore(root, snap)
    n = Count(m[1])
    n.lines = m[2]
    n.places = m[3]
    return n


# -- drawing knobs and faults --------------------------------------------------------------------
def draw_knobs(d, calm=0.3):
    if d.bool(calm):
        return {"seed": d.raw(2 ** 31)}
    return {
        "buf": d.weighted([(4, None), (4, 8192), (6, 4096), (6, 512), (6, 1000), (4, 64), (2, 17), (1, 1)]),
        "chunk": d.weighted([(6, None), (6, 8192), (6, 1024), (6, 64), (2, 7), (1, 1)]),
        "short": d.weighted([(4, 0), (3, 0.05), (2, 0.3), (1, 0.9)]),
        "eintr": d.weighted([(5, 0), (3, 0.05), (1, 0.3)]),
        "clock0": d.pick([1.6e9, 0.0, 4.0e9, -1e6]),
        "clock_step": d.pick([1.0, 0.0, 1e-6, 86400.0, -3600.0]),
        "seed": d.raw(2 ** 31),
    }


IO_ERRORS = ["eio", "eio", "enospc", "eacces", "emfile", "estale", "enoent"]
ERRORS = IO_ERRORS + ["interrupt", "nomem"]


def draw_fault(d, kinds=ERRORS):
    """A fault whose place is a fraction of the I/O steps of the call."""
    f = {"kind": d.pick(kinds)}
    f["place"] = d.weighted([(3, "uniform"), (1, "first"), (2, "last"), (1, "end")])
    f["u"] = d.raw(10 ** 6)
    f["frac"] = d.pick([0.5, 0.0, 0.99, 0.1])
    f["persist"] = d.bool(0.3)
    if f["kind"] == "powercut":
        f["residue"] = d.pick(["old", "prefix", "zero", "asis", "hole"])
        f["cut"] = d.raw(10 ** 6)
    if f["kind"] in core.LINE_KINDS:
        f["persist"] = False
        f["near"] = d.bool(0.4)
        f["after"] = d.pick([0, 0, 1, 2, 3, 5, 9])
        f["any"] = d.bool(0.6)
    return f


def place_fault(f, n):
    """The fault with its index among n I/O steps (or the lines of toughio's code)."""
    lines = f["kind"] in core.LINE_KINDS and not (f["near"] and n > 0) and getattr(n, "lines", 0)
    steps = n
    n = lines or n
    if n <= 0:
        return None
    p = f["place"]
    k = {"first": 0, "last": n - 1, "end": max(0, n - 1 - f["u"] % 4)}.get(p, f["u"] % n)
    if lines and f["any"] and steps.places:
        # every statement of the code is as likely as any other, however often it runs
        runs = steps.places[f["u"] % len(steps.places)]
        k = runs[f["u"] // len(steps.places) % len(runs)] - 1
    g = {x: f[x] for x in ("kind", "frac", "persist")}
    g["at"] = k
    g["n"] = steps
    if f["kind"] in core.LINE_KINDS:
        g["after"] = f["after"]
        if lines:
            g["at"] = 0
            g["line"] = k + 1
    return g


def show_fault(f):
    if not f:
        return ""
    line = f["kind"] in core.LINE_KINDS
    return " with {} at {} of its {}{}{}{}".format(
        f["kind"], f["place"] if f["place"] != "uniform" and not (line and f["any"] and not f["near"]) else "{:.3f}".format(f["u"] / 1e6),
        ("statements" if f["any"] else "lines") if line and not f["near"] else "I/O steps", " (and {} lines)".format(f["after"]) if line and f["near"] else "",
        ", again and again" if f["persist"] else "",
        ", residue " + f["residue"] if "residue" in f else "")


def residue(f, path, old):
    """What a power loss leaves of a file in flight."""
    new = rread(path)
    if new is None:
        return
    how = f.get("residue", "asis")
    if how == "old":
        if old is None:
            core._META.get("unlink", os.unlink)(path)
        else:
            rwrite(path, old)
    elif new:
        k = f["cut"] % (len(new) + 1)
        if how == "prefix":
            rwrite(path, new[:k])
        elif how == "zero":
            rwrite(path, new[:k] + b"\0" * (len(new) - k))
        elif how == "hole":
            m = min(len(new), k + 64)
            rwrite(path, new[:k] + b"\0" * (m - k) + new[m:])


# -- a run -----------------------------------------------------------------------------------------
class Ctx(object):
    """State of one run (in its own process)."""

    def __init__(self, prop, d, root, tier):
        self.prop, self.d, self.root, self.tier = prop, d, root, tier
        self.plan = []  # the scenario in words
        self.trace = []
        self.fired = {}
        self.probes = {}
        self.hash = hashlib.sha256()
        self.sim_time = 0.0
        self.companion = None

    def say(self, s):
        self.plan.append(s)

    def note(self, s):
        self.hash.update(s.encode("utf-8", "replace") + b"\n")
        if len(self.trace) < 3000:
            self.trace.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def mkdir(self, name):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p

    def process(self, body, knobs, name="process"):
        """A simulated process: body(sim, tell) in a forked child.

        Returns (messages, crashed).  `tell` sends a message that survives a crash.
        """
        self.note("-- {} knobs {}".format(name, {k: v for k, v in knobs.items() if v}))

        def child(snd):
            sim = Sim(self.root, knobs, random.Random(knobs.get("seed", 0)))
            sim.extra_roots = [os.path.join(core.PACKAGE, "data")]
            core.CUR = sim
            core._seed_process(sim)

            def finish(crashed):
                snd(("end", {
                    "crashed": crashed, "digest": sim.digest.hexdigest(), "trace": sim.trace,
                    "fired": sim.fired, "clock": sim.clock_now - sim.clock0,
                    "clock_reads": sim.clock_reads, "events": sim.events,
                    "in_flight": sorted(sim.rel(p) for p in sim.written_paths),
                }))

            def crash(kind):
                sim.on = False
                finish(kind)
                os._exit(0)

            sim.crash_hook = crash
            try:
                body(sim, lambda m: snd(("m", m)))
            except Violation as v:
                sim.on = False
                snd(("violation", (v.cls, v.message)))
            sim.on = False
            core.CUR = None
            finish(None)

        msgs = fork_call(child)
        out, crashed = [], None
        viol = None
        for k, m in msgs:
            if k == "m":
                out.append(m)
            elif k == "violation":
                viol = m
            elif k == "end":
                crashed = m["crashed"]
                self.hash.update(m["digest"].encode())
                self.trace += m["trace"][: 3000 - len(self.trace)] if len(self.trace) < 3000 else []
                for f, c in m["fired"].items():
                    self.fired[f] = self.fired.get(f, 0) + c
                self.probe("io-steps", m["events"])
                self.sim_time += abs(m["clock"])
                self.in_flight = m["in_flight"]
                break
        else:
            raise HarnessError("a simulated process ended without a report")
        if crashed:
            self.note("-- {} {}".format(name, "killed" if crashed == "crash" else "lost power"))
        if viol:
            raise Violation(*viol)
        return out, crashed


def execute(prop, module, choices, seed, root, tier, companion=None):
    """Body of one run; returns the result as a dict."""
    d = Draw(seed=seed) if choices is None else Draw(choices=choices)
    ctx = Ctx(prop, d, root, tier)
    ctx.companion = companion
    res = {"violation": None}
    try:
        res["info"] = module.run(ctx) or {}
    except Violation as v:
        res["violation"] = {"class": v.cls, "message": v.message.replace(root, "<root>")}
        res["info"] = {}
    res.update(choices=d.rec, plan=ctx.plan, fired=ctx.fired, probes=ctx.probes, sim_time=ctx.sim_time,
               trace=ctx.trace)
    ctx.note("result " + repr(res["violation"]))
    res["digest"] = ctx.hash.hexdigest()
    return res


def run_once(prop, module, scratch, tag, choices=None, seed=None, tier="quick", companion=None, timeout=150):
    """One run in its own process and scratch directory."""
    root = os.path.join(scratch, "r{}".format(tag))
    os.makedirs(root)

    def child(snd):
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 1)
        os.dup2(null, 2)
        gc.disable()
        cwd = os.path.join(root, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        snd(("result", execute(prop, module, choices, seed, root, tier, companion)))

    try:
        return fork_call(child, timeout=timeout, group=True)[-1][1]
    finally:
        wipe(root)


def wipe(path):
    unlink, _ = core._META.get("unlink", os.unlink), None
    for base, dirs, files in os.walk(path, topdown=False):
        for f in files:
            unlink(os.path.join(base, f))
        for x in dirs:
            q = os.path.join(base, x)
            if os.path.islink(q):
                unlink(q)
            else:
                os.rmdir(q)
    os.rmdir(path)
