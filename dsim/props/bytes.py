"""C15: the bytes written depend only on the data.

The same write is made in two to four simulated environments that differ in the clock, the random numbers and process id, buffer and
chunk sizes, short and interrupted writes, user and machine, numpy's print options, current directory, form of the path, earlier content of
the destination and earlier calls, and in a second interpreter with another PYTHONHASHSEED and
address layout; all destination files must agree to the byte.
"""
import os
import sys
import time

import numpy as np

from ..ops import meshes, pool, series
from ..ops.base import rread, rwrite
from ..run import Violation, attempt, draw_knobs, sha
from .history import junk

COMPANION = True
RULE = ("one case = one simulated run: one write in 2-4 environments of this interpreter and one of another interpreter; "
        "non-trivial if the write wrote at least one file; distinct by the digest of the complete event log")
COVER = "(kind of write and format, path form, clock)"

TOOLS = [x for x in pool.TOOLS]


def draw_env(d, k):
    return {"knobs": draw_knobs(d, calm=0.1), "form": d.pick(["abs", "cwd", "dot", "up", "link"]),
            "dir": d.pick(["a", "b c", "deep/er/dir", "X" * 40]), "junk": d.raw(2 ** 16) if d.bool(0.4) else None,
            "twice": d.bool(0.3),
            "user": d.pick([None, "alice", "bob", "wanda"]),
            "print": d.pick([None, None, {"precision": 3}, {"suppress": True, "linewidth": 20}, {"threshold": 4, "edgeitems": 1},
                             {"sign": "+", "floatmode": "fixed"}])}


def live_in(e):
    """The user, machine and settings of an environment (in the process of the write)."""
    import platform
    import socket

    u = e["user"]
    if u:
        for k in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            os.environ[k] = u
        os.environ["HOME"] = "/home/" + u
        os.environ["HOSTNAME"] = os.environ["COMPUTERNAME"] = u + "-pc"
        os.environ["TZ"] = {"alice": "UTC", "bob": "Asia/Tokyo", "wanda": "America/Lima"}[u]
        os.environ["LANG"] = os.environ["LC_ALL"] = {"alice": "C", "bob": "fr_FR.UTF-8", "wanda": "de_DE"}[u]
        os.environ["COLUMNS"] = str(40 + 20 * len(u))
        time.tzset()
        socket.gethostname = platform.node = lambda: u + "-pc"
        real = os.uname()
        os.uname = lambda: os.uname_result((real[0], u + "-pc") + tuple(real[2:]))
        os.getlogin = lambda: u
        sys.argv[:] = [u + ".py"]
    if e["print"]:
        np.set_printoptions(**e["print"])


def run(ctx):
    d = ctx.d
    op = pool.draw_op(d, pool.WRITES, TOOLS, pool.DELEGATED)
    before = pool.draw_op(d, pool.WRITES, pool.READS) if d.bool(0.3) else None
    envs = [draw_env(d, k) for k in range(d.weighted([(4, 2), (2, 3), (1, 4)]))]
    ctx.say(op.describe())
    for e in envs:
        ctx.say("  environment: {}".format(e))
    info = {"ops": [op.kind], "cover": [], "nontrivial": False}
    me = ctx.companion == "self"
    results = []
    for k, e in enumerate(envs):
        if me and k:
            break
        root = ctx.mkdir("e{}/{}".format(k, e["dir"]))

        def body(sim, tell, e=e, root=root, k=k):
            os.chdir(os.path.join(ctx.root, "cwd"))
            live_in(e)
            if e["form"] == "abs":
                op.dir = root
            elif e["form"] == "cwd":
                os.chdir(root)
                op.dir = ""
            elif e["form"] == "dot":
                os.chdir(root)
                op.dir = "."
            elif e["form"] == "up":
                op.dir = os.path.relpath(root)
            else:
                link = os.path.join(ctx.root, "link{}".format(k))
                os.symlink(root, link)
                op.dir = link
            if before is not None and k == 1:
                before.dir = ctx.mkdir("before")
                attempt(sim, before)
            for x in range(2 if e["twice"] else 1):
                if e["junk"] is not None and x == 0:
                    for y in op.dests:
                        rwrite(op.p(y), junk(e["junk"]))
                o = attempt(sim, op)
            files = {}
            for y in op.dests:
                b = rread(op.p(y))
                if b is not None and hasattr(op, "canon_bytes"):
                    b = op.canon_bytes(b)
                files[y] = b
            tell((o.kind if o.kind == "ok" else "{} {}".format(o.kind, o.exc_type), files))

        # another interpreter also has another process id and other random numbers
        (msg,), _ = ctx.process(body, dict(e["knobs"], process=int(me)), "environment {}".format(k + 1))
        results.append(msg)
    if me:
        return {"result": (results[0][0], {y: sha(b) for y, b in results[0][1].items()})}
    for k in range(1, len(results)):
        check(op, results[0], results[k], "environment {}".format(k + 1))
    if ctx.companion is not None:
        other = ctx.companion.ask({"choices": list(d.rec), "tier": ctx.tier})["result"]
        mine = (results[0][0], {y: sha(b) for y, b in results[0][1].items()})
        if other != mine:
            raise Violation("C15 {} interpreter".format(op.kind),
                            "{}: another interpreter (other PYTHONHASHSEED) wrote other bytes: {} != {}".format(
                                op.describe(), mine, other))
        ctx.probe("compared with another interpreter")
    info["nontrivial"] = results[0][0] == "ok" and any(b is not None for b in results[0][1].values())
    for e in envs:
        info["cover"].append((op.kind + " " + str(getattr(op, "fmt", "")), e["form"], str(e["knobs"].get("clock0"))))
    return info


def check(op, a, b, where):
    if a[0] != b[0]:
        raise Violation("C15 {} outcome".format(op.kind), "{}: {} in environment 1, {} in {}".format(
            op.describe(), a[0], b[0], where))
    for y in a[1]:
        p, q = a[1][y], b[1][y]
        if p == q:
            continue
        if p is None or q is None:
            raise Violation("C15 {} missing".format(op.kind), "{}: file {} exists in only one of environment 1 and {}".format(
                op.describe(), y, where))
        k = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
        raise Violation("C15 {} bytes".format(op.kind), "{}: {} differs between environment 1 and {} at byte {}: {!r} != {!r}".format(
            op.describe(), y, where, k, p[max(0, k - 30):k + 40], q[max(0, k - 30):k + 40]))
