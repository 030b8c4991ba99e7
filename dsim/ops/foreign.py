"""Files written by other programs: TOUGH decks and mesh files in the dialects the formats allow.

A stub of a foreign program renders generated data in a drawn style (number forms of Fortran edit
descriptors, justification, padding, order of the blocks, comments, identifiers that are neither
contiguous nor sorted, ...); toughio reads the file and must return what it says.
"""
import json
import struct

import numpy as np

from . import inputs, meshes, results
from .base import Op, close_e, rwrite
from .inputs import Mismatch, check_json, check_tough, gen_params, jsonable

HEADS = ["----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8", "-" * 60, "", " ", "     1   *    2   *    3"]


# -- numbers -----------------------------------------------------------------------------------
def forms(v, p):
    """Texts of v in the forms Fortran programs and people write, with at least p decimals of the mantissa."""
    out = []
    for q in sorted({p, p + 1, p + 3, 15}):
        m, e = "{:.{}e}".format(v, q).split("e")
        e = int(e)
        neg, m1 = ("-", m[1:]) if m[0] == "-" else ("", m)
        short = m1.rstrip("0")  # 1.5, 2.
        for mm in (m1, short):
            out += [neg + mm + x.format(e) for x in ("E{:+03d}", "e{:+03d}", "D{:+03d}", "d{:+03d}", "E{:d}", "D{:d}", "{:+d}",
                                                     "{:+03d}", "{:+04d}")]
        z = (m1.replace(".", "")).rstrip("0") or "0"
        out += [neg + "0." + z + x.format(e + 1) for x in ("E{:+03d}", "D{:+03d}", "{:+04d}")]
        out += [neg + "." + z + x.format(e + 1) for x in ("E{:+03d}", "D{:+d}")]
    if v == 0.0:
        out = ["0.0", "0.", ".0", "0.E+00", "0.D0", "0.000E+00", "0.0+0"]
    elif 1e-4 <= abs(v) < 1e7:
        for q in (0, 1, 2, 4, 6, 8):
            t = "{:.{}f}".format(v, q)
            t = t if "." in t else t + "."
            out += [t, t.replace("0.", ".", 1) if t.lstrip("-").startswith("0.") and len(t.lstrip("-")) > 2 else t]
            out.append(t.rstrip("0"))
    if v >= 0:
        out += ["+" + t for t in out[:8]]
    return out


FORM = __import__("re").compile(r"^([+-]?(?:\d+\.\d*|\.\d+))(?:[eEdD]([+-]?\d+)|([+-]\d+))?$")


def value(text):
    """What a Fortran program reads."""
    m = FORM.match(text)
    return float("{}e{}".format(m.group(1), m.group(2) or m.group(3) or 0))


class Style(object):
    def __init__(self, d):
        self.d = d
        self.plain = d.bool(0.2)  # like toughio itself
        self.left = d.raw(3)  # 0 right, 1 left, 2 anywhere
        self.head = d.pick(HEADS)
        self.pad = d.pick([80, 0, 80, 100])
        self.blank = d.pick(["", " " * 80, "     "])
        self.eol = "\n" if d.bool(0.8) else "\r\n"
        self.filler = d.bool(0.4)
        self.cache = {}

    def just(self, t, w, left=None):
        m = self.left if left is None else left
        if m == 2:
            m = self.d.raw(3)
            if m == 2:
                k = (w - len(t)) // 2
                return (" " * k + t).ljust(w)
        return t.ljust(w) if m == 1 else t.rjust(w)

    def f(self, v, w, p):
        """A number in a field of w characters; at least p digits after the first."""
        if v is None:
            return " " * w
        v = float(v)
        if self.plain:
            return "{:{}.{}e}".format(v, w, p)
        ok = [t for t in dict.fromkeys(forms(v, p)) if len(t) <= w and close_e(value(t), v, p)]
        return self.just(self.d.pick(ok), w) if ok else "{:{}.{}e}".format(v, w, p)

    def i(self, v, w, left=None):
        return " " * w if v is None else self.just(str(int(v)), w, left)

    def line(self, *fields):
        s = "".join(fields)
        s = s.ljust(self.pad) if self.pad else s.rstrip()
        return s


def table(st, vals, w, p, ncol):
    vals = list(vals)
    return [st.line(*[st.f(v, w, p) for v in vals[k:k + ncol]]) for k in range(0, len(vals), ncol)]


def model(st, m, iw=5, gap=5):
    if m is None:
        return st.line("")
    return st.line(st.i(m["id"], iw), " " * gap, *[st.f(v, 10, 3) for v in list(m["parameters"])])


# -- TOUGH input ----------------------------------------------------------------------------------
def deck(d, P, gens, L, block, st):
    """Text of a TOUGH deck holding P."""
    rocks = P.get("rocks", {})
    order = list(P["rocks_order"]) if P.get("rocks_order") is not None else list(rocks)
    order += [r for r in rocks if r not in order]
    default = P.get("default", {})
    B = []  # (name, lines)

    def three(v):
        return [v] * 3 if np.ndim(v) == 0 else list(v)

    if block == "all":
        if order:
            out = []
            for r in order:
                x = rocks[r]
                two = [x.get(k) for k in inputs.ROCK2]
                rp, cp = x.get("relative_permeability"), x.get("capillarity")
                nad = 2 if rp is not None or cp is not None else 1 if any(v is not None for v in two) else d.pick([None, 0, 1])
                if nad == 2:
                    nad = d.pick([2, 2, 3])
                out.append(st.line(r.ljust(5), st.i(nad, 5), st.f(x.get("density"), 10, 4), st.f(x.get("porosity"), 10, 4),
                                   *([st.f(v, 10, 4) for v in three(x.get("permeability"))] + [
                                       st.f(x.get("conductivity"), 10, 4), st.f(x.get("specific_heat"), 10, 4)])))
                if nad:
                    out.append(st.line(*[st.f(v, 10, 4) for v in two]))
                if nad and nad > 1:
                    out += [model(st, rp), model(st, cp)]
            B.append(("ROCKS", out + [st.blank]))
        rp, cp = default.get("relative_permeability"), default.get("capillarity")
        if rp is not None or cp is not None:
            B.append(("RPCAP", [model(st, rp), model(st, cp)]))
        if P.get("flac") is not None:
            f = P["flac"]
            out = [st.line(st.i(1 if f.get("creep") else d.pick([0, None]), 5), st.i(f.get("porosity_model"), 5),
                           st.i(f.get("version"), 5))]
            for r in order:
                out.append(model(st, rocks[r].get("permeability_model", {"id": 1, "parameters": []}), 10, 0))
                out.append(model(st, rocks[r].get("equivalent_pore_pressure", {"id": 3, "parameters": []})))
            B.append(("FLAC", out + ([st.blank] if d.bool(0.5) else [])))
        if P.get("eos") or (P.get("n_component") and P.get("n_phase")):
            nk, _, nph = inputs.EOS[P["eos"]] if P.get("eos") else (0, 0, 0)
            nk, nph = P.get("n_component") or nk, P.get("n_phase") or nph
            B.append(("MULTI", [st.line(st.i(nk, 5), st.i(nk if P.get("isothermal") else nk + 1, 5), st.i(nph, 5),
                                        st.i(d.pick([6, 8]), 5), st.i(P.get("n_component_mass"), 5))]))
        if P.get("solver"):
            s = {"method": 3, "z_precond": "Z0", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1.0e-6}
            s.update(P["solver"])
            B.append(("SOLVR", [st.line(str(s["method"]), "  ", s["z_precond"], "   ", s["o_precond"],
                                        st.f(s["rel_iter_max"], 10, 4), st.f(s["eps"], 10, 4))]))
        if P.get("start", True):
            B.append(("START", ["----*----1 MOP: 123456789*123456789*1234"] if d.bool(0.4) else []))
        o = P.get("options", {})
        ic = list(default.get("initial_condition") or [])
        if o or P.get("extra_options") or ic or d.bool(0.3):
            mop = "".join(str((P.get("extra_options") or {}).get(k, " ")) for k in range(1, 25))
            out = [st.line(*([st.i(o.get(k), w) for k, w in (("n_iteration", 2), ("verbosity", 2), ("n_cycle", 4), ("n_second", 4),
                                                             ("n_cycle_print", 4))] + [
                mop, " " * 10, st.f(o.get("temperature_dependence_gas"), 10, 4), st.f(o.get("effective_strength_vapor"), 10, 4)]))]
            ts = o.get("t_steps")
            ts = [] if ts is None else [ts] if np.ndim(ts) == 0 else list(ts)
            rows = []
            if not ts:
                delten = " " * 10
            elif len(ts) == 1 and ts[0] > 0.0 and d.bool(0.5):
                delten = st.f(ts[0], 10, 4)
            else:
                rows = table(st, ts, 10, 4, 8)
                delten = st.just(d.pick(["-{}.", "-{}.0", "-{}"]).format(len(rows)), 10)
            out.append(st.line(st.f(o.get("t_ini"), 10, 4), st.f(o.get("t_max"), 10, 4), delten, st.f(o.get("t_step_max"), 10, 4),
                               " " * 10, st.f(o.get("gravity"), 10, 4), st.f(o.get("t_reduce_factor"), 10, 4),
                               st.f(o.get("mesh_scale_factor"), 10, 4)))
            out += rows
            out.append(st.line(st.f(o.get("eps1"), 10, 4), st.f(o.get("eps2"), 10, 4), " " * 10, st.f(o.get("w_upstream"), 10, 4),
                               st.f(o.get("w_newton"), 10, 4), st.f(o.get("derivative_factor"), 10, 4)))
            out.append(st.line(*[st.f(v, 20, 13) for v in ic[:4]]))
            if len(ic) > 4:
                out.append(st.line(*[st.f(v, 20, 13) for v in ic[4:]]))
            B.append(("PARAM", out))
        s = P.get("selections")
        if s:
            fl = s.get("floats")
            rows = [] if fl is None or not len(fl) else [list(r) for r in fl] if np.ndim(fl[0]) == 1 else [list(fl)]
            n = dict(s.get("integers") or {})
            n[1] = len(rows) if rows else None
            B.append(("SELEC", [st.line(*[st.i(n.get(k), 5) for k in range(1, 17)])] + [
                st.line(*[st.f(v, 10, 3) for v in r]) for r in rows]))
        if any(x is not None for r in rocks.values() for x in (r.get("initial_condition") or [])):
            out = []
            for r in order:
                v = rocks[r].get("initial_condition")
                if v is not None and any(x is not None for x in v):
                    out.append(st.line(r.ljust(5)))
                    out.append(st.line(*[st.f(x, 20, 13) for x in v[:4]]))
                    if len(v) > 4:
                        out.append(st.line(*[st.f(x, 20, 13) for x in v[4:]]))
            B.append(("INDOM", out + [st.blank]))
        if P.get("more_options"):
            B.append(("MOMOP", [st.line("".join(str(P["more_options"].get(k, " ")) for k in range(1, 41)))]))
        if P.get("times") is not None:
            t = [P["times"]] if np.ndim(P["times"]) == 0 else list(P["times"])
            B.append(("TIMES", [st.line(st.i(len(t), 5), st.i(d.pick([None, len(t)]), 5))] + table(st, t, 10, 4, 8)))
        for kw, key in (("FOFT ", "element_history"), ("COFT ", "connection_history"), ("GOFT ", "generator_history")):
            if P.get(key) is not None:
                B.append((kw, [st.line(str(x)) for x in P[key]] + [st.blank]))
        if P.get("diffusion") is not None:
            B.append(("DIFFU", [st.line(*[st.f(v, 10, 3) for v in r]) for r in P["diffusion"]] + ([st.blank] if d.bool(0.5) else [])))
        o = P.get("output")
        if o:
            out = []
            if o.get("format") or d.bool(0.5):
                out.append(st.line(" " * d.pick([0, 0, 2]) + (o.get("format") or "")))
            if o.get("variables") is not None:
                rows = []
                for k, v in o["variables"].items():
                    if v is None or np.ndim(v) == 0:
                        vs = [[v]]
                    elif len(v) == 0 or np.ndim(v[0]) == 0:
                        vs = [v]
                    else:
                        vs = v
                    rows += [st.line(k.ljust(20), *[st.i(x, 5) for x in list(r)]) for r in vs]
                out += [st.line(st.i(len(rows), 15))] + rows
            elif not out:
                out = [st.blank]
            B.append(("OUTPU", out))
        if P.get("nover"):
            B.append(("NOVER", []))

    if block in ("all", "gener") and P.get("generators"):
        w = {5: (5, 5, 5), 6: (6, 4, 4), 7: (5, 4, 4), 8: (4, 4, 4), 9: (5, 3, 3)}[L]
        out = []
        rowsof = []
        for lab, comps in gens.items():
            rowsof += [(lab, c) for c in comps]
        for lab, c in rowsof:
            t = c.get("times")
            se = c.get("specific_enthalpy")
            tab = isinstance(t, list)
            out.append(st.line(lab.ljust(L), (c.get("name") or "").ljust(5), st.i(c.get("nseq"), w[0], 0), st.i(c.get("nadd"), w[1], 0),
                               st.i(c.get("nads"), w[2], 0), st.i(len(t) if tab else d.pick([None, 0, 1]), 5, 0), " " * 5,
                               c["type"].ljust(4), (d.pick(["1", "1", "X"]) if isinstance(se, list) else " "),
                               st.f(None if tab else c.get("rates"), 10, 3),
                               st.f(None if tab else se, 10, 3), st.f(c.get("layer_thickness"), 10, 3)))
            if tab:
                out += table(st, t, 14, 7, 4) + table(st, c["rates"], 14, 7, 4)
                if isinstance(se, list):
                    out += table(st, se, 14, 7, 4)
        B.append(("GENER", out + end(d, st, len(out))))
    if block in ("all", "mesh") and P.get("elements"):
        w = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[L]
        labs = [str(x) for x in P["elements_order"]] if P.get("elements_order") is not None else list(P["elements"])
        out, crd = [], []
        exact = P.get("coordinates")
        drop = exact and d.bool(0.5)
        for lab in labs:
            e = P["elements"][lab]
            m = e.get("material")
            m = " " * 5 if m is None else m.ljust(5) if isinstance(m, str) else st.i(m, 5)
            out.append(st.line(lab.ljust(L), st.i(e.get("nseq"), w[0], 0), st.i(e.get("nadd"), w[1], 0), m,
                               *([st.f(e.get(k), 10, 4) for k in ("volume", "heat_exchange_area", "permeability_modifier")] + [
                                   st.f(None if drop else x, 10, 3) for x in e["center"]])))
            crd.append(st.line(*[st.f(x, 20, 13) for x in e["center"]]))
        B.append(("ELEME", out + [st.blank]))
        if exact:
            B.append(("COORD", crd + [st.blank]))
    if block in ("all", "mesh") and P.get("connections"):
        w = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}[L]
        labs = ([str(x) for x in P["connections_order"]] if P.get("connections_order") is not None else list(P["connections"]))
        out = []
        for lab in labs:
            c = P["connections"][lab]
            na = list(c.get("nadd") or [None, None])
            out.append(st.line(lab.ljust(2 * L), st.i(c.get("nseq"), w[0], 0), st.i(na[0], w[1], 0), st.i(na[1], w[2], 0),
                               st.i(c.get("permeability_direction"), 5), st.f(c["nodal_distances"][0], 10, 4),
                               st.f(c["nodal_distances"][1], 10, 4), st.f(c.get("interface_area"), 10, 4),
                               st.f(c.get("gravity_cosine_angle"), 10, 3), st.f(c.get("radiant_emittance_factor"), 10, 3)))
        B.append(("CONNE", out + end(d, st, len(out))))
    if block in ("all", "incon") and P.get("initial_conditions"):
        w = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[L]
        labs = ([str(x) for x in P["initial_conditions_order"]]
                if P.get("initial_conditions_order") is not None else list(P["initial_conditions"]))
        out = []
        for lab in labs:
            c = P["initial_conditions"][lab]
            v = list(c["values"])
            ux = list(c.get("userx") if c.get("userx") is not None else [])
            out.append(st.line(lab.ljust(L), " " * (w[0] + w[1]), st.f(c.get("porosity"), 15, 9), *[st.f(x, 10, 3) for x in ux]))
            out += [st.line(*[st.f(x, 20, 13) for x in v[:4]])]
            if len(v) > 4:
                out += [st.line(*[st.f(x, 20, 13) for x in v[4:]])]
        B.append(("INCON", out + (["+++", st.line(st.i(7, 5, 0), st.i(29, 5, 0), st.i(2, 5, 0), " 0.00000000E+00 0.86400000E+05"), st.blank]
                                  if d.bool(0.3) else [st.blank])))
    # order of the blocks
    B = d.shuffle(B) if block == "all" else B
    names = [b[0] for b in B]

    def after(a, b):
        """Block a not before block b."""
        if a in names and b in names and names.index(a) < names.index(b):
            x = B.pop(names.index(a))
            names.remove(a)
            B.insert(names.index(b) + 1, x)
            names.insert(names.index(b) + 1, a)

    for a in ("FLAC", "INDOM"):
        after(a, "ROCKS")
    after("CONNE", "ELEME")
    after("COORD", "ELEME")
    out = []
    if block == "all":
        t = P.get("title", "")
        out += [t] if isinstance(t, str) else list(t)
    for k, (name, lines) in enumerate(B):
        if k and block == "all" and st.filler and d.bool(0.4):
            out += d.pick([[""], ["", ""], ["! wells of the second stage"], ["REACT----1MOPR(20)-2", "00020"], ["HYSTE", "    1    1", ""],
                           ["/* --- */"]])
        out.append(name + (st.head if not k or d.bool(0.8) else d.pick(HEADS + (["Comment of the user"] if name != "START" else []))))
        out += lines
    if block == "all" and not (d.bool(0.1) and B and B[-1][0] not in ("PARAM", "DIFFU", "OUTPU")):
        out.append(d.pick(["ENDCY", "ENDCY----1----*", "ENDCY" + " " * 75, "ENDFI", "ENDFI----1----*"]))
        if d.bool(0.4):
            out += d.pick([["this deck is a test"], ["", "ROCKS----1", "xxxxx    2     2600.", "", ""], ["PARAM----1----", "12", "1. 2."]])
    text = st.eol.join(out) + ("" if block == "all" and out[-1].strip() and d.bool(0.2) else st.eol)
    return text


def end(d, st, n):
    """End of GENER and CONNE: a blank line, or cross-references as TOUGH leaves them."""
    if d.bool(0.75):
        return [st.blank]
    return ["+++  " if d.bool(0.5) else "+++"] + ["".join("{:5d}".format(1 + (k + j) % (n + 1)) for j in range(min(16, n - k)))
                                                 for k in range(0, n, 16)] + [st.blank]


class DeckRead(Op):
    """read_input of a deck another program wrote."""

    kind = "read_foreign_deck"

    def __init__(self, d):
        super().__init__()
        self.block = d.weighted([(7, "all"), (1, "mesh"), (1, "incon"), (1, "gener")])
        self.json = self.block == "all" and d.bool(0.12)
        sw = set(d.subset(["title", "rocks", "rpcap", "flac", "multi", "solver", "options", "mop", "selec", "init", "momop", "times",
                           "foft", "coft", "goft", "gener", "diffu", "outpu", "eleme", "conne", "incon", "flags"], 0.4))
        if "rocks" not in sw:
            sw.discard("flac")
        if self.block != "all":
            sw = set({"mesh": {"eleme", "conne"}, "incon": {"incon"}, "gener": {"gener"}}[self.block])
            if self.block == "mesh" and d.bool(0.3):
                sw.discard("conne")
        self.P, e, self.L = gen_params(d, "json" if self.json else "tough", sw)
        self.gens = e["gens"]
        self.sw = sorted(sw)
        self.name = {"all": d.pick(["INFILE", "deck.dat", "flow.inp"]), "mesh": "MESH", "incon": "INCON", "gener": "GENER"}[self.block]
        if self.json:
            self.name = "deck.json"
            kw = d.pick([{}, {"indent": 1}, {"indent": 4, "separators": (" , ", " : ")}, {"separators": (",", ":")}])
            self.text = json.dumps(jsonable(self.P), **kw)
            if d.bool(0.3):
                self.text = self.text.replace("\n", "\r\n") + "\n"
        else:
            self.text = deck(d, self.P, self.gens, self.L, self.block, Style(d))
        self.read_L = self.L if d.bool(0.3) and not self.json else None
        self.explicit = not self.json or d.bool(0.3)
        self.sources = [self.name]
        self.mesh = self.block == "mesh" and d.bool(0.5)

    def setup(self):
        rwrite(self.p(self.name), self.text)

    def call(self):
        import toughio

        if self.mesh:
            return toughio.read_mesh(self.p(self.name), file_format="tough", label_length=self.read_L)
        kw = {"file_format": "json" if self.json else "tough"} if self.explicit else {}
        if self.read_L:
            kw["label_length"] = self.read_L
        return toughio.read_input(self.p(self.name), **kw)

    def verify(self, value):
        try:
            if self.json:
                check_json(self.P, value)
            else:
                check_tough(self.P, self.gens, value, self.block)
        except Mismatch as e:
            return "not what the file says: " + str(e)
        return None

    def describe(self):
        return "{}({!r}) of a deck of {} characters (block={}, L={}, blocks={})".format(
            "read_mesh" if self.mesh else "read_input", self.p(self.name), len(self.text), self.block, self.L, "+".join(self.sw))


# -- mesh files -------------------------------------------------------------------------------------
def some_ids(d, n, lo=1):
    """n distinct positive identifiers: 1..n, or others, in any order."""
    m = d.raw(4)
    if m == 0:
        return list(range(lo, lo + n))
    rng = np.random.RandomState(d.raw(2 ** 31))
    step = d.pick([1, 3, 1000])
    ids = lo + np.cumsum(rng.randint(1, step + 1, n)) + d.pick([0, 99999, 7])
    if m > 1:
        ids = rng.permutation(ids)
    return [int(x) for x in ids]


def ftext(d, v):
    v = float(v)
    return d.pick(["{!r}", "{:.17g}", "{:.16e}", "{:.16E}"]).format(v)


def nums(d, row):
    f = d.pick(["{!r}", "{:.17g}", "{:.16e}", "{:.16E}"])
    return [f.format(float(v)) for v in row]


FLAC = {"tetra": ("T4", [0, 1, 2, 3]), "pyramid": ("P5", [0, 1, 3, 4, 2]), "wedge": ("W6", [0, 1, 3, 2, 4, 5]),
        "hexahedron": ("B8", [0, 1, 3, 4, 2, 7, 5, 6]), "triangle": ("T3", [0, 1, 2]), "quad": ("Q4", [0, 1, 2, 3])}


class FlacModel(object):
    def __init__(self, d):
        self.M = M = meshes.gen_mesh(d, 3, faces2d=d.bool(0.4), data=False)
        self.binary = d.bool(0.4)
        n = len(M.points)
        self.pids = some_ids(d, n)
        porder = d.shuffle(range(n)) if n < 60 else list(range(n))
        dims = [meshes.DIM[t] for t, _ in M.cell_list()]
        cells = M.cell_list()
        b7 = d.bool(0.3)
        groups = {3: {}, 2: {}}
        grouped = {3: d.bool(0.8), 2: d.bool(0.6)}
        face = d.pick([" face", " face", ""])
        self.cells, self.names = [], []
        recs = {3: [], 2: []}
        style = d.raw(3)
        order = d.shuffle(range(len(cells))) if len(cells) < 60 else list(range(len(cells)))
        mat = M.names()
        for dim in (3, 2):
            ids = some_ids(d, dims.count(dim))
            for i in order:
                if dims[i] != dim:
                    continue
                t, c = cells[i]
                code, perm = FLAC[t]
                nodes = [c[j] for j in perm]
                if t == "hexahedron" and b7 and d.bool(0.3):
                    code, nodes = "B7", nodes[:7]
                    c = list(c)
                    c[6] = c[5]  # xyz falls on xz
                    c = [nodes[0], nodes[1], nodes[4], nodes[2], nodes[3], nodes[6], nodes[6], nodes[5]]
                cid = ids.pop(0)
                recs[dim].append((code, cid, [self.pids[j] for j in nodes]))
                self.cells.append((t, c))
                g = None
                if grouped[dim] and not d.bool(0.1):
                    g = "{}{}".format(mat[i], "" if dim == 3 else face)
                    groups[dim].setdefault(g, []).append(cid)
                self.names.append((g, dim))
        slot = d.pick(["", "Default", "1"])
        self.points = [M.points[i] for i in porder]
        new = {p: k for k, p in enumerate(porder)}
        self.cells = [(t, [new[x] for x in c]) for t, c in self.cells]
        pts = [(self.pids[i], M.points[i]) for i in porder]
        self.text = self.bin(d, pts, recs, groups, slot) if self.binary else self.asc(d, pts, recs, groups, slot)

    def bin(self, d, pts, recs, groups, slot):
        out = [struct.pack("<2I", 1375135718, d.pick([3, 5])), struct.pack("<I", len(pts))]
        out += [struct.pack("<I3d", i, *p) for i, p in pts]
        for dim in (3, 2):
            out.append(struct.pack("<I", len(recs[dim])))
            out += [struct.pack("<{}I".format(2 + len(n)), i, len(n), *n) for _, i, n in recs[dim]]
            out.append(struct.pack("<I", len(groups[dim])))
            for g, ids in groups[dim].items():
                a, b = g.encode("utf-8"), slot.encode("utf-8")
                out.append(struct.pack("<H", len(a)) + a + struct.pack("<H", len(b)) + b)
                out.append(struct.pack("<{}I".format(1 + len(ids)), len(ids), *ids))
        return b"".join(out)

    def asc(self, d, pts, recs, groups, slot):
        comments = d.raw(3)
        blanks = d.bool(0.3)
        per = d.pick([15, 10, 1, 7])
        out = ["* FLAC3D grid produced by another program"] if comments else []

        def head(t):
            if comments:
                out.append("* " + t)
            if blanks and d.bool(0.6):
                out.append("")

        head("GRIDPOINTS")
        for i, p in pts:
            out.append(d.pick(["G {} {}", "G  {}  {}"]).format(i, " ".join(nums(d, p))))
        for dim, z, name in ((3, "Z", "ZONES"), (2, "F", "FACES")):
            if not recs[dim]:
                continue
            head(name)
            for code, i, n in recs[dim]:
                out.append("{} {} {} {}".format(z, code, i, " ".join(map(str, n))))
            if groups[dim]:
                head(name[:-1] + " GROUPS")
            for g, ids in groups[dim].items():
                out.append('{}GROUP {}{}'.format(z, '"{}"'.format(g) if " " in g or d.bool(0.8) else g,
                                                 " SLOT {}".format(slot) if slot else ""))
                for k in range(0, len(ids), per):
                    out.append(" " * d.pick([0, 2]) + " ".join(map(str, ids[k:k + per])))
                if comments == 2:
                    out.append("*")
        return "\n".join(out) + ("\n" if d.bool(0.8) else "")

    def check(self, got):
        e = meshes.cmp_arr("points", got.points, np.array(self.points))
        if e:
            return e
        a = [(c.type, meshes.solid(c.type, row)) for c in got.cells for row in np.asarray(c.data)]
        b = [(t, meshes.solid(t, row)) for t, row in self.cells]
        if len(a) != len(b):
            return "{} cells expected {}".format(len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "cell {} is {} expected {}".format(i, x[0], y[0]) if x[0] != y[0] else "nodes of cell {} differ".format(i)
        gm = got.cell_data.get("material")
        if all(g is None for g, _ in self.names):
            return None if gm is None else "invented groups"
        if gm is None:
            return "groups lost"
        gf = {int(v[0]): (k, int(v[1])) for k, v in got.field_data.items()}
        zones = {g for g, dim in self.names if dim == 3}
        for i, (m, (g, dim)) in enumerate(zip(np.asarray(gm).tolist(), self.names)):
            x = gf.get(int(m))
            dim = 3 if g in zones else dim
            if x != ((g, dim) if g is not None else None):
                return "group of cell {}: {} expected {}".format(i, x, (g, dim))
        return None


UCD = {"vertex": ("pt", [0]), "line": ("line", [0, 1]), "triangle": ("tri", [0, 1, 2]), "quad": ("quad", [0, 1, 2, 3]),
       "tetra": ("tet", [0, 1, 3, 2]), "pyramid": ("pyr", [4, 0, 1, 2, 3]), "wedge": ("prism", [3, 4, 5, 0, 1, 2]),
       "hexahedron": ("hex", [4, 5, 6, 7, 0, 1, 2, 3])}


class UcdModel(object):
    def __init__(self, d):
        self.M = M = meshes.gen_mesh(d, d.pick([3, 3, 2]), lines=d.bool(0.2))
        n, nc = len(M.points), M.n_cells
        pid, cid = some_ids(d, n, d.pick([1, 0])), some_ids(d, nc)
        cd = {k: v for k, v in M.cell_data.items() if k != "material"}
        mat = M.cell_data.get("material", np.zeros(nc, dtype=int))
        if d.bool(0.2):
            M.cell_data["material"] = mat = mat * d.pick([1, 1000]) + d.pick([0, 7])
        out = ["# a comment", "#", "# AVS/Express"][: d.raw(4)]
        sizes = [sum(1 if v.ndim == 1 else v.shape[1] for v in x.values()) for x in (M.point_data, cd)]
        out.append("{}{} {} {} {} {}".format(" " * d.raw(3), n, nc, sizes[0], sizes[1], 0))
        for i, p in zip(pid, meshes.pts3(M.points)):
            out.append(" " * d.raw(2) + "{} {}".format(i, "  ".join(nums(d, p))))
        for i, (t, c), m in zip(cid, M.cell_list(), mat):
            name, perm = UCD[t]
            out.append("{} {}  {} {}".format(i, int(m), name, " ".join(str(pid[c[j]]) for j in perm)))
        self.units = d.pick([", none", ",", ", degC", ",Pa", ""])
        for ids, data in ((pid, M.point_data), (cid, cd)):
            if not data:
                continue
            out.append(" ".join(str(x) for x in [len(data)] + [1 if v.ndim == 1 else v.shape[1] for v in data.values()]))
            out += [k + self.units for k in data]
            rows = list(range(len(ids)))
            rows = d.shuffle(rows) if len(rows) < 60 else rows[::-1]
            for i in rows:
                v = np.concatenate([np.atleast_1d(x[i]) for x in data.values()])
                out.append("{} {}".format(ids[i], " ".join(nums(d, v))))
        self.text = "\n".join(out) + "\n"

    def check(self, got):
        return meshes.check_avsucd(self.M, got)


class TecModel(object):
    def __init__(self, d):
        t = d.pick(["hexahedron", "quad", "triangle", "tetra"])
        self.M = M = meshes.gen_mesh(d, 3 if t in ("hexahedron", "tetra") else 2, types=[t])
        M.point_data = {"p" + k: v for k, v in M.point_data.items()}
        old = d.bool(0.5)
        point = d.bool(0.4)
        if point:
            M.cell_data = {}
        M.blocks = [(t, np.concatenate([c for _, c in M.blocks]))]
        n, nc = len(M.points), M.n_cells
        low = d.bool(0.3)
        names = (["x", "y", "z"] if low else ["X", "Y", "Z"])[: M.points.shape[1]]
        pd, cd = meshes.split_vec(M.point_data), meshes.split_vec(M.cell_data)
        rename = {k: d.pick([k, k, k + " of it", "a " + k]) for k in list(pd) + list(cd)}
        self.pd = {rename[k].replace(" ", "_"): v for k, v in pd.items()}
        self.cd = {rename[k].replace(" ", "_"): v for k, v in cd.items()}
        cols = [(k, M.points[:, i], 0) for i, k in enumerate(names)] + [(rename[k], v, 0) for k, v in pd.items()]
        cells = [(rename[k], v, 1) for k, v in cd.items()]
        if d.bool(0.3) and not point:
            cols = d.shuffle(cols + cells)
        else:
            cols = cols + cells
        cen = [i + 1 for i, c in enumerate(cols) if c[2]]
        quote = any(" " in c[0] for c in cols) or d.bool(0.6)
        vs = ['"{}"'.format(c[0]) if quote else c[0] for c in cols]
        out = ["", "# made by another program", 'TITLE = "a mesh"', "# variables", 'FILETYPE = FULL'][d.raw(3): 3 + d.raw(3)]
        V = d.pick(["VARIABLES", "Variables", "variables"])
        if quote and d.bool(0.3):
            out += [V + " = " + vs[0]] + vs[1:]
        else:
            out.append(V + d.pick([" = ", "=", " ="]) + d.pick([", ", " ", ","]).join(vs))
        if d.bool(0.2):
            out.append("")
        z = {"hexahedron": "BRICK", "tetra": "TETRAHEDRON", "quad": "QUADRILATERAL", "triangle": "TRIANGLE"}[t]
        eq = d.pick(["=", " = ", "= ", " ="])
        keys = [("T", '"{}"'.format(d.pick(["zone 1", "Step=1, t = 2.", "a"])))] if d.bool(0.5) else []
        if old:
            keys += [("N", n), ("E", nc), ("F", "FEPOINT" if point else "FEBLOCK"), ("ET", z)]
        else:
            keys += [("NODES", n), ("ELEMENTS", nc), ("DATAPACKING", "POINT" if point else "BLOCK"), ("ZONETYPE", "FE" + z)]
        if cen and not point:
            if cen == list(range(cen[0], len(cols) + 1)) and d.bool(0.2):
                keys.append(("NV", cen[0] - 1))
            else:
                keys.append(("VARLOCATION", varloc(d, cen, len(cols))))
        keys = d.shuffle(keys)
        kl = d.bool(0.2)
        keys = [(k.lower() if kl else k) + eq + (str(v).lower() if kl and k != "T" else str(v)) for k, v in keys]
        sep = d.pick([", ", " ", ","])
        cut = d.raw(len(keys) + 1)
        Z = "zone " if kl else "ZONE "
        if cut in (0, len(keys)):
            out.append(Z + sep.join(keys))
        else:
            out += [Z + sep.join(keys[:cut]), d.pick([", ", ""]) + sep.join(keys[cut:])]
        if point:
            for i in range(n):
                out.append(" " * d.raw(2) + " ".join(nums(d, [c[1][i] for c in cols])))
        else:
            per = d.pick([1, 5, 20, 10 ** 6])
            for c in cols:
                v = nums(d, c[1])
                out += [" ".join(v[k:k + per]) for k in range(0, len(v), per)]
                if d.bool(0.1):
                    out.append("")
        for row in M.blocks[0][1]:
            out.append(" ".join(str(int(x) + 1) for x in row))
        self.text = "\n".join(out) + ("\n" if d.bool(0.8) else "")

    def check(self, got):
        M = self.M
        return meshes.cmp_arr("points", got.points, M.points) or meshes.cmp_blocks(got.cells, M.merged()) or \
            meshes.cmp_data("point_data", got.point_data, self.pd, None) or meshes.cmp_data("cell_data", got.cell_data, self.cd, None)


def varloc(d, cen, n):
    """([3-5]=CELLCENTERED, ...) for these variables."""
    runs = []
    for i in cen:
        if runs and runs[-1][1] == i - 1 and not d.bool(0.2):
            runs[-1][1] = i
        else:
            runs.append([i, i])
    parts = ["{}-{}".format(a, b) if b > a else str(a) for a, b in runs]
    if d.bool(0.5):
        s = ["[{}]=CELLCENTERED".format(",".join(parts))]
    else:
        s = ["[{}]=CELLCENTERED".format(p) for p in parts]
    nod = [i for i in range(1, n + 1) if i not in cen]
    if d.bool(0.4):
        s = ["[{}]=NODAL".format(",".join(map(str, nod)))] + s
    t = "(" + d.pick([", ", ","]).join(s) + ")"
    return t.replace("=", " = ") if d.bool(0.3) else t


MODELS = {"flac3d": FlacModel, "avsucd": UcdModel, "tecplot": TecModel}


class ForeignMesh(Op):
    """read_mesh of a file another program wrote."""

    kind = "read_foreign_mesh"

    def __init__(self, d, fmt=None):
        super().__init__()
        self.fmt = fmt or d.pick(["flac3d", "flac3d", "avsucd", "tecplot"])
        self.model = MODELS[self.fmt](d)
        self.explicit = self.fmt == "avsucd" or d.bool(0.3)
        self.name = {"flac3d": "grid.f3grid", "avsucd": "grid.inp", "tecplot": d.pick(["grid.dat", "grid.tec"])}[self.fmt]
        self.sources = [self.name]

    def setup(self):
        rwrite(self.p(self.name), self.model.text)

    def call(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        return toughio.read_mesh(self.p(self.name), **kw)

    def verify(self, value):
        e = self.model.check(value)
        return "not what the file says: " + e if e else None

    def describe(self):
        return "read_mesh({!r}, {}{}) of a file of {} bytes".format(
            self.p(self.name), self.fmt, " binary" if getattr(self.model, "binary", False) else "", len(self.model.text))


# -- result files ------------------------------------------------------------------------------------
class ForeignResult(results.ResultRead):
    """read_output / read_history of a result file in the layout of another version or program."""

    kind = "read_foreign_result"

    def __init__(self, d):
        super().__init__(d, kind=d.pick(["listing-elem", "listing-conn", "csv-elem", "csv-conn", "tecplot", "petrasim", "save", "history"]))
        self.name = d.pick([self.name, "results.txt", "run 2"])
        self.sources = [self.name]
        lines = self.stub.text.decode("ascii").split("\n")
        if lines and not lines[-1]:
            lines.pop()
        k = self.rkind[0]
        how = []
        if k in "cpth" and d.bool(0.5):  # blank lines of a concatenated or edited file
            how.append("blank lines")
            head = {"c": 2, "p": 1, "t": 1, "h": 1}[k]
            for _ in range(d.int(1, 4)):
                j = d.int(head, len(lines))
                if k == "t" and j < len(lines) and not lines[j].strip().upper().startswith("ZONE"):
                    continue
                lines.insert(j, d.pick(["", "   ", "," * 5 if k == "c" and j > head else ""]))
        if k in "c" and d.bool(0.4):
            how.append("unquoted")
            lines = [x.replace('"', "") for x in lines]
        if k == "c" and d.bool(0.3):
            how.append("narrow")
            lines = [",".join(y.strip() for y in x.split(",")) for x in lines]
        if k == "t":
            lines = [x for x in lines if not x.startswith("TITLE")]
            i = [x.strip().startswith("VARIABLES") for x in lines].index(True)
            names = lines[i].split("=", 1)[1].split()
            m = d.raw(4)
            if m:
                how.append("header {}".format(m))
                q = d.pick([", ", " ", ","]).join('"{}"'.format(x) for x in names)
                lines[i:i + 1] = [[], ["VARIABLES = " + q], ['TITLE = "x"', "variables=" + ",".join(names)],
                                  ['TITLE = "x"', "# a comment", "", "VARIABLES=" + q]][m]
            m = d.raw(3)
            if m:
                how.append("zone {}".format(m))
                n = self.stub.n
                z = [None, 'ZONE T="{}", I={}, F=POINT', 'zone i={1} t="{0}"'][m]
                lines = [z.format(x.split('"')[1].strip(), n) if x.strip().startswith("ZONE") else x for x in lines]
        eol = d.pick(["\n", "\n", "\r\n"])
        tail = d.pick([eol, eol, "", eol + eol])
        if k == "l":
            tail = eol
        self.how = how + (["crlf"] if eol != "\n" else [])
        self.data = (eol.join(lines) + tail).encode("ascii")

    def setup(self):
        rwrite(self.p(self.name), self.data)

    def describe(self):
        return super().describe() + " ({})".format(", ".join(self.how) or "plain")
