"""TOUGH and JSON input files."""
import os

import numpy as np

from .base import Op, close_e, deep, first_diff, seq_close, short, strip_none

EOS = {  # NK, NEQ, NPH as documented in the TOUGH manuals
    "eos1": (1, 2, 2), "eos2": (2, 3, 2), "eos3": (2, 3, 2), "eos4": (2, 3, 2),
    "eos5": (2, 3, 2), "eos7": (3, 3, 2), "eos8": (3, 3, 3), "eos9": (1, 1, 1),
    "eoswasg": (3, 4, 3), "eco2n": (3, 4, 3), "eco2n_v2": (3, 4, 3), "eco2m": (3, 4, 4),
}
ROCK2 = ["compressibility", "expansivity", "conductivity_dry", "tortuosity",
         "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4"]
BLOCKS = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT",
          "GOFT", "GENER", "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY", "MESHM", "ENDFI"]
ROCK1 = ["density", "porosity", "conductivity", "specific_heat"]
WIDTH_N = {5: (4, 4), 6: (4, 3), 7: (3, 3), 8: (3, 2), 9: (2, 2)}  # digits of ELEME NSEQ/NADD
CONNE_N = {5: (4, 4, 4), 6: (4, 3, 3), 7: (4, 2, 2), 8: (2, 2, 2), 9: (2, 1, 1)}
GENER_N = {5: (4, 4, 4), 6: (4, 3, 3), 7: (4, 3, 3), 8: (3, 3, 3), 9: (4, 2, 2)}


def labels(d, n, length, start=None):
    """n distinct cell labels: letter, two alphanumerics, digits (or inner blanks for 5)."""
    out = []
    seen = set()
    base = d.raw(1000) if start is None else start
    a = d.pick(d.LETTERS)
    mode = d.raw(4)
    for i in range(n):
        if mode == 3:
            a = d.pick(d.LETTERS)
            lab = a + d.pick(d.ALNUM) + d.pick(d.ALNUM) + str(d.raw(10 ** (length - 3))).zfill(length - 3)
        elif mode == 2 and length == 5:
            lab = "{}{}{}{:>2d}".format(a, d.ALNUM[(i // 90) % 35], d.ALNUM[i // 3150], 10 + i % 90) \
                if i % 3 else "{}{}{} {:d}".format(a, d.ALNUM[(i // 90) % 35], "Z", i % 10)
        else:
            k = base + i
            m = 10 ** (length - 3)
            lab = "{}{}{}{}".format(a, d.ALNUM[(k // m) % 35], d.ALNUM[(k // m // 35) % 35],
                                    str(k % m).zfill(length - 3))
        j = 0
        while lab in seen:
            j += 1
            lab = "{}{}{}{}".format(d.LETTERS[j % 26], d.ALNUM[(i + j) % 35], d.ALNUM[(j // 26) % 35],
                                    str((i + j) % 10 ** (length - 3)).zfill(length - 3))
        seen.add(lab)
        out.append(lab)
    return out


def rock_name(d, used):
    while True:
        n = d.word(1, 5)
        if n.lower() in ("nan", "inf", "infin") or n in used:
            n = "R{:04d}".format(len(used))
        if n not in used:
            used.add(n)
            return n


def maybe(d, p, f):
    return f() if d.bool(p) else None


def wrap_num(d, v, allow=True):
    """The same number as Python or numpy scalar."""
    if not allow or v is None:
        return v
    m = d.raw(6)
    if m == 5:
        return np.float64(v) if isinstance(v, float) else np.int64(v) if not isinstance(v, bool) else v
    return v


def wrap_seq(d, v, allow=True):
    """The same list as list, tuple or array (where it has no None)."""
    m = d.raw(5)
    if not allow or m < 3:
        return list(v)
    if m == 3 or not v or any(x is None or isinstance(x, (list, tuple)) for x in v):
        return tuple(v)
    return np.array(v)


def model(d, wide=True):
    n = d.size(0, 7, (7, 1))
    pars = [d.real(3, neg=True) if not d.bool(0.1) else None for _ in range(n)]
    return {"id": d.int(0, 40), "parameters": wrap_seq(d, pars)}


def pos(d, digits=5):
    return wrap_num(d, d.real(digits))


def initial(d, n4=None):
    """Primary variables: up to 4, or 5 to 8 (two records, one of which may be without values)."""
    n = d.int(1, 4) if n4 else d.int(5, 8)
    v = [d.real(13, neg=True) if not d.bool(0.15) else None for _ in range(n)]
    blank = d.raw(10)
    if not n4 and blank == 0:
        v[4:] = [None] * (n - 4)
    elif not n4 and all(x is None for x in v[4:]):
        v[4] = 1.0
    if not n4 and blank == 1:
        v[:4] = [None] * 4
    return v


def gen_rock(d, flac, nvar4):
    r = {}
    for k in ROCK1:
        if d.bool(0.7):
            r[k] = pos(d, 4)
    if d.bool(0.7):
        r["permeability"] = pos(d, 4) if d.bool(0.5) else wrap_seq(d, [d.real(4) for _ in range(3)])
    if d.bool(0.4):
        for k in ROCK2:
            if d.bool(0.5):
                r[k] = pos(d, 4)
    if d.bool(0.3):
        r["relative_permeability"] = model(d)
    if d.bool(0.3):
        r["capillarity"] = model(d)
    if d.bool(0.3):
        r["initial_condition"] = initial(d, nvar4)
    if flac:
        if d.bool(0.6):
            r["permeability_model"] = model(d)
        if d.bool(0.6):
            r["equivalent_pore_pressure"] = model(d)
    return r


def scal_or_seq(d, n, f):
    return f() if n == 1 else [f() for _ in range(n)]


def gen_generator(d, L, multi_ok=True):
    """One generator, or several on the same element."""
    nmulti = d.weighted([(6, 1), (2, 2), (1, 3)]) if multi_ok else 1
    w = GENER_N[L]

    def one(table=None):
        g = {}
        if d.bool(0.7):
            g["name"] = d.word(1, 5)
        for k, i in (("nseq", 0), ("nadd", 1), ("nads", 2)):
            if d.bool(0.2):
                g[k] = d.int(0, 10 ** w[i] - 1)
        g["type"] = d.pick(["MASS", "HEAT", "COM1", "COM2", "DELV", "WATE", "F"])
        if d.bool(0.2):
            g["layer_thickness"] = d.real(3, neg=True)
        nt = d.size(2, 60, (2, 3, 4, 5, 7, 8, 9, 12, 13)) if table else 0
        if nt:
            t, ts = 0.0, []
            for _ in range(nt):
                ts.append(t)
                t += d.int(1, 999999) * 10.0 ** d.int(0, 3)
            g["times"] = ts
            g["rates"] = [d.real(7, neg=True) for _ in range(nt)]
            if d.bool(0.4):
                g["specific_enthalpy"] = [d.real(7, neg=True) for _ in range(nt)]
        else:
            if d.bool(0.8):
                g["rates"] = d.real(3, neg=True)
            if d.bool(0.4):
                g["specific_enthalpy"] = d.real(3, neg=True)
        return g

    gens = [one(d.bool(0.45)) for _ in range(nmulti)]
    if nmulti == 1:
        g = dict(gens[0])
        for k in ("times", "rates", "specific_enthalpy"):
            if k in g and isinstance(g[k], list):
                g[k] = wrap_seq(d, g[k])
        return g, gens
    g = {}
    for k in ("name", "nseq", "nadd", "nads", "type", "times", "rates", "specific_enthalpy",
              "layer_thickness"):
        vals = [x.get(k) for x in gens]
        if any(v is not None for v in vals):
            g[k] = vals if d.bool(0.5) else tuple(vals)
    return g, gens


def gen_params(d, fmt="tough", blocks=None):
    """Parameters in the domain the format can represent, and the model of what it stores."""
    P = {}
    E = {}  # expected content
    big = d.bool(0.25)
    sw = blocks or set(d.subset(
        ["title", "rocks", "rpcap", "flac", "multi", "solver", "options", "mop", "selec", "init",
         "momop", "times", "foft", "coft", "goft", "gener", "diffu", "outpu", "eleme", "conne",
         "incon", "flags", "default"], 0.45))
    E["_sw"] = sw
    L = d.pick([5, 5, 5, 6, 7, 8, 9])
    P["title"] = ""
    if "title" in sw:
        def line():
            s = d.word(1, 10) + " " + d.word(0, 60, rest=" abcdefgh-=.,%'XYZ0123456789") if d.bool(0.7) \
                else d.word(80, 80)
            s = s.strip()[:80].strip()
            if d.raw(6) == 0:  # a title that begins like a block
                w = d.pick(BLOCKS)
                clear = ["METER study", "AL flow problem", "S of rocks"]
                return w + d.pick(clear if w in ("ROCKS", "ELEME", "INCON", "GENER") else clear + [" test 3", "-up of well 2"])
            return "T" + s[1:] if s[:5].rstrip() in BLOCKS else s
        P["title"] = line() if d.bool(0.6) else [line() for _ in range(d.int(1, 4))]
    nvar4 = not d.bool(0.35)

    used = set()
    flac = "flac" in sw
    default = {}
    if "default" in sw:
        default = gen_rock(d, flac, nvar4)
        default.pop("initial_condition", None)
        default.pop("relative_permeability", None)
        default.pop("capillarity", None)
    if "rpcap" in sw:
        for k in ("relative_permeability", "capillarity"):
            if d.bool(0.6):
                default[k] = model(d)
    if "init" in sw:
        default["initial_condition"] = wrap_seq(d, initial(d, not d.bool(0.4)))
        default["initial_condition"] = list(default["initial_condition"])
    if default or d.bool(0.2):
        P["default"] = default
    nrocks = d.size(1, 30 if big else 6, (1, 2, 3)) if "rocks" in sw else 0
    rocks = {}
    for _ in range(nrocks):
        rocks[rock_name(d, used)] = gen_rock(d, flac, nvar4)
    if rocks or d.bool(0.2):
        P["rocks"] = rocks
    if rocks and d.bool(0.4):
        order = d.shuffle(list(rocks))
        P["rocks_order"] = order[: d.int(1, len(order))] if d.bool(0.3) else order
    if flac:
        f = {}
        if d.bool(0.6):
            f["creep"] = d.bool(0.5)
        if d.bool(0.6):
            f["porosity_model"] = d.int(0, 99999)
        if d.bool(0.6):
            f["version"] = d.int(0, 99999)
        P["flac"] = f
    if "multi" in sw:
        if d.bool(0.6):
            P["eos"] = d.pick(sorted(EOS))
        if not P.get("eos") or d.bool(0.3):
            P["n_component"] = wrap_num(d, d.int(1, 9))
            P["n_phase"] = wrap_num(d, d.int(1, 9))
        if d.bool(0.2):
            P["n_component_mass"] = d.int(1, 9)
        if d.bool(0.5):
            P["isothermal"] = d.bool(0.5)
    if "solver" in sw:
        s = {}
        if d.bool(0.7):
            s["method"] = d.int(1, 9)
        if d.bool(0.6):
            s["z_precond"] = "Z{}".format(d.int(0, 4))
        if d.bool(0.6):
            s["o_precond"] = "O{}".format(d.int(0, 4))
        if d.bool(0.6):
            s["rel_iter_max"] = d.real(4)
        if d.bool(0.6):
            s["eps"] = d.real(4)
        if s:
            P["solver"] = s
    if "options" in sw:
        o = {}
        for k, w in (("n_iteration", 2), ("verbosity", 2), ("n_cycle", 4), ("n_second", 4),
                     ("n_cycle_print", 4)):
            if d.bool(0.6):
                o[k] = wrap_num(d, d.int(0, 10 ** w - 1))
        for k in ("temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max",
                  "t_step_max", "t_reduce_factor", "gravity", "mesh_scale_factor", "eps1", "eps2",
                  "w_upstream", "w_newton", "derivative_factor"):
            if d.bool(0.5):
                o[k] = pos(d, 4)
        if d.bool(0.6):
            n = d.size(1, 40, (1, 7, 8, 9, 16, 17))
            o["t_steps"] = d.real(4) if n == 1 and d.bool(0.5) else wrap_seq(
                d, [d.real(4) for _ in range(n)])
        P["options"] = o
    if "mop" in sw:
        P["extra_options"] = {k: d.int(0, 9) for k in d.subset(range(1, 25), 0.4)}
    if "momop" in sw:
        P["more_options"] = {k: d.int(0, 9) for k in d.subset(range(1, 41), 0.3)}
    if "selec" in sw:
        s = {"integers": {k: d.int(0, 99999) for k in d.subset(range(2, 17), 0.4)}}
        if fmt == "tough":
            s["integers"] = {k: wrap_num(d, v) for k, v in s["integers"].items()}
        m = d.raw(4)
        if m == 0:
            s["floats"] = None
        elif m == 1:
            n = d.size(1, 8, (8, 1))
            s["floats"] = [d.real(3, neg=True) if i == n - 1 or not d.bool(0.1) else None for i in range(n)]
        else:
            s["floats"] = [[d.real(3, neg=True) for _ in range(d.size(1, 8, (8, 1)))]
                           for _ in range(d.size(1, 12, (1, 2)))]
        if s["floats"] is None and d.bool(0.5):
            del s["floats"]
        if s["integers"] or s.get("floats"):
            if fmt == "tough" or s["integers"] is not None:
                P["selections"] = s
    if "times" in sw:
        n = d.size(1, 100, (1, 7, 8, 9, 16, 17, 24, 100))
        t, ts = 0.0, []
        for _ in range(n):
            t += d.int(1, 999) * 10.0 ** d.int(0, 4)
            ts.append(t)
        P["times"] = ts[0] if n == 1 and d.bool(0.5) else wrap_seq(d, ts)
    for sw_, key, n in (("foft", "element_history", 5), ("coft", "connection_history", 10),
                        ("goft", "generator_history", 5)):
        if sw_ in sw:
            k = d.size(1, 60 if big else 8, (1,))
            labs = labels(d, k * (2 if n == 10 else 1), L if d.bool(0.7) else 5)
            P[key] = wrap_seq(d, [a + b for a, b in zip(labs[::2], labs[1::2])] if n == 10 else labs)
    E["gens"] = {}
    if "gener" in sw:
        n = d.size(1, 40 if big else 5, (1,))
        g = {}
        for lab in labels(d, n, L):
            g[lab], E["gens"][lab] = gen_generator(d, L)
        P["generators"] = g
    if "diffu" in sw:
        P["diffusion"] = [wrap_seq(d, [d.real(3, neg=True) for _ in range(d.size(1, 8, (8, 1, 3)))])
                          for _ in range(d.int(1, 6))]
    if "outpu" in sw:
        o = {}
        if d.bool(0.6):
            o["format"] = d.word(1, 15, first=d.LETTERS.lower(), rest=d.LETTERS.lower() + "_-")
        if d.bool(0.7) or not o:
            v = {}
            for _ in range(d.size(1, 8, (1,))):
                name = d.word(1, 20, first=d.LETTERS.lower(), rest=d.LETTERS.lower() + " _-").strip()
                m = d.raw(5)
                i = lambda: d.int(0, 99999)
                v[name] = None if m == 0 else i() if m == 1 else [i(), i()] if m == 2 else [i()] if m == 3 \
                    else [[i() if d.bool(0.7) else None, i()] for _ in range(d.int(1, 4))] if d.bool(0.6) \
                    else [[i()] for _ in range(d.int(1, 4))]
            o["variables"] = v
        P["output"] = o
    mats = sorted(rocks) or ["ROCK1", "dfalt", "A"]
    if "eleme" in sw:
        n = d.size(1, 300 if big else 8, (1, 2))
        labs = labels(d, n, L)
        w = WIDTH_N[L]
        el = {}
        for lab in labs:
            e = {}
            if d.bool(0.2):
                e["nseq"] = d.int(0, 10 ** min(w[0], 9) - 1)
            if d.bool(0.2):
                e["nadd"] = d.int(0, 10 ** w[1] - 1)
            if d.bool(0.9):
                e["material"] = d.pick(mats) if d.bool(0.7) else d.int(1, 99999)
            if d.bool(0.9):
                e["volume"] = pos(d, 5)
            if d.bool(0.2):
                e["heat_exchange_area"] = pos(d, 5)
            if d.bool(0.2):
                e["permeability_modifier"] = pos(d, 5)
            e["center"] = wrap_seq(d, [d.real(4, neg=True) for _ in range(3)])
            el[lab] = e
        P["elements"] = el
        if d.bool(0.4):
            P["elements_order"] = wrap_seq(d, d.shuffle(labs))
        if d.bool(0.3):
            P["coordinates"] = True
    if "conne" in sw:
        n = d.size(1, 300 if big else 8, (1, 2))
        labs = labels(d, n + 1, L)
        w = CONNE_N[L]
        co = {}
        for a, b in zip(labs[:-1], labs[1:]):
            c = {}
            if d.bool(0.2):
                c["nseq"] = d.int(0, 10 ** w[0] - 1)
            if d.bool(0.2):
                c["nadd"] = [d.int(0, 10 ** w[1] - 1), d.int(0, 10 ** w[2] - 1)]
            if d.bool(0.9):
                c["permeability_direction"] = d.pick([1, 2, 3, -1, -2, -3])
            c["nodal_distances"] = wrap_seq(d, [d.real(4), d.real(4)])
            if d.bool(0.9):
                c["interface_area"] = pos(d, 4)
            if d.bool(0.7):
                c["gravity_cosine_angle"] = d.pick([0.0, 1.0, -1.0, 0.5, -0.707])
            if d.bool(0.2):
                c["radiant_emittance_factor"] = d.real(3, neg=True)
            co[a + b] = c
        P["connections"] = co
        if d.bool(0.4):
            P["connections_order"] = wrap_seq(d, d.shuffle(list(co)))
    if "incon" in sw:
        n = d.size(1, 300 if big else 8, (1, 2))
        labs = labels(d, n, L)
        ic = {}
        inc4 = not d.bool(0.4)
        for lab in labs:
            i = {}
            if d.bool(0.5):
                i["porosity"] = pos(d, 10)
            if d.bool(0.3):
                k = d.int(1, 5)
                i["userx"] = wrap_seq(d, [d.real(3, neg=True) for _ in range(k)])
            i["values"] = wrap_seq(d, initial(d, inc4), allow=True)
            ic[lab] = i
        P["initial_conditions"] = ic
        if d.bool(0.4):
            P["initial_conditions_order"] = wrap_seq(d, d.shuffle(labs))
    if "flags" in sw:
        if d.bool(0.6):
            P["start"] = d.bool(0.5)
        if d.bool(0.6):
            P["nover"] = d.bool(0.5)
    keys = d.shuffle(list(P))
    P = {k: P[k] for k in keys}
    return P, E, L


# -- oracle for the TOUGH format ------------------------------------------------------------
class Mismatch(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Mismatch(msg.format(*[short(x) for x in a]))


def cmp_seq(where, got, want, p):
    need(seq_close(strip_none(got), strip_none(want), p), where + ": got {} want {}", got, want)


def cmp_num(where, got, want, p):
    need(close_e(got, want, p), where + ": got {} want {}", got, want)


def cmp_int(where, got, want):
    need((got is None) == (want is None) and (want is None or int(got) == int(want)),
         where + ": got {} want {}", got, want)


def cmp_model(where, got, want):
    need(isinstance(got, dict) and set(got) >= {"id", "parameters"}, where + ": got {} want {}", got, want)
    cmp_int(where + ".id", got["id"], want["id"])
    cmp_seq(where + ".parameters", got["parameters"], want["parameters"], 3)


def check_tough(P, gens, got, block="all"):
    """Raise Mismatch unless `got` is what a TOUGH input file of P must read back as."""
    full = block == "all"
    seen = set()

    def g(k):
        seen.add(k)
        return got.get(k)

    if full:
        t = P.get("title", "")
        t = [t] if isinstance(t, str) else list(t)
        gt = g("title")
        gt = [gt] if isinstance(gt, str) else list(gt or [])
        need([x.strip() for x in t] == gt, "title: got {} want {}", gt, t)

        default = P.get("default", {})
        rocks = P.get("rocks", {})
        order = list(P["rocks_order"]) if P.get("rocks_order") is not None else list(rocks)
        order += [r for r in rocks if r not in order]
        gr = g("rocks") or {}
        need(list(gr) == order, "rocks: got {} want {}", list(gr), order)
        need(list(g("rocks_order") or []) == order, "rocks_order: got {} want {}", got.get("rocks_order"), order)
        indom = any(x is not None for r in rocks.values() for x in (r.get("initial_condition") or []))
        for r in order:
            w = dict(rocks[r])
            for k, v in default.items():
                if k not in w and k not in ("initial_condition", "relative_permeability", "capillarity"):
                    w[k] = v
            x = dict(gr[r])
            at = "rocks[{}].".format(r)
            for k in ROCK1 + ROCK2:
                cmp_num(at + k, x.pop(k, None), w.get(k), 4)
            per = w.get("permeability")
            gp = x.pop("permeability", None)
            need(np.ndim(per) or not np.ndim(gp) or len(set(gp)) > 1, at + "permeability: got {} want {}", gp, per)
            per = [per] * 3 if np.ndim(per) == 0 else list(per)
            gp = [gp] * 3 if np.ndim(gp) == 0 else list(gp)
            cmp_seq(at + "permeability", gp, per, 4)
            for k in ("relative_permeability", "capillarity"):
                if k in w:
                    cmp_model(at + k, x.pop(k, None), w[k])
                else:
                    need(k not in x, at + k + " invented: {}", x.get(k))
            ic = w.get("initial_condition")
            if indom and ic is not None and any(v is not None for v in ic):
                cmp_seq(at + "initial_condition", x.pop("initial_condition", None), ic, 13)
            else:
                need("initial_condition" not in x, at + "initial_condition invented: {}", x.get("initial_condition"))
            if P.get("flac") is not None:
                cmp_model(at + "permeability_model", x.pop("permeability_model", None),
                          w.get("permeability_model", {"id": 1, "parameters": []}))
                cmp_model(at + "equivalent_pore_pressure", x.pop("equivalent_pore_pressure", None),
                          w.get("equivalent_pore_pressure", {"id": 3, "parameters": []}))
            need(not x, at + " unexpected {}", x)

        gd = dict(g("default") or {})
        for k in ("relative_permeability", "capillarity"):
            if k in default:
                cmp_model("default." + k, gd.pop(k, None), default[k])
            else:
                need(k not in gd, "default." + k + " invented: {}", gd.get(k))
        cmp_seq("default.initial_condition", gd.pop("initial_condition", None),
                default.get("initial_condition"), 13)
        need(not gd, "default: unexpected {}", gd)

        if P.get("flac") is not None:
            f = dict(g("flac") or {})
            need(bool(f.pop("creep", False)) == bool(P["flac"].get("creep", False)), "flac.creep {}", got.get("flac"))
            for k in ("porosity_model", "version"):
                cmp_int("flac." + k, f.pop(k, None), P["flac"].get(k))
            need(not f, "flac: unexpected {}", f)

        if P.get("eos") or (P.get("n_component") and P.get("n_phase")):
            nk, _, nph = EOS[P["eos"]] if P.get("eos") else (0, 0, 0)
            nk = P.get("n_component") or nk
            nph = P.get("n_phase") or nph
            cmp_int("n_component", g("n_component"), nk)
            cmp_int("n_phase", g("n_phase"), nph)
            cmp_int("n_component_mass", g("n_component_mass"), P.get("n_component_mass"))
            need(bool(g("isothermal")) == bool(P.get("isothermal", False)), "isothermal: got {}", got.get("isothermal"))

        if P.get("solver"):
            s = {"method": 3, "z_precond": "Z0", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1.0e-6}
            s.update(P["solver"])
            x = dict(g("solver") or {})
            cmp_int("solver.method", x.pop("method", None), s["method"])
            for k in ("z_precond", "o_precond"):
                need(x.pop(k, None) == s[k], "solver." + k + ": {}", got.get("solver"))
            for k in ("rel_iter_max", "eps"):
                cmp_num("solver." + k, x.pop(k, None), s[k], 4)
            need(not x, "solver: unexpected {}", x)

        need(bool(g("start")) == bool(P.get("start", True)), "start: got {} want {}", got.get("start"), P.get("start", True))
        need(bool(g("nover")) == bool(P.get("nover", False)), "nover: got {}", got.get("nover"))

        o = P.get("options", {})
        x = dict(g("options") or {})
        for k in ("n_iteration", "verbosity", "n_cycle", "n_second", "n_cycle_print"):
            cmp_int("options." + k, x.pop(k, None), o.get(k))
        for k in ("temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max",
                  "t_reduce_factor", "gravity", "mesh_scale_factor", "eps1", "eps2", "w_upstream",
                  "w_newton", "derivative_factor"):
            cmp_num("options." + k, x.pop(k, None), o.get(k), 4)
        ts = x.pop("t_steps", None)
        wt = o.get("t_steps")
        cmp_seq("options.t_steps", [ts] if np.ndim(ts) == 0 else ts, [wt] if np.ndim(wt) == 0 else wt, 4)
        need(not x, "options: unexpected {}", x)

        for k in ("extra_options", "more_options"):
            w = {i: int(v) for i, v in (P.get(k) or {}).items() if v is not None}
            need(dict(g(k) or {}) == w, k + ": got {} want {}", got.get(k), w)

        s = P.get("selections")
        if s:
            x = dict(g("selections") or {})
            fl = s.get("floats")
            rows = [] if fl is None or not len(fl) else [list(r) for r in fl] if np.ndim(fl[0]) == 1 else [list(fl)]
            w = {k: int(v) for k, v in (s.get("integers") or {}).items() if v is not None}
            if rows:
                w[1] = len(rows)
            need({k: int(v) for k, v in (x.get("integers") or {}).items()} == w,
                 "selections.integers: got {} want {}", x.get("integers"), w)
            gf = x.get("floats")
            gf = [] if gf is None or not len(gf) else [list(r) for r in gf] if np.ndim(gf[0]) == 1 else [list(gf)]
            need(len(gf) == len(rows), "selections.floats: got {} want {}", gf, rows)
            for a, b in zip(gf, rows):
                cmp_seq("selections.floats", a, b, 3)
        if P.get("times") is not None:
            a, b = g("times"), P["times"]
            cmp_seq("times", [a] if np.ndim(a) == 0 else a, [b] if np.ndim(b) == 0 else b, 4)
        for k in ("element_history", "connection_history", "generator_history"):
            if P.get(k) is not None:
                need([str(x) for x in g(k) or []] == [str(x) for x in P[k]], k + ": got {} want {}", got.get(k), list(P[k]))
        if P.get("diffusion") is not None:
            a = g("diffusion") or []
            need(len(a) == len(P["diffusion"]), "diffusion: got {} want {}", a, P["diffusion"])
            for x, y in zip(a, P["diffusion"]):
                cmp_seq("diffusion", x, y, 3)
        o = P.get("output")
        if o:
            x = dict(g("output") or {})
            f = o.get("format")
            need((x.pop("format", None) or "").upper() == (f or "").upper(), "output.format: {}", got.get("output"))

            def rows(v):
                if v is None:
                    return [[]]
                if np.ndim(v) == 0:
                    return [[v]]
                if len(v) == 0 or np.ndim(v[0]) == 0:
                    return [strip_none(v)]
                return [strip_none(r) for r in v]

            w = {k.lower(): rows(v) for k, v in (o.get("variables") or {}).items()}
            gv = {k: rows(v) for k, v in (x.pop("variables", None) or {}).items()}
            need(list(gv) == list(w) and gv == w, "output.variables: got {} want {}", gv, w)
            need(not x, "output: unexpected {}", x)

    if block in ("all", "gener") and P.get("generators"):
        gg = g("generators") or {}
        need(list(gg) == list(P["generators"]), "generators: got {} want {}", list(gg), list(P["generators"]))
        for lab, comps in gens.items():
            x = gg[lab]
            n = len(comps)
            for k in ("name", "type", "nseq", "nadd", "nads", "layer_thickness", "times", "rates", "specific_enthalpy"):
                v = x.get(k)
                vals = [v] if n == 1 else [None] * n if v is None else list(v)
                at = "generators[{}].{}".format(lab, k)
                need(len(vals) == n, at + ": got {} for {} components", v, n)
                for a, comp in zip(vals, comps):
                    b = comp.get(k)
                    if k in ("name", "type"):
                        need(a == b, at + ": got {} want {}", a, b)
                    elif k in ("nseq", "nadd", "nads"):
                        cmp_int(at, a, b)
                    elif isinstance(b, list):
                        need(np.ndim(a) == 1, at + ": got {} want {}", a, b)
                        cmp_seq(at, a, b, 7)
                    else:
                        need(np.ndim(a) == 0, at + ": got {} want {}", a, b)
                        cmp_num(at, a, b, 3)
            need(not set(x) - {"name", "type", "nseq", "nadd", "nads", "layer_thickness", "times", "rates",
                               "specific_enthalpy"}, "generators[{}]: unexpected {}", lab, x)

    if block in ("all", "mesh") and P.get("elements"):
        el = g("elements") or {}
        order = [str(x) for x in P["elements_order"]] if P.get("elements_order") is not None else list(P["elements"])
        need([str(x) for x in g("elements_order") or []] == order and list(el) == order,
             "elements_order: got {} want {}", got.get("elements_order"), order)
        for lab in order:
            w, x = P["elements"][lab], dict(el[lab])
            at = "elements[{}].".format(lab)
            for k in ("nseq", "nadd"):
                cmp_int(at + k, x.pop(k, None), w.get(k))
            m = w.get("material")
            gm = x.pop("material", None)
            need((gm or "") == (m if m is not None else ""), at + "material: got {} want {}", gm, m)
            for k in ("volume", "heat_exchange_area", "permeability_modifier"):
                cmp_num(at + k, x.pop(k, None), w.get(k), 4)
            cmp_seq(at + "center", x.pop("center", None), w["center"], 13 if P.get("coordinates") else 3)
            need(not x, at + " unexpected {}", x)
        need(bool(g("coordinates")) == bool(P.get("coordinates", False)), "coordinates: got {}", got.get("coordinates"))

    if block in ("all", "mesh") and P.get("connections"):
        co = g("connections") or {}
        order = [str(x) for x in P["connections_order"]] if P.get("connections_order") is not None else list(P["connections"])
        need([str(x) for x in g("connections_order") or []] == order and list(co) == order,
             "connections_order: got {} want {}", got.get("connections_order"), order)
        for lab in order:
            w, x = P["connections"][lab], dict(co[lab])
            at = "connections[{}].".format(lab)
            cmp_int(at + "nseq", x.pop("nseq", None), w.get("nseq"))
            na = list(x.pop("nadd", None) or [None, None])
            for a, b in zip(na, w.get("nadd") or [None, None]):
                cmp_int(at + "nadd", a, b)
            cmp_int(at + "permeability_direction", x.pop("permeability_direction", None), w.get("permeability_direction"))
            nd = list(x.pop("nodal_distances", None) or [])
            need(len(nd) == 2, at + "nodal_distances: {}", nd)
            for a, b in zip(nd, w["nodal_distances"]):
                cmp_num(at + "nodal_distances", a, b, 4)
            cmp_num(at + "interface_area", x.pop("interface_area", None), w.get("interface_area"), 4)
            cmp_num(at + "gravity_cosine_angle", x.pop("gravity_cosine_angle", None), w.get("gravity_cosine_angle"), 3)
            cmp_num(at + "radiant_emittance_factor", x.pop("radiant_emittance_factor", None), w.get("radiant_emittance_factor"), 3)
            need(not x, at + " unexpected {}", x)

    if block in ("all", "incon") and P.get("initial_conditions"):
        ic = g("initial_conditions") or {}
        order = ([str(x) for x in P["initial_conditions_order"]]
                 if P.get("initial_conditions_order") is not None else list(P["initial_conditions"]))
        need([str(x) for x in g("initial_conditions_order") or []] == order and list(ic) == order,
             "initial_conditions_order: got {} want {}", got.get("initial_conditions_order"), order)
        for lab in order:
            w, x = P["initial_conditions"][lab], dict(ic[lab])
            at = "initial_conditions[{}].".format(lab)
            cmp_num(at + "porosity", x.pop("porosity", None), w.get("porosity"), 9)
            cmp_seq(at + "userx", x.pop("userx", None), w.get("userx"), 3)
            cmp_seq(at + "values", x.pop("values", None), w["values"], 13)
            need(not x, at + " unexpected {}", x)

    extra = {k: v for k, v in got.items() if k not in seen and v not in (None, {}, [], False)}
    if not full:
        extra.pop("title", None)
    need(not extra, "unexpected keys {}", extra)


def jsonable(x):
    """What the JSON format must give back for a value."""
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


ORDERED = {"rocks", "elements", "connections", "initial_conditions", "meshmaker"}


def check_json(P, got):
    want = jsonable(P)
    a, b = deep(unordered(got)), deep(unordered(want))
    if a != b:
        raise Mismatch("json: " + str(first_diff(a, b)))


def unordered(x, key=None, depth=0):
    """Rocks, elements, connections, ... keep their order (it is their numbering); parameters by name have none."""
    if isinstance(x, dict):
        keys = x if depth == 1 and key in ORDERED else sorted(x, key=lambda k: (str(type(k)), k))
        return {k: unordered(x[k], k, depth + 1) for k in keys}
    if isinstance(x, list):
        return [unordered(v, None, depth + 1) for v in x]
    return x


class InputWrite(Op):
    kind = "write_input"

    def __init__(self, d, name=None, fmt=None, block=None):
        super().__init__()
        self.fmt = fmt or d.pick(["tough", "tough", "tough", "json"])
        blocks = None
        self.block = "all"
        if self.fmt == "tough":
            self.block = block or d.weighted([(7, "all"), (1, "mesh"), (1, "incon"), (1, "gener")])
            if self.block != "all":
                base = {"mesh": {"eleme", "conne"}, "incon": {"incon"}, "gener": {"gener"}}[self.block]
                blocks = set(base) | set(d.subset(["title", "rocks", "options", "times", "eleme", "gener", "incon"], 0.3))
        self.params, e, self.L = gen_params(d, self.fmt, blocks)
        self.gens = e["gens"]
        self.switches = sorted(e["_sw"])
        explicit = d.bool(0.3)
        if name is None:
            name = "model" + (d.pick([".json", ".JSON"]) if self.fmt == "json" and not explicit
                              else d.pick([".dat", "", ".json" if explicit else ".inp"]))
        else:
            explicit = True
        self.name = name
        self.explicit = explicit or (self.fmt == "tough" and name.lower().endswith(".json"))
        self.dests = [name]
        self.read_L = self.L if d.bool(0.3) else None

    def call(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        if self.fmt == "tough" and self.block != "all":
            kw["block"] = self.block
        return toughio.write_input(self.p(self.name), self.params, **kw)

    def readback(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        if self.fmt == "tough" and self.read_L:
            kw["label_length"] = self.read_L
        return toughio.read_input(self.p(self.name), **kw)

    def verify(self, value):
        return self.compare(self.readback())

    def compare(self, got):
        try:
            if self.fmt == "json":
                check_json(self.params, got)
            else:
                check_tough(self.params, self.gens, got, self.block)
        except Mismatch as e:
            return "read back differs: " + str(e)
        return None

    def args(self):
        return self.params

    def describe(self):
        return "write_input({!r}, fmt={}, block={}, L={}, blocks={})".format(
            self.p(self.name), self.fmt, self.block, self.L, "+".join(self.switches))


class InputRead(Op):
    """read_input of a file another process wrote."""

    kind = "read_input"

    def __init__(self, d, name=None, fmt=None):
        super().__init__()
        self.w = InputWrite(d, name=name, fmt=fmt)
        self.sources = [self.w.name]

    def setup(self):
        self.w.dir = self.dir
        self.w.call()

    def call(self):
        self.w.dir = self.dir
        return self.w.readback()

    def verify(self, value):
        return self.w.compare(value)

    def describe(self):
        return "read_input of " + self.w.describe()
