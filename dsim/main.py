"""check <property> [--tier quick|thorough] [--replay FILE] [--runs N] [--digests FILE]"""
import argparse
import gc
import importlib
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("DSIM_WORKERS", "8"))


def load():
    """Import everything a run may use, put the simulator in place, freeze."""
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import argparse, copy, json, pickle, string, xml.etree.ElementTree  # noqa
    import encodings.idna, h5py, meshio, meshio.xdmf, numpy, pkg_resources, scipy.spatial  # noqa

    from . import core

    # seams first: a "from time import ctime" in toughio must bind the simulator's
    core.install()

    # toughio itself is compiled from the source in the working tree, never from cached bytecode
    ext = importlib._bootstrap_external
    real = ext.cache_from_source

    def no_cache(path, *args, **kwargs):
        raise NotImplementedError

    ext.cache_from_source = no_cache
    try:
        import toughio
        import pkgutil

        for m in pkgutil.walk_packages(toughio.__path__, "toughio."):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    finally:
        ext.cache_from_source = real
    if os.path.realpath(os.path.dirname(toughio.__file__)) != os.path.realpath(os.path.join(REPO, "toughio")):
        raise RuntimeError("toughio comes from " + toughio.__file__)
    core.PACKAGE = os.path.realpath(os.path.dirname(toughio.__file__))
    core._install_h5()
    core.install_monitoring(os.path.dirname(toughio.__file__), [os.path.dirname(meshio.__file__)])
    return toughio


def seed_of(prop, base, i):
    return "{}/{}/{}".format(prop, base, i)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--digests")
    ap.add_argument("--show", type=int, help="print the scenario and event log of one run")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--all", action="store_true", help="go on after violations and list their classes")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--companion", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.perf_counter()
    load()
    if a.selftest:
        print("toughio and the simulator load")
        return 0
    from . import batch

    return batch.main(a, t0)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
