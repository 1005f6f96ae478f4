"""Entry point: run.py PROPERTY [--replay FILE] [--shards N]."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

# Third-party packages first, from their byte code; then the package under test from source only,
# so that stale byte code can never stand in for the working tree.
import numpy, scipy.optimize, scipy.sparse.linalg, sparse, qutip          # noqa
import projectq, projectq.backends, projectq.ops, projectq.meta           # noqa
import picos, cvxopt, pathos.multiprocessing                              # noqa
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"

import vlib                                                               # noqa


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        import PyQCodes
        assert os.path.dirname(os.path.dirname(os.path.abspath(PyQCodes.__file__))) == REPO
        import props_chan, props_opt, props_codes, props_large, props_dev, props_store              # noqa
    except Exception:            # noqa
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the package or the harness does not import" % prop)
        return 2
    if "--replay" in args:
        return vlib.replay(args[args.index("--replay") + 1])
    nshards = int(args[args.index("--shards") + 1]) if "--shards" in args else \
        (4 if tier == "quick" else 8)
    limit = float(os.environ.get("VERIF_LIMIT", "420" if tier == "quick" else "640"))
    return vlib.run(prop, tier, seed, nshards, limit)


sys.exit(main())
