import argparse
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
from . import core  # noqa: E402

FAMILY = {}
for fam, props in {
    "domains": "C01 C02 C03",
    "pipeline": "C04 C06 C07 C08 C30",
    "lifecycle": "C05 C28 C29",
    "adapters": "C09 C10 C11 C12",
    "splitters": "C13 C14",
    "registry": "C15 C16",
    "subsample": "C17",
    "scorers": "C18 C19",
    "selftrain": "C20 C21 C22",
    "deepdata": "C23 C24 C26",
    "deeptrain": "C25 C27",
    "generators": "C31",
    "qp": "C32",
    "fetch": "C34",
    "deeploss": "C33",
    "spherical": "C35",
    "ratios": "C36",
    "transport": "C37",
    "subspaces": "C38",
    "modelsel": "C39",
    "nets": "C40",
}.items():
    for p in props.split():
        FAMILY[p] = fam


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(f"harness.{FAMILY[a.property]}")
        chk = core.Check(a.property, a.tier, seed)
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            runs = [(r["scenario"], mod.execute(r["scenario"]))]
            chk.judge(mod.trace_module(r["scenario"]), runs)
            for scn, ev, cl in chk.fails:
                print("FAILS", cl, json.dumps(ev)[:2000])
            return 1 if chk.fails else 0
        mod.check(chk)
        return core.finish(chk, assumptions=getattr(mod, "ASSUMPTIONS", ()))
    except core.MachineryError as e:
        print("CHECK-ERROR", e)
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
