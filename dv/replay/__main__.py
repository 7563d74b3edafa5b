"""python -m dv.replay PID --seed S --budget T [--scale X] [--out OUT.json] | --replay FILE"""
import argparse, json, sys, warnings
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--out")
    ap.add_argument("--log")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from . import p2d, p3d, ptorch, pobj  # noqa: F401  registers the tests
    if a.replay:
        o = json.load(open(a.replay))
        m = core.run_case(a.pid, o["test"], core.dec(o["case"]))
        print(m or "holds")
        return 1 if m else 0
    counts, fails, distinct, samples = core.sweep(a.pid, a.seed, a.budget, a.scale, a.log)
    known = []
    for name, f in core.FINDINGS.get(a.pid, []):
        try:
            if f():
                known.append(name)
        except BaseException:
            pass
    res = dict(counts=counts, distinct=distinct, samples=samples, known=known, fails=[dict(test=n, case=core.enc(c), message=m) for n, c, m in fails])
    if a.out:
        json.dump(res, open(a.out, "w"))
    print(json.dumps(dict(counts=counts, known=known, fails=[f["message"][:500] for f in res["fails"]])))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
