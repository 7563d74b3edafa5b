"""Replay of the properties on the real code: generators of inputs and oracles.

A test is a pair gen(rng, i) -> case (dict of plain values and arrays) and
run(case) -> None or a message describing how the real code broke the property.
"""
import json
import traceback
import numpy as np

TESTS = {}   # property -> list of (name, gen, run, quota)
FINDINGS = {}  # property -> list of (name, run) : run() -> True when the known deviation is present


def test(pid, name, quota=100):
    def deco(cls):
        TESTS.setdefault(pid, []).append((name, cls.gen, cls.run, quota))
        return cls
    return deco


def finding(pid, name):
    def deco(f):
        FINDINGS.setdefault(pid, []).append((name, f))
        return f
    return deco


def enc(o):
    if isinstance(o, np.ndarray):
        return {"__nd__": [repr(float(x)) if x.dtype.kind == "f" else int(x) for x in o.ravel()], "dtype": o.dtype.str, "shape": list(o.shape)}
    if isinstance(o, np.generic):
        return enc(o.item())
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    if hasattr(o, "__dict__"):
        return {"__S__": enc(o.__dict__)}
    if isinstance(o, float):
        return {"__f__": repr(o)}
    return o


def dec(o):
    if isinstance(o, dict):
        if "__nd__" in o:
            dt = np.dtype(o["dtype"])
            v = [float(x) for x in o["__nd__"]] if dt.kind == "f" else o["__nd__"]
            return np.array(v, dtype=dt).reshape(o["shape"])
        if "__S__" in o:
            from ..oracle.raster import S
            return S(**dec(o["__S__"]))
        if "__f__" in o:
            return float(o["__f__"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def close(a, b, tol=1e-7, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sc = 1 + (np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0) if scale is None else scale
    same_inf = np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
    return bool(np.all(same_inf | (d <= tol * sc)))


def diff(what, a, b, tol=1e-7):
    """None when close, else a message."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if close(a, b, tol):
        return None
    if a.shape != b.shape:
        return f"{what}: shape {a.shape}, expected {b.shape}"
    with np.errstate(all="ignore"):
        d = np.where(np.isfinite(a - b), np.abs(a - b), np.inf)
        d = np.where(np.isinf(a) & (a == b), 0, d)
    i = np.unravel_index(np.argmax(d), d.shape)
    return f"{what}{list(map(int, i))}: got {a[i]!r}, expected {b[i]!r} ({int((d > tol).sum())} entries differ)"


def first(*msgs):
    for m in msgs:
        if m:
            return m
    return None


def numgrad(f, x, eps=1e-6):
    """Central differences (Richardson) of a scalar function."""
    x = np.array(x, float)
    g = np.zeros(x.shape)
    for i in np.ndindex(*x.shape):
        v = x[i]
        r = []
        for h in (eps, eps / 2):
            x[i] = v + h
            a = f(x)
            x[i] = v - h
            b = f(x)
            r.append((a - b) / (2 * h))
        x[i] = v
        g[i] = (4 * r[1] - r[0]) / 3
    return g


def csgrad(f, x):
    """Exact derivative of a scalar function that accepts complex arrays."""
    x = np.array(x, complex)
    g = np.zeros(x.shape)
    h = 1e-30
    for i in np.ndindex(*x.shape):
        x[i] += 1j * h
        g[i] = np.imag(f(x)) / h
        x[i] = x[i].real
    return g


def run_case(pid, name, case):
    for n, gen, run, _ in TESTS[pid]:
        if n == name:
            try:
                return run(case)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                return "raised " + type(e).__name__ + ": " + str(e)[:300] + " | " + traceback.format_exc()[-900:]
    raise KeyError(name)


def sweep(pid, seed, budget, scale=1.0, log=None, first_only=True):
    """Run the tests of a property. Returns (counts, failures)."""
    import time
    import zlib
    t0 = time.time()
    counts, fails = {}, []
    seen, samples = set(), []
    tests = TESTS.get(pid, [])
    for k, (name, gen, run, quota) in enumerate(tests):
        n = max(1, int(quota * scale))
        limit = t0 + budget * (k + 1) / len(tests)
        done = 0
        for i in range(n):
            rng = np.random.RandomState((zlib.crc32(f"{pid}/{name}/{seed}".encode()) + i) % (2**32))
            case = gen(rng, i)
            if case is None:
                continue
            txt = json.dumps(dict(test=name, case=enc(case)))
            seen.add(zlib.crc32(txt.encode()))
            if i == 0:
                samples.append(txt[:1500])
            if log:
                with open(log, "w") as fh:
                    fh.write(txt)
            done += 1
            m = run_case(pid, name, case)
            if m:
                fails.append((name, case, m))
                if first_only:
                    break
            if time.time() > limit:
                break
        counts[name] = done
        if fails and first_only:
            break
    return counts, fails, len(seen), samples
