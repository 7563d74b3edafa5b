"""python3-vt -m dv.vc C05 --tier quick --out proof.json: generates and discharges the obligations of a property."""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import time
import traceback

FILL = ["ctri.v_inv_matrix()", "ctri.v_floor_to_int()", "ctri.v_div()", "ctri.v_sort3()", "ctri.v_signed_area()", "ctri.v_get_xrange()", "ctri.v_flat()"] + \
    [f"ctri.v_stencil({s},{c})" for s in (True, False) for c in (True, False)]
KINDS = ("interpolated", "textured_gouraud")


def tri(kind, back=False):
    b = "_B" if back else ""
    return [f"cspecs.v_render_part{b}('{kind}')", f"crast.v_triangle{b}('{kind}')"]


def edge(kind, err, back=False):
    return [f"cedge.v_edge{'_B' if back else ''}('{kind}',{err})"]


def scene(err, sigmas=(True, False), bgs=("image", "color")):
    return [f"cscene.v_render_scene({err},'{b}',{s})" for s in sigmas for b in bgs]


def scene_B(err, sigmas=(True, False)):
    return [f"cscene.v_render_scene_B({err},{s})" for s in sigmas]


TRI = tri(KINDS[0]) + tri(KINDS[1])
TRI_B = tri(KINDS[0], True) + tri(KINDS[1], True)
EDGE_GEO = ["cedge.v_edge_xrange()", "cedge.v_edge_stencil()", "ctri.v_inv_matrix()", "ctri.v_floor_to_int()", "ctri.v_div()"]
TEX = ["ctri.v_bilinear()"]
TEX_B = ["ctri.v_bilinear_B()"]



def glue(back, err, py=(True,)):
    return [f"pyglue.v_marshal({back},{err},{u})" for u in py]


S2D = ["pyscene.v_scene2d()"]   # the class through which scenes are rendered


BOTH = (True, False)
TORCH_FIT = ["pyfit_torch.v_depth()", "pyfit_torch.v_energy()"] + [f"pyfit_torch.v_rgb({l},{c})" for l, c in ((True, True), (False, False), (True, False), (False, True))]
JOBS = {
    "C01": FILL + TRI + scene(False, (False,)) + ["clemma.v_shared_edge()"] + S2D + glue(False, False),
    "C02": FILL + TRI + scene(False) + scene(True) + ["clemma.v_nearest()", "cscene.v_check()"] + S2D + glue(False, False) + glue(False, True),
    "C03": FILL + tri(KINDS[0]) + scene(False, (False,)) + S2D + glue(False, False),
    "C04": FILL + tri(KINDS[1]) + TEX + scene(False, (False,)) + S2D + glue(False, False),
    "C05": EDGE_GEO + edge(KINDS[0], False) + edge(KINDS[1], False) + TEX + scene(False, (True,)) + ["clemma.v_order()"] + S2D + glue(False, False),
    "C06": EDGE_GEO + edge(KINDS[0], True) + edge(KINDS[1], True) + TEX + scene(True) + ["clemma.v_order()"] + S2D + glue(False, True),
    "C07": FILL + TRI + TRI_B + TEX + TEX_B + scene(False, (False,)) + scene_B(False, (False,)) + ["clemma.v_nearest()"] + S2D + glue(False, False) + glue(True, False),
    "C08": EDGE_GEO + ["cedge.v_edge_stencil_B()"] + [x for k in KINDS for b in (False, True) for x in edge(k, False, b)] + TRI_B + TEX + TEX_B + scene(False, (True,)) + scene_B(False, (True,)) + S2D + glue(False, False) + glue(True, False),
    "C09": EDGE_GEO + ["cedge.v_edge_stencil_B()"] + [x for k in KINDS for b in (False, True) for x in edge(k, True, b)] + TRI_B + TEX + TEX_B + scene(True) + scene_B(True) + S2D + glue(False, True) + glue(True, True),
    "C10": ["cscene.v_check()", "csafe.m_ints()", "csafe.m_ranges()", "csafe.m_stencils()", "csafe.m_bilinear()"] + [f"csafe.{f}('{k}')" for f in ("m_parts", "m_triangle") for k in KINDS] +
    [f"csafe.m_edge('{k}',{e})" for k in KINDS for e in (False, True)] + [f"csafe.m_scene({b},{e})" for b in (False, True) for e in (False, True)] + ["csafe.m_scene(False,False,'color')"] +
    scene(False, (True,), ("color",)) + [f"pyglue.v_validation({b},{e},{u})" for b in BOTH for e in BOTH for u in BOTH],
    "C12": ["pycam.v_project()", "pycam.v_center()", "pycam.v_default()"],
    "C13": ["pycam.v_backward()"],
    "C14": [f"pymesh.v_normals(({c},),({l},))" for c in (False, True) for l in (False, True)],
    "C15": ["pymesh.v_normals_backward((False,))", "pymesh.v_normals_backward((True,))", "pymesh.v_normals((False,),(False,))", "pymesh.v_normals((True,),(False,))"],
    "C16": [f"pymesh.v_topology(({c},))" for c in (False, True)],
    "C17": [f"pymesh.v_silhouette(({c},))" for c in (False, True)],
    "C19": ["pyrigid.v_rigid()", "pymesh.v_topology((False,))"],
    "C23": [f"pysub.v_subdivision(({c},))" for c in (False, True)] + ["pymesh.v_topology((False,))", "pysub.v_closed()"],
    "C11": ["pyscene.v_scene2d()"] + scene(False, (False,)) + [x for b in BOTH for e in BOTH for x in glue(b, e, BOTH)],
    "C27": ["pyscene.v_compare()", "pyscene.v_scene2d()"] + [x for b in BOTH for e in BOTH for x in glue(b, e)],
    "C18": ["pyscene3d.v_lighting()"],
    "C21": ["pyscene3d.v_settings()", "pyscene3d.v_render()", "pyscene3d.v_depth()", "pyscene3d.v_deferred()"] + glue(False, False),
    "C22": ["pyscene3d.v_gradients()", "pyscene3d.v_lighting()"] + glue(True, False),
    "C24": ["pyframes.v_sum()", "pyfit.v_multi(2)", "pyfit.v_depth()", "pyfit.v_multi(1,False,True)", "pyfit.v_multi(1,True,False)", "pyfit.v_frame()"] + [f"pyfit.v_rgb({l},{c})" for l in (True, False) for c in (True, False)] + TORCH_FIT + [x for b in BOTH for e in BOTH for x in glue(b, e)],
    "C25": ["pytorch.v_camera()", "pytorch.v_rigid()", "pytorch.v_normals((False,))", "pytorch.v_normals((True,))", "pytorch.v_render()", "pytorch.v_function()"] + glue(False, False, (False,)) + glue(True, False, (False,)),
    "C26": ["pyobj.v_read()", "pyobj.v_write()"],
    "C20": ["pytools.v_tools()"],
}
PY_TRUSTED = ["python3's parser and the Python interpreter, which executes the real functions on symbolic arrays", "the engine dv/vc/sums.py, nps.py (normal form of sums over index sets of unknown size) and z3",
              "numpy and scipy.sparse: the contracts assumed for the functions used are in dv/vc/nps.py"]
PY_ASSUMED = ["floating point arithmetic is treated as exact real arithmetic", "denominators are not zero, square roots are taken of non-negative numbers", "integer arrays hold indices in range"]
TRUSTED = ["clang 18 parser (AST of C++/DifferentiableRenderer.h, dumped on every run)", "the VC generator dv/vc and its normal form of rational expressions", "z3"]
ASSUMED = ["floating point arithmetic is treated as exact real arithmetic in the functional obligations (integer conversions, clamps and bounds are exact)",
           "arrays given to the renderer do not overlap", "images up to 32700 rows and columns and 10922 channels (KF4)", "a textured triangle is shaded"]


class Late(BaseException):
    """The obligations of a job are not decided in time."""


def one(job, limit=int(os.environ.get("DV_JOB_LIMIT", "420")), after_failure=60):
    from .ctx import Report
    mod, call = job.split(".", 1)
    rep = Report()
    t0 = time.time()

    def tick(*a):
        # once an obligation has failed the others are only decided if they are easy
        late = time.time() - t0
        if late > limit or late > after_failure and any(o["status"] == "failed" for o in rep.ob.values()):
            raise Late(f"stopped after {late:.0f} s")
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        m = importlib.import_module("dv.vc." + mod)
        fn, args = call.split("(", 1)
        getattr(m, fn)(rep, *eval("(" + args[:-1] + ",)" if args != ")" else "()"))
    except (Exception, Late):
        rep.fail(job + ": generation of the obligations", traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    o = rep.out()
    if not o["obligations"]:
        rep.fail(job + ": generates obligations", "none")
        o = rep.out()
    o["wall"] = time.time() - t0
    o["job"] = job
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("DV_PROCS", "8")))
    a = ap.parse_args()
    jobs = list(dict.fromkeys(JOBS[a.pid]))
    cpp = any(not j.startswith("py") for j in jobs)
    py = any(j.startswith("py") for j in jobs)
    if cpp:
        from .cspecs import prog
        try:
            prog()
        except Exception as e:
            jobs = []
            res = [dict(obligations=[dict(name="the C++ header is parsed", status="failed", backend="clang", time=0, detail=str(e)[-1500:])], functions=[], trusted=[], notes=[], assumptions=[], known={}, solver_time=0)]
    if jobs:
        with multiprocessing.Pool(min(a.procs, len(jobs))) as p:
            res = p.map(one, sorted(jobs, key=lambda j: "_B" not in j), chunksize=1)
    obl, funcs, known = {}, {}, {}
    for r in res:
        for o in r["obligations"]:
            p = obl.get(o["name"])
            if p is None or o["status"] != "proved":
                obl[o["name"]] = o
        funcs.update(dict(r["functions"]))
        for k, v in r["known"].items():
            known.setdefault(k, set()).update(v)
    out = dict(obligations=sorted(obl.values(), key=lambda o: o["name"]), functions=sorted(funcs), trusted=py * PY_TRUSTED + cpp * TRUSTED + sorted({t for r in res for t in r["trusted"]}),
               notes=sorted({n for r in res for n in r["notes"]}), assumptions=list(dict.fromkeys(py * PY_ASSUMED + cpp * ASSUMED)) + sorted({n for r in res for n in r["assumptions"]}), known={k: sorted(v) for k, v in known.items()},
               solver_time=sum(r["solver_time"] for r in res), jobs=[dict(job=r.get("job"), seconds=round(r.get("wall", 0), 2)) for r in res])
    s = json.dumps(out, indent=1)
    if a.out:
        open(a.out, "w").write(s)
    else:
        bad = [o for o in out["obligations"] if o["status"] != "proved"]
        print(a.pid, len(out["obligations"]), "obligations", len(bad), "failed")
        for o in bad:
            print("FAILED", o["name"], str(o.get("detail"))[:300])


if __name__ == "__main__":
    main()
