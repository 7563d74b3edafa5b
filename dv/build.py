"""Build the real code of /repo's working tree in a scratch directory.

Nothing is written in /repo.  The extension is generated by Cython from the real
.pyx and compiled against the real header; the Python package is a copy.
"""
import os, shutil, subprocess, sysconfig, tempfile

REPO = os.environ.get("DV_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
             PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin")
    e.pop("PYTHONPATH", None)
    e["DV_REPO"] = REPO
    return e


class BuildError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="dv_", dir=os.environ.get("TMPDIR", "/tmp"))


def build_package(dst, opt="-O1", extra=()):
    """Copy the package to dst and compile the extension there."""
    shutil.copytree(os.path.join(REPO, "deodr"), os.path.join(dst, "deodr"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "data", "*.cpp", "*.html"))
    data = os.path.join(REPO, "deodr", "data")
    if os.path.isdir(data):
        os.symlink(data, os.path.join(dst, "deodr", "data"))
    shutil.copytree(os.path.join(REPO, "C++"), os.path.join(dst, "C++"))
    pyx = "deodr/differentiable_renderer_cython.pyx"
    r = subprocess.run([PY, "-m", "cython", "--cplus", "--3str", pyx, "-o", "deodr/dv_ext.cpp"], cwd=dst, env=env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cython: " + r.stderr[-2000:])
    q = subprocess.run([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include']);"
                        "print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True, env=env())
    ni, pi, suf = q.stdout.split()
    out = "deodr/differentiable_renderer_cython" + suf
    r = subprocess.run(["g++", opt, "-g0", "-w", "-fPIC", "-shared", "-I" + ni, "-I" + pi, *extra, "deodr/dv_ext.cpp", "-o", out],
                       cwd=dst, env=env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("g++: " + r.stderr[-2000:])
    os.unlink(os.path.join(dst, "deodr/dv_ext.cpp"))
    return dst
