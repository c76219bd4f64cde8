"""An importable build of /repo's current working tree, for the concrete drivers.

If the compiled modules in /repo were built from exactly the current sources (by content, as recorded by build.sh's stamp)
/repo itself is used.  Otherwise the package is copied to a scratch folder and only what differs is rebuilt there.
/repo is never written to."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = "/opt/vp/lib/env.sh"
PY = "/opt/venv/bin/python"


def digest(p):
    with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()


def env(path):
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTEST_ADDOPTS", "PYWR_SOLVER"): e.pop(k, None)
    e.update(PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC", LC_ALL="C.UTF-8", LANG="C.UTF-8",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", SETUPTOOLS_SCM_PRETEND_VERSION="1.31.1",
             CFLAGS="-O1 -g0", LDFLAGS="-L/usr/lib/lp_solve -Wl,-rpath,/usr/lib/lp_solve")
    return e


def rel_files(*pats):
    return sorted(os.path.relpath(f, REPO) for p in pats for f in glob.glob(os.path.join(REPO, p), recursive=True))


def ensure():
    """(path, scratch or None, note)"""
    pyx = rel_files("pywr/**/*.pyx")
    common = rel_files("pywr/**/*.pxd", "pywr/**/*.pxi", "setup.py", "pyproject.toml", "setup.cfg")
    now = {f: digest(os.path.join(REPO, f)) for f in pyx + common}
    try:
        st = json.load(open(os.path.join(REPO, "build", "vp-stamp.json")))
        old = {os.path.relpath(k, REPO if k.startswith(REPO + "/") else "/repo"): v for k, v in st.items() if not k.endswith("/env.sh")}
    except (OSError, ValueError):
        old = None
    if os.path.exists(os.path.join(REPO, "build", "vp-running")): old = None
    so = lambda b: glob.glob(os.path.join(REPO, b + ".cpython-*.so")) + glob.glob(os.path.join(REPO, b + ".so"))
    missing = [f for f in pyx if not so(os.path.splitext(f)[0])]
    if old is not None and old == now and not missing:
        return REPO, None, "the compiled modules in /repo match its sources; used in place"
    full = old is None or any(old.get(f) != now.get(f) for f in (set(old) | set(now)) if not f.endswith(".pyx"))
    changed = pyx if full else [f for f in pyx if old.get(f) != now[f] or f in missing]
    d = tempfile.mkdtemp(prefix="verif_tree_")
    try:
        ign = shutil.ignore_patterns("__pycache__", *(["*.so", "*.c"] if full else []))
        shutil.copytree(os.path.join(REPO, "pywr"), os.path.join(d, "pywr"), ignore=ign)
        for f in ("setup.py", "setup.cfg", "README.rst", "MANIFEST.in", "LICENSE.txt"):
            if os.path.exists(os.path.join(REPO, f)): shutil.copy2(os.path.join(REPO, f), d)
        t = time.time()
        for root, _, fs in os.walk(os.path.join(d, "pywr")):
            for f in fs:
                p = os.path.join(root, f)
                age = 3000 if f.endswith((".pyx", ".pxd", ".py")) else 2000 if f.endswith(".c") else 1000
                os.utime(p, (t - age, t - age))
        for f in changed:
            b = os.path.join(d, os.path.splitext(f)[0])
            for x in glob.glob(b + ".c") + glob.glob(b + ".cpython-*.so"): os.remove(x)
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--parallel", "8"], cwd=d, env=env(d), stdin=subprocess.DEVNULL,
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("the extensions do not build:\n" + (r.stdout + r.stderr)[-2000:])
        shutil.rmtree(os.path.join(d, "build"), ignore_errors=True)
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    return d, d, ("full build" if full else "rebuilt " + ", ".join(changed)) + " in a scratch copy"


if __name__ == "__main__":
    t = time.time(); print(ensure(), time.time() - t)
