"""Build a private copy of the package from /repo's working tree: src/falwa copied to a scratch
directory, every kernel compiled by f2py + gfortran there in double precision with bounds checks.
Uses only the standard library (runs under any interpreter); nothing is written outside `dest`."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("FALWA_REPO", "/repo")
VENV = "/opt/venv/bin/python"

ENV = {"HOME": "/root", "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
       "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "LC_ALL": "C"}


def kernels(repo=REPO):
    """basenames listed in the meson file (the ones shipped)"""
    import re
    p = os.path.join(repo, "src/falwa/f90_modules/meson.build")
    s = open(p).read()
    m = re.search(r"f90_basenames\s*=\s*\[(.*?)\]", s, re.S)
    return re.findall(r"'([\w]+)'", m.group(1))


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env={**ENV, "TMPDIR": cwd}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(f"{' '.join(cmd)}\n{r.stdout[-3000:]}")
    return r.stdout


def build(dest, repo=REPO, double=True, bounds=True):
    pkg = os.path.join(dest, "falwa")
    shutil.copytree(os.path.join(repo, "src/falwa"), pkg, ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.f90"))
    out = run([VENV, "-c", "import numpy,numpy.f2py,sysconfig;print(numpy.get_include());print(numpy.f2py.get_include());"
               "print(sysconfig.get_path('include'));print(sysconfig.get_config_var('EXT_SUFFIX'))"], dest).split("\n")
    incnp, incf2, incpy, suf = out[:4]
    with open(os.path.join(dest, ".f2py_f2cmap"), "w") as f:
        f.write("{'real': {'': 'double'}}\n" if double else "{}\n")

    def one(b):
        w = os.path.join(dest, "b_" + b)
        os.makedirs(w)
        src = os.path.join(repo, "src/falwa/f90_modules", b + ".f90")
        shutil.copy(src, w)
        if double:
            shutil.copy(os.path.join(dest, ".f2py_f2cmap"), w)
        run([VENV, "-m", "numpy.f2py", b + ".f90", "-m", b, "--build-dir", w, "--lower"], w)
        fl = ["-O2", "-fPIC", "-w"]
        ff = fl + (["-fdefault-real-8", "-fdefault-double-8"] if double else []) + (["-fcheck=bounds"] if bounds else [])
        objs = []
        run(["gfortran", *ff, "-c", b + ".f90", "-o", "k.o"], w)
        objs.append("k.o")
        for x in (b + "-f2pywrappers.f", b + "-f2pywrappers2.f90"):
            if os.path.exists(os.path.join(w, x)) and os.path.getsize(os.path.join(w, x)):
                run(["gfortran", *[f for f in ff if not f.startswith("-fcheck")], "-c", x, "-o", x + ".o"], w)
                objs.append(x + ".o")
        run(["gcc", *fl, f"-I{incnp}", f"-I{incf2}", f"-I{incpy}", "-c", b + "module.c", "-o", "m.o"], w)
        run(["gcc", *fl, f"-I{incnp}", f"-I{incf2}", f"-I{incpy}", "-c", os.path.join(incf2, "fortranobject.c"), "-o", "fo.o"], w)
        run(["gfortran", "-shared", *objs, "m.o", "fo.o", "-o", os.path.join(pkg, b + suf)], w)
        shutil.rmtree(w)
    with cf.ThreadPoolExecutor(9) as ex:
        list(ex.map(one, kernels(repo)))
    return dest


if __name__ == "__main__":
    build(sys.argv[1], double="single" not in sys.argv[2:])
