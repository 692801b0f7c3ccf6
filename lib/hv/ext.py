"""Builds the native kernels of the code under test in a scratch directory, with the
repository's own setup.py, and puts the result ahead of any binary lying in the tree."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

from . import core

EXTS = ("metaT9", "metaGQ12", "metaDKT", "metaDKQ", "metaTMQb", "metaTMQs")
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"


class BuildError(Exception):
    pass


def build(sanitize=False, opt="-O1"):
    """returns the directory holding the six extension modules; it is removed at exit"""
    dest = tempfile.mkdtemp(prefix="hv_ext_")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(dest, ignore_errors=True))
    src = os.path.join(dest, "src")
    keep = (".pyx", ".pxd", ".pxi", ".c", ".h", ".py")
    for top, dirs, files in os.walk(os.path.join(core.REPO, "hyperstatic")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        out = os.path.join(src, os.path.relpath(top, core.REPO))
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f.endswith(keep) and not (f.endswith(".c") and f[:-2] + ".pyx" in files):
                shutil.copyfile(os.path.join(top, f), os.path.join(out, f))
    shutil.copyfile(os.path.join(core.REPO, "setup.py"), os.path.join(src, "setup.py"))
    env = dict(os.environ, CC="gcc", CFLAGS="%s -g0 %s" % (opt, SAN if sanitize else ""), LDFLAGS="-fsanitize=address,undefined" if sanitize else "")
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "-j", "6"], cwd=src, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    missing = [e for e in EXTS if not any(f.startswith(e + ".") and f.endswith(".so") for f in os.listdir(src))]
    if r.returncode or missing:
        raise BuildError("building the kernels failed: %s\n%s" % (missing, r.stdout[-3000:]))
    lib = os.path.join(dest, "lib")
    os.makedirs(lib)
    for f in os.listdir(src):
        if f.endswith(".so"):
            shutil.copyfile(os.path.join(src, f), os.path.join(lib, f))
    shutil.rmtree(src)
    return lib


def prepare(tier=None):
    """for the `prepare` of a check that needs the kernels"""
    core.setup_path(build())
    import importlib
    for e in EXTS:
        m = importlib.import_module(e)
        assert "hv_ext_" in m.__file__, m.__file__
