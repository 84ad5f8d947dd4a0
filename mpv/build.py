"""Builds the compiled module of /repo's working tree out of tree."""
import hashlib
import importlib.abc
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("MPV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
MODULE = "movement_primitives.dmp_fast"
PYX = os.path.join(REPO, "movement_primitives", "dmp_fast.pyx")
VARIANTS = ("normal", "bounds", "asan")

FLAGS = {
    "normal": ["-O2", "-DNDEBUG"],
    "bounds": ["-O1", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr",
             "-fno-sanitize-recover=undefined",
             "-ftrivial-auto-var-init=pattern"],
}


class BuildError(Exception):
    pass


def _sources():
    """Text of the pyx file and of everything it may include."""
    base = os.path.dirname(PYX)
    names = []
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".pxd", ".pxi")):
                names.append(os.path.join(root, f))
    names.append(PYX)
    return names


def fingerprint(variant):
    import Cython
    import numpy
    h = hashlib.sha256()
    for name in _sources():
        h.update(name.encode())
        with open(name, "rb") as f:
            h.update(f.read())
    h.update(repr((variant, FLAGS[variant], Cython.__version__,
                   numpy.__version__, sys.version, 4)).encode())
    return h.hexdigest()[:24]


def checked_source(text):
    """Source with all run time checks of Cython switched on."""
    text = re.sub(r"(boundscheck|nonecheck|initializedcheck)\s*(\(|=)\s*False",
                  r"\1\2True", text)
    return text


def build(variant):
    """Returns the path of the shared object, compiles it if necessary."""
    target_dir = os.path.join(BUILD, variant + "-" + fingerprint(variant))
    target = os.path.join(target_dir, "dmp_fast.so")
    if os.path.exists(target):
        return target
    tmp = target_dir + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    with open(PYX) as f:
        text = f.read()
    source = PYX
    if variant == "bounds":
        source = os.path.join(tmp, "dmp_fast.pyx")
        with open(source, "w") as f:
            f.write(checked_source(text))
    cplus = re.search(r"^#\s*distutils\s*:\s*language\s*=\s*c\+\+", text, re.M)
    c_file = os.path.join(tmp, "dmp_fast" + (".cpp" if cplus else ".c"))
    cmd = [sys.executable, "-W", "ignore", "-m", "cython", "-3",
           "--module-name", MODULE, "-I", REPO,
           "-I", os.path.dirname(PYX), "-o", c_file, source]
    if cplus:
        cmd.insert(-1, "--cplus")
    _run(cmd)
    import numpy
    cc = ["g++" if cplus else "gcc", "-shared", "-fPIC", "-w",
          "-fwrapv"] + FLAGS[variant]
    if variant == "asan":
        cc.remove("-fwrapv")
    cc += ["-I", sysconfig.get_paths()["include"], "-I", numpy.get_include(),
           "-I", os.path.dirname(PYX), c_file, "-lm",
           "-o", os.path.join(tmp, "dmp_fast.so")]
    _run(cc)
    try:
        os.rename(tmp, target_dir)
    except OSError:  # another process was faster
        shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(target):
        raise BuildError("no shared object")
    return target


def build_poison():
    """Path of the memory handler that fills new arrays with a pattern."""
    import numpy
    source = os.path.join(VERIF, "mpv", "poison.c")
    with open(source, "rb") as f:
        h = hashlib.sha256(f.read())
    h.update(repr((numpy.__version__, sys.version)).encode())
    target = os.path.join(BUILD, "mpv_poison-%s.so" % h.hexdigest()[:24])
    if not os.path.exists(target):
        os.makedirs(BUILD, exist_ok=True)
        tmp = target + ".tmp%d" % os.getpid()
        _run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-I",
              sysconfig.get_paths()["include"], "-I", numpy.get_include(),
              source, "-o", tmp])
        os.rename(tmp, target)
    return target


def load_poison():
    spec = importlib.util.spec_from_file_location("mpv_poison", build_poison())
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def sanitizer_library():
    """Runtime library that has to be loaded before the interpreter."""
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                       stdout=subprocess.PIPE, text=True, check=True)
    path = p.stdout.strip()
    if not os.path.isabs(path):
        raise BuildError("address sanitizer is not available")
    return path


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, cwd=VERIF)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname != MODULE:
            return None
        if self.path is None:
            raise ModuleNotFoundError(
                "No module named %r (left out on purpose)" % MODULE,
                name=MODULE)
        return importlib.util.spec_from_file_location(fullname, self.path)


def install(variant):
    """Make the package importable from /repo with a variant of the extension.

    variant "none" leaves the extension out.
    """
    assert not any(m.startswith("movement_primitives") for m in sys.modules)
    path = None if variant == "none" else build(variant)
    sys.meta_path.insert(0, _Finder(path))
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    import movement_primitives
    where = os.path.realpath(movement_primitives.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise BuildError("imported from " + where)
    return path
