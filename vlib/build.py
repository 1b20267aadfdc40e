"""Compile the two Cython extensions of the *current* /repo tree outside /repo.

The in-place .so files are only reused when their stamp proves that they were built from exactly the current .pyx
(same toolchain) and have not been touched since."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTS = {"pystruct.models.utils": ("src/utils.pyx", "pystruct/models/utils"),
        "pystruct.inference._viterbi": ("pystruct/inference/_viterbi.pyx", "pystruct/inference/_viterbi")}


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _versions():
    import Cython
    import numpy
    return sys.version, Cython.__version__, numpy.__version__


def _find_so(base):
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    p = base + suf
    return p if os.path.exists(p) else None


def ensure(san=False):
    """returns a directory with <dotted name>.so for both extensions"""
    root = repo()
    h = hashlib.sha256(repr((_versions(), san)).encode())
    for name, (pyx, _) in sorted(EXTS.items()):
        h.update(name.encode() + _sha(os.path.join(root, pyx)).encode())
    out = os.path.join(VERIF, "build", "ext-%s%s" % (h.hexdigest()[:20], "-san" if san else ""))
    if os.path.exists(os.path.join(out, "OK")):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ext-tmp-", dir=os.path.dirname(out))
    try:
        procs = []
        for name, (pyx, base) in EXTS.items():
            procs.append(_build_one(root, name, pyx, base, tmp, san))
        for p in procs:
            if p is None:
                continue
            o, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("extension build failed:\n" + o.decode(errors="replace"))
        open(os.path.join(tmp, "OK"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, "OK")):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _build_one(root, name, pyx, base, tmp, san):
    import numpy
    src = os.path.join(root, pyx)
    dst = os.path.join(tmp, name + ".so")
    if not san:
        so = _find_so(os.path.join(root, base))
        if so and _stamp_valid(root, pyx, src, so):
            shutil.copy(so, dst)
            return None
    # compile from a copy so that no .c file or __pycache__ appears in /repo; keep the module's base name because the
    # init function is called PyInit_<base>
    d = os.path.join(tmp, name + ".d")
    os.makedirs(d)
    b = os.path.basename(base)
    p = os.path.join(d, b + ".pyx")
    shutil.copy(src, p)
    flags = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer"] if san else ["-O2"]
    cc = ["gcc", "-shared", "-fPIC", "-pthread", "-fwrapv", "-w"] + flags + [
        "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(),
        os.path.join(d, b + ".c"), "-o", dst]
    if san:
        # -fwrapv would hide signed overflow from UBSan
        cc.remove("-fwrapv")
    import shlex
    sh = "%s -m cython -2 -o %s %s && %s" % (
        shlex.quote(sys.executable), shlex.quote(os.path.join(d, b + ".c")), shlex.quote(p),
        " ".join(shlex.quote(c) for c in cc))
    return subprocess.Popen(["sh", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)


def _stamp_valid(root, pyx, src, so):
    key = "%s %s %s %s " % (_versions() + (pyx,))
    d = os.path.join(root, "build", "vp")
    if not os.path.isdir(d):
        return False
    want = hashlib.sha256(key.encode() + open(src, "rb").read()).hexdigest() + " " + _sha(so)
    for f in os.listdir(d):
        if f.endswith(".stamp"):
            try:
                if open(os.path.join(d, f)).read().strip() == want:
                    return True
            except OSError:
                pass
    return False


if __name__ == "__main__":
    print(ensure("--san" in sys.argv))
