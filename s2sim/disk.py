"""The simulated process's disk: its home, temporary and package directories.

Every worker lives in a scratch directory that is its HOME, TMPDIR and working
directory and holds a mirror of the package directory (``__file__`` of the
loaded modules points there). It is emptied before every scenario, files in it
survive a simulated crash, and the solo oracle sees an empty disk. s2wav does
no I/O today; all of this is for code that starts to.
"""
import contextlib
import os
import shutil
import sys

from . import boot

ROOT = os.environ.get("S2SIM_HOME")
SITE = os.path.join(ROOT, "site") if ROOT else None
_base = set()
READS = set()  # paths s2wav frames looked at, relative to ROOT


def _walk():
    out = {}
    if ROOT:
        for d, ds, fs in os.walk(ROOT):
            for f in fs + ds:
                p = os.path.join(d, f)
                out[p] = os.path.isdir(p) and not os.path.islink(p)
    return out


def start():
    """Mirror the package and remember what belongs to the empty disk."""
    if not ROOT or _base:
        return
    shutil.copytree(os.path.join(boot.REPO, "s2wav"), os.path.join(SITE, "s2wav"), ignore=shutil.ignore_patterns("__pycache__"))
    _base.update(_walk())
    _patch()


def site(path):
    """Where module file `path` of the tree under test pretends to lie."""
    if not ROOT or not _base:
        return path
    return os.path.join(SITE, os.path.relpath(path, boot.REPO))


def extra():
    """Files and directories that are not part of the empty disk."""
    if not ROOT or not _base:
        return []
    return sorted(p for p in _walk() if p not in _base)


def stamp():
    out = {}
    for p in extra():
        try:
            st = os.lstat(p)
            out[p] = (st.st_size, st.st_mtime_ns, st.st_ino)
        except OSError:
            pass
    return out


def wipe():
    for p in reversed(extra()):
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            with contextlib.suppress(OSError):
                os.remove(p)


@contextlib.contextmanager
def empty():
    """An empty disk meanwhile; what was there comes back afterwards."""
    ex = extra()
    if not ex:
        try:
            yield
        finally:
            wipe()
        return
    hold = ROOT + ".held"
    n = 0
    while os.path.exists(hold):
        n += 1
        hold = ROOT + f".held{n}"
    for p in ex:
        q = os.path.join(hold, os.path.relpath(p, ROOT))
        if os.path.isdir(p) and not os.path.islink(p):
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy2(p, q, follow_symlinks=False)
    wipe()
    try:
        yield
    finally:
        wipe()
        shutil.copytree(hold, ROOT, dirs_exist_ok=True, symlinks=True)
        shutil.rmtree(hold, ignore_errors=True)


def tear(before):
    """Cut the files written since `before` in half; their names."""
    out = []
    for p, st in stamp().items():
        if before.get(p) != st and os.path.isfile(p) and not os.path.islink(p):
            os.truncate(p, st[0] // 2)
            out.append(os.path.relpath(p, ROOT))
    return out


def _note(path):
    try:
        p = os.path.abspath(os.fsdecode(path))
    except (TypeError, ValueError):
        return
    if p.startswith(ROOT + os.sep) and p not in _base and not p.startswith(os.path.join(ROOT, "tmp", "stderr")):
        READS.add(os.path.relpath(p, ROOT))


def _ours():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        n = f.f_globals.get("__name__", "")
        if isinstance(n, str) and (n == "s2wav" or n.startswith("s2wav.")):
            return True
        if isinstance(n, str) and n.startswith(("importlib", "jax", "torch")):
            return False
        f = f.f_back
    return False


def _patch():
    def hook(ev, args):
        if ev == "open" and isinstance(args[0], (str, bytes)) and _ours():
            _note(args[0])

    sys.addaudithook(hook)
    real = os.stat

    def stat(path, *a, **k):
        if isinstance(path, (str, bytes, os.PathLike)) and _ours():
            _note(path)
        return real(path, *a, **k)

    os.stat = stat


def plant(rng):
    """Somebody else's files, where the code looks for its own."""
    n = 0
    for r in sorted(READS):
        p = os.path.join(ROOT, r)
        if not os.path.lexists(p):
            with contextlib.suppress(OSError):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(rng.choice((b"", b"1", b"{}", b"1e-3\n")))
                n += 1
    return n
