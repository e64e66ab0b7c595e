"""Preferences of users live below a scratch root: every access to .../user_prefs or /home goes there.

LOG records the paths that were asked for, so that a check sees which files a request opened."""
import builtins
import io
import os

ROOT = [None]
LOG = []
_real = {}


def real(path):
    """Where a path of the real system is looked up."""
    if ROOT[0] is None or not isinstance(path, (str, bytes)):
        return path
    p = path.decode("utf8", "surrogateescape") if isinstance(path, bytes) else path
    if p.startswith((ROOT[0], os.environ.get("VERIF_SCRATCH", ROOT[0]))):
        return path
    if p.startswith("/home/") or p == "/home" or p.endswith("/user_prefs") or "/.spamassassin" in p:
        LOG.append(p)
        return ROOT[0] + os.path.normpath("/" + p)
    return path


def _wrap(mod, name):
    orig = getattr(mod, name)

    def wrapper(path, *args, **kwargs):
        return orig(real(path), *args, **kwargs)
    wrapper.__name__ = name
    setattr(mod, name, wrapper)


def install(root):
    first = ROOT[0] is None
    ROOT[0] = root
    del LOG[:]
    if first and not _real:
        _real["done"] = True
        for name in ("stat", "lstat", "access", "open", "listdir", "scandir"):
            _wrap(os, name)
        _wrap(builtins, "open")
        io.open = builtins.open


def prefs(root, user, text):
    path = os.path.join(root, "home", user, ".spamassassin", "user_prefs")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".new", "wb") as f:
        f.write(text.encode("iso-8859-1"))
    os.rename(path + ".new", path)
    return path
