"""Helpers that drive OrangeAssassin through its public entry points."""
import logging
import os
import shutil
import sys
import tempfile
import warnings

from vh import core

warnings.simplefilter("ignore")
_log = logging.getLogger("oa-logger")
_log.addHandler(logging.NullHandler())
_log.propagate = False
_log.setLevel(logging.CRITICAL + 10)
for _name in ("spf", "dkim", "pyzor", "PIL"):
    logging.getLogger(_name).setLevel(logging.CRITICAL + 10)

import oa  # noqa: E402
assert oa.__file__.startswith(core.REPO + "/"), oa.__file__
import dns.resolver  # noqa: E402
import oa.config  # noqa: E402
import oa.errors  # noqa: E402
import oa.message  # noqa: E402
import oa.rules.parser  # noqa: E402


class NoNet(object):
    """Nothing leaves the process: every DNS query is answered by this table and recorded."""

    def __init__(self):
        self.queries = []
        self.answers = {}
        self.default = None

    def __call__(self, resolver, qname, rdtype="A", *args, **kwargs):
        name = str(qname).rstrip(".")
        rd = rdtype if isinstance(rdtype, str) else str(rdtype)
        self.queries.append((name, rd))
        if (name, rd) in self.answers:
            a = self.answers[(name, rd)]
            if isinstance(a, type) and issubclass(a, BaseException):
                raise a()
            return a
        if self.default is not None:
            return self.default(name, rd)
        raise dns.resolver.NXDOMAIN()


NET = NoNet()
dns.resolver.Resolver.query = lambda self, *a, **k: NET(self, *a, **k)


def tmpdir(prefix="case-"):
    return tempfile.mkdtemp(prefix=prefix, dir=core.SCRATCH)


class TempDir(object):
    def __enter__(self):
        self.path = tmpdir()
        return self.path

    def __exit__(self, *a):
        if self.path.startswith(core.SCRATCH + "/"):
            shutil.rmtree(self.path, ignore_errors=True)


def write(path, text, encoding="iso-8859-1"):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as f:
        f.write(text.encode(encoding) if isinstance(text, str) else text)
    return path


def load(cf, paranoid=False, lazy_mode=True):
    """Parse configuration text (or list of texts = files) and return (ruleset, parser)."""
    texts = [cf] if isinstance(cf, str) else list(cf)
    with TempDir() as d:
        parser = oa.rules.parser.PADParser(paranoid=paranoid, lazy_mode=lazy_mode)
        for n, t in enumerate(texts):
            parser.parse_file(write(os.path.join(d, "%02d.cf" % n), t))
        return parser.get_ruleset(), parser


def scan(ruleset, raw):
    msg = oa.message.Message(ruleset.ctxt, raw)
    ruleset.match(msg)
    return msg


def hits(msg):
    return [n for n, r in msg.rules_checked.items() if r]


class lazy(object):
    """Run a block with oa's LAZY_MODE set."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.old = oa.config.LAZY_MODE
        oa.config.LAZY_MODE = self.value

    def __exit__(self, *a):
        oa.config.LAZY_MODE = self.old
