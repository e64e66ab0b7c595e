"""C27: a rule set restored in a new process against the freshly parsed and the live one."""
import importlib.util
import os
import threading
import zlib

import pygeoip

from vh import core, everything, mailgen, oah, serial, world
from checks import c08, c13

match = None
SIDE = """import oa.plugins.base


class Side(oa.plugins.base.BasePlugin):
    eval_rules = ("side_rule",)
    options = {"side_word": ("str", "beta")}

    def side_rule(self, msg, target=None):
        return self["side_word"] in msg.text
"""
METAS = ["meta M1 BASE_T && !BASE_F", "meta M2 (BASE_T + SUBJ + M1) > 1", "tflags SUBJ nice", "priority BASE_T 5",
         "priority SUBJ -3", "describe BASE_T found _SCORE_ beta", "score SUBJ 0.5 1.5 2.5 3.5", "tflags BASE_T noautolearn",
         "body __SUB /gamma/", "meta M3 __SUB", "header EX exists:Subject", "header NM From:addr !~ /test/",
         "mimeheader MH Content-Type =~ /plain/", "rawbody RB /^beta/m", "full FU /t4go/i", "uri UR /link/",
         "score BASE_F 0", "report extra _TESTS_", "rewrite_header Subject [SPAM _SCORE_]", "lang en describe SUBJ en text",
         "required_score 2", "report_safe 0", "report_safe 2", "add_header spam Relay _LASTEXTERNALIP_",
         "dns_server 192.0.2.99:5353", "default_dns_timeout 2", "default_dns_lifetime 5", "dns_available yes",
         "dns_query_restriction deny example.com"]


def gen(rng, i, tier):
    case = {"seed": rng.randrange(1 << 30), "lazy": rng.random() < .6, "side": rng.random() < .25,
            "again": rng.random() < .4, "scans_before": rng.random() < .5, "kind": "everything" if i % 3 == 2 else "small",
            "extra": rng.sample(METAS, rng.choice([0, 2, 6, 12]))}
    if case["kind"] == "small":
        case["cfg"] = c08.gen_config(rng)
    else:
        keep = rng.choice([1, .5])
        case["skip"] = [x for x in c13.NAMES if rng.random() > keep]
        case["opts"] = rng.sample(c13.OPTS, rng.choice([0, 2, 5]))
    case["msgs"] = [mailgen.message(rng).decode("latin-1") for _ in range(2)]
    return case


def config(case, d):
    if case["kind"] == "small":
        text = c08.text_of(case["cfg"]) + "\n".join(case["extra"]) + "\n"
    else:
        text = everything.config(case["opts"], set(case["skip"]))
    if case["side"]:
        path = os.path.join(d, "side.py")
        oah.write(path, SIDE)
        text += "loadplugin Side %s\nbody SIDE_R eval:side_rule()\nside_word %s\n" % (
            path, "gamma" if case["seed"] % 2 else "the")
    return text


def snap(rs, case):
    """Everything comparable of a rule set, as a flat dict."""
    out = {}
    msgs = [world.text_of(m.encode("latin-1")) for m in case["msgs"]]
    if case["kind"] == "small":
        msgs = c08.MSGS + msgs
    asked = []
    old = oah.dns.resolver.Resolver.query

    def query(self, qname, rdtype="A", *a, **k):
        asked.append((str(qname), str(rdtype), tuple(self.nameservers), self.port, self.timeout, self.lifetime,
                      self.edns, self.rotate))
        return old(self, qname, rdtype, *a, **k)
    oah.dns.resolver.Resolver.query = query
    try:
        for n, raw in enumerate(msgs):
            msg = oah.scan(rs, raw)
            for k, v in world.outcome(rs, msg).items():
                out["m%d.%s" % (n, k)] = v
    finally:
        oah.dns.resolver.Resolver.query = old
    out["queries"] = asked
    # the options last: invalid values are dropped by the first message that needs them
    out.update(c08.snapshot(rs, scan=False))
    out["plugins"] = repr(sorted(rs.ctxt.plugins))
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, list) and isinstance(y, list):
                x, y = [v for v in x if v not in y][:4] or x[:4], [v for v in y if v not in x][:4] or y[:4]
            return k.split(".")[-1] if k[0] == "m" and k[1:2].isdigit() else k.split(".")[0], \
                "%s: %.500r, freshly parsed %.500r" % (k, x, y)
    return None


def run(case, obs):
    def go(fn, what):
        st, res = world.child(fn, 120)
        if st == "timeout":
            obs.inconclusive.append((what + " timeout", case))
            return None
        if st != "ok":
            obs.violation(what + "-" + st, res[-1200:])
            return None
        return res

    with oah.TempDir() as d:
        text = config(case, d)

        def load():
            oah.oa.config.LAZY_MODE = case["lazy"]
            return oah.load(text, lazy_mode=case["lazy"])[0]

        def live():
            rs = load()
            if case["scans_before"]:
                snap(rs, case)
            data = serial.dumps(rs)
            first = snap(rs, case)
            again = serial.dumps(rs)
            return data, again, first, snap(rs, case)

        def restored(data, post, again):
            oah.oa.config.LAZY_MODE = case["lazy"]
            rs = serial.loads(data)
            if post:
                match.call_post_parsing(rs)
            if again:
                data = serial.dumps(rs)
                return data, snap(rs, case)
            return None, snap(rs, case)

        fresh = go(lambda: snap(load(), case), "load")
        if fresh is None:
            return
        obs.count("hits_fresh", sum(len(v) for k, v in fresh.items() if k.endswith(".hits")))
        obs.count("queries_fresh", len(fresh["queries"]))
        res = go(live, "serialize")
        if res is None:
            return

        def compare(got, what):
            obs.count("compared_" + what)
            x = diff(got, fresh)
            if x:
                obs.violation("%s:%s" % (what, x[0]), x[1])
        data, again, one, two = res
        compare(one, "live")
        compare(two, "live")
        if case["side"]:
            return      # restoring plugins loaded from a path is not covered
        for blob, name in ((data, "restored"), (again, "restored-late")):
            # databases are only opened again by the match tool
            for post in ([True] if "RelayCountry" in text or "_dsn " in text else [False, True]):
                r = go(lambda: restored(blob, post, case["again"]), name)
                if r is None:
                    return
                compare(r[1], name + ("-tool" if post else ""))
                if r[0]:
                    obs.count("serialized_again")
                    r = go(lambda: restored(r[0], post, False), "restored-twice")
                    if r is not None:
                        compare(r[1], "restored-twice")
    obs.seen("sizes", len(data) // 4096)
    obs.nontrivial(text)
    obs.sample({"kind": case["kind"], "bytes": len(data), "side": case["side"], "rules": text.count("\n"),
                "hits": fresh["m0.hits"][:8]}, 3)


class GeoIP(object):
    """Stand-in for the country database, which is an open file and not on this machine."""

    def __init__(self, path):
        self.path = path
        self.lock = threading.Lock()

    def __reduce__(self):
        raise TypeError("an open database cannot be serialized")

    def country_code_by_addr(self, ip):
        return ["", "RO", "US", "JP"][zlib.crc32(ip.encode()) % 4]


def init(shard):
    global match
    pygeoip.GeoIP = GeoIP
    world.install()
    path = os.path.join(core.REPO, "scripts", "match.py")
    spec = importlib.util.spec_from_file_location("oa_match_tool", path)
    match = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(match)


if __name__ == "__main__":
    core.main("C27", gen, run, (60, 900),
              "random configurations over all bundled plugins serialized with the tool's serializer and restored in "
              "new processes, as they are and through the match tool's post processing, once and twice; options, "
              "networks, DNS settings, hits, scores, reports and messages against the freshly parsed rule set",
              require={"hits_fresh": 500, "compared_live": 60, "compared_restored": 8, "compared_restored-tool": 20,
                       "serialized_again": 16, "queries_fresh": 30}, init=init, case_timeout=320)
