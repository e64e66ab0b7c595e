"""C24: which DNS questions leave the process, and what the answers make of the blocklist rules."""
import hashlib
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ipaddress

import dns.exception
import dns.name
import dns.resolver

from vh import core, oah, world
from checks import c09

PUBLIC4 = [[8, 8], [93, 184], [150, 1], [17, 3]]
PRIVATE4 = [[10, 1], [172, 20], [192, 168], [172, 31], [169, 254]]
ZONES = ["bl.example.com", "zen.test.org", "List.Example.NET", "example.com", "deep.er.zone.test", "rbl.local.", "a.b.c.d.e.test"]
SENDERS = ["example.org", "mail.Example.org", "sub.sub.example.org", "x.test", "nodots", "b\xfccher.example", "a..b", ".lead.test",
           "trail.test.", "y" * 64 + ".test", ".".join(["z" * 60] * 5), "under_score.test", "1.2.3.4", "[1.2.3.4]", "-", "*.test",
           "x" * 63 + ".test", "\\300.test"]
ENVELOPE = ["example.org", "mail.Example.org", "sub.sub.example.org", "x.test", "nodots", "a..b", "y" * 64 + ".test",
            ".".join(["z" * 60] * 5), "under_score.test", "1.2.3.4", "x" * 63 + ".test"]
FAILS = {"NXDOMAIN": dns.resolver.NXDOMAIN, "NoAnswer": dns.resolver.NoAnswer, "NoNameservers": dns.resolver.NoNameservers,
         "Timeout": dns.exception.Timeout, "OSError": OSError, "YXDOMAIN": dns.resolver.YXDOMAIN}
SUBTESTS = [r"127\.0\.0\.2$", r"127\.0\.0\.[23]$", "127.0.0.1", r"^127\.0\.1\.\d+$", r"127\.0\.(0\.[13]|1\.[24])$", r"10\."]
TXTTESTS = [".*listed", r".*spam \d+", ".*nothing like it", r'.*"?listed 1']
MASKS = ["1", "2", "4", "8", "12", "0.0.1.0", "127.0.0.2", "0.0.0.16", "2130706434", "65536"]
ACCRED = ["acc1", "habeas", "Acc1", "xyz9"]


def genip(rng, kind):
    if kind == "pub6":
        return str(ipaddress.IPv6Address((0x2a01 << 112) | rng.getrandbits(rng.choice([8, 60, 100]))))
    if kind == "priv6":
        return str(ipaddress.IPv6Address((rng.choice([0xfd00, 0xfe80]) << 112) | rng.getrandbits(60)))
    root = rng.choice(PUBLIC4 if kind == "pub" else PRIVATE4)
    return "%d.%d.%d.%d" % (root[0], root[1], rng.choice([0, 1, 77, 255]), rng.randrange(1, 255))


def gen(rng, i, tier):
    ips = [genip(rng, rng.choice(["pub", "pub", "pub", "pub6", "priv", "priv6"])) for _ in range(6)]
    nets = []
    if rng.random() < .6:
        for _ in range(rng.choice([1, 2, 3])):
            ip = rng.choice(ips)
            text = ip
            if ":" not in ip and rng.random() < .4:
                text = ".".join(ip.split(".")[:3]) + ".0/24"
            neg = rng.random() < .15
            nets.append([rng.choice(["trusted_networks", "trusted_networks", "internal_networks"]), ("!" if neg else "") + text])
    rules = []
    zones = rng.sample(ZONES, rng.choice([1, 2, 3]))
    for k in range(rng.choice([1, 2, 4, 6])):
        kind = rng.choice(["rbl", "rbl", "rbl_txt", "sub", "sub", "dns_sender", "envfrom", "from_host", "from_domain", "accreditor"])
        z = rng.randrange(len(zones))
        sub = None
        if kind == "rbl_txt":
            sub = rng.choice(TXTTESTS + [None])
        elif kind == "sub":
            sub = rng.choice(MASKS)
        elif kind == "accreditor" or rng.random() < .6:
            sub = rng.choice(SUBTESTS)
        rules.append([kind, z, sub, rng.choice(ACCRED), rng.choice(["", "", "-lastexternal"]), rng.random() < .1])
    chain = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        chain.append([rng.choice(ips), bool(nets) and rng.random() < .12])
    names = list(zones) + ["com", "test", "EXAMPLE.com", "org", "net"] + [s for s in SENDERS if re.match(r"^[A-Za-z.]+$", s)]
    restrict = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        n = rng.choice(names).strip(".")
        if chain and rng.random() < .35:
            # one address (or block) of one list
            rev = reverse(rng.choice(chain)[0]).split(".")
            n = ".".join(rev[rng.randrange(len(rev)):]) + "." + rng.choice(zones).strip(".")
        if rng.random() < .3:
            n = n.upper() if rng.random() < .5 else n + "."
        restrict.append([rng.choice(["deny", "deny", "allow"]), n])
    avail = rng.choice(["yes", "yes", "yes", "yes", "no", "test: up.check.test", "test: down.check.test", "test",
                        "test: down.check.test up.check.test", "test:down.check.test down2.check.test down3.check.test up.check.test"])
    return {"nets": nets, "rules": rules, "zones": zones, "chain": chain, "restrict": restrict, "avail": avail,
            "skip": rng.random() < .1, "interval": rng.choice([None, "600", "0", "1w", "0s", "10m"]),
            "sender": rng.choice([None, "plain", "acc"]), "domain": rng.choice(ENVELOPE), "tag": rng.choice(ACCRED),
            "from": [rng.choice(SENDERS) for _ in range(rng.choice([0, 1, 1, 2]))],
            "acch": [rng.choice(ACCRED) for _ in range(rng.choice([0, 0, 1, 2]))],
            "seed": rng.randrange(1 << 30), "fail": rng.choice([.2, .5, .8]), "messages": rng.choice([1, 1, 2, 3]),
            "life": rng.choice([None, ["3.5", "1.5"], ["0.5", "0.25"]]), "server": rng.choice([None, "127.0.0.1", "[::1]:5353", "10.1.2.3:54"])}


def reverse(ip):
    ip = ipaddress.ip_address(ip)
    if ip.version == 4:
        return ".".join(reversed(str(ip).split(".")))
    return ".".join(reversed("%032x" % int(ip)))


def canon(name):
    return name.rstrip(".").lower()


class Answers(object):
    def __init__(self, case):
        self.case = case

    def __call__(self, name, rd):
        """-> list of texts, or the name of a failure: a function of the question alone."""
        c = self.case
        name = canon(name)
        if name.endswith("check.test"):
            return ["127.0.0.1"] if name.startswith("up.") else "NXDOMAIN"
        rng = random.Random(hashlib.md5(("%d/%s/%s" % (c["seed"], name, rd)).encode("utf8")).hexdigest())
        if rng.random() < c["fail"]:
            return rng.choice(sorted(FAILS))
        n = rng.choice([1, 1, 2, 3])
        if rd == "A":
            return ["127.0.%d.%d" % (rng.choice([0, 0, 1]), rng.choice([1, 2, 3, 4, 10, 16])) for _ in range(n)]
        if rd == "TXT":
            return ['"%s"' % rng.choice(["listed %d" % rng.randrange(3), "spam 10", "see http://x.test/"]) for _ in range(n)]
        return ["10 mx%d.test." % k for k in range(n)]


class Recorder(object):
    """Stands for the resolver: records each question, reads it like dnspython and gives the scripted answer."""

    def __init__(self, answers):
        self.answers, self.log, self.state = answers, [], []

    def __call__(self, resolver, qname, rdtype="A", *args, **kwargs):
        name = str(qname)
        rd = str(rdtype)
        self.log.append((canon(name), rd))
        if resolver is not None:
            self.state.append((resolver.lifetime, resolver.timeout, list(resolver.nameservers), resolver.port))
        parsed = dns.name.from_text(name) if not isinstance(qname, dns.name.Name) else qname
        got = self.answers(name, rd)
        if isinstance(got, str):
            raise FAILS[got]()
        return world.Ans("x.test.", rd, got)


def valid(name):
    try:
        dns.name.from_text(name)
        return True
    except Exception:
        return False


class Model(object):
    def __init__(self, case):
        self.c, self.answers = case, Answers(case)
        self.restrict = {}
        for verb, name in case["restrict"]:
            self.restrict[canon(name)] = verb == "deny"
        conf = {"trusted_networks": [], "internal_networks": []}
        for n, text in case["nets"]:
            t = text.lstrip("!")
            net = ipaddress.ip_network(t)
            conf[n].append((text, net.version, int(net[0]), int(net[-1]), text.startswith("!")))
        t, i = conf["trusted_networks"], conf["internal_networks"]
        loop = [("l", 4, 127 << 24, (128 << 24) - 1, False), ("l", 6, 1, 1, False)]
        self.trusted = loop + t + i
        self.configured = bool(t or i)
        trusted, self.untrusted = True, []
        for ip, auth in case["chain"]:
            a = ipaddress.ip_address(ip)
            private = ip.startswith(("10.", "172.20.", "172.31.", "192.168.", "169.254.", "fd", "fe80"))
            if trusted:
                if self.configured:
                    trusted = auth or c09.Model.member(self.trusted, a.version, int(a))
                else:
                    trusted = private
            if not trusted and not private:
                self.untrusted.append(ip)

    def denied(self, name):
        labels = canon(name).split(".")
        for k in range(len(labels)):
            n = ".".join(labels[k:])
            if n in self.restrict:
                return self.restrict[n]
        return False

    def lookup(self, name, rd, up):
        """-> (answers, asked)"""
        if not up or self.denied(name):
            return [], False
        if not valid(name):
            return [], None
        got = self.answers(name, rd)
        return ([] if isinstance(got, str) else got), True

    def rule(self, rule, up):
        """-> (hit, [questions that may be sent, in order])"""
        kind, z, sub, acc, _, _ = rule
        c, zone = self.c, self.c["zones"][z]
        sender = envelope(c)
        if kind == "dns_sender":
            if not sender:
                return False, []
            dom = sender.rsplit("@", 1)[1]
            asks, hit = [], True
            for rd in ("A", "MX"):
                got, asked = self.lookup(dom, rd, up)
                asks.append((canon(dom), rd, asked))
                if got:
                    hit = False
            return hit, asks
        if c["skip"]:
            return False, []
        if kind in ("rbl", "rbl_txt", "sub", "accreditor"):
            if kind == "accreditor":
                tags = list(c["acch"])
                m = re.search(r"[@.]a--([a-z0-9]{3,})\.", sender or "", re.I)
                if m:
                    tags.append(m.group(1))
                if acc not in tags:
                    return False, []
            names = [reverse(ip) for ip in self.untrusted]
        elif kind == "envfrom":
            names = [sender.rsplit("@", 1)[1]] if sender else []
        else:
            names = list(c["from"])
        rd = "TXT" if kind == "rbl_txt" else "A"
        asks, hit = [], False
        for n in names:
            got, asked = self.lookup("%s.%s" % (n, zone), rd, up)
            asks.append((canon("%s.%s" % (n, zone)), rd, asked))
            for g in got:
                if sub is None:
                    hit = True
                elif kind == "sub":
                    mask = int(sub) if sub.isdigit() else int(ipaddress.ip_address(sub))
                    hit = hit or bool(int(ipaddress.ip_address(g)) & mask)
                else:
                    hit = hit or bool(re.match(sub, g))
        return hit, asks


def envelope(c):
    if c["sender"] is None:
        return None
    if c["sender"] == "acc":
        return "owner@a--%s.%s" % (c["tag"], c["domain"])
    return "owner@" + c["domain"]


def raw(c):
    s = envelope(c)
    h = []
    for k, (ip, auth) in enumerate(c["chain"]):
        h.append("Received: from helo%d.example.org ([%s])\n by mx%d.example.com with esmtps%s (Exim 4.85)%s\n id 1aaNAy-0006f%d-LZ"
                 " for u@example.com; Mon, 01 Jan 2018 00:00:0%d +0000"
                 % (k, ip, k, "a" if auth else "", "\n (envelope-from <%s>)" % s if s else "", k, k))
    if s:
        h.append("X-From: <%s>" % s)
    if c["acch"]:
        h.append("Accreditor: " + "; ".join("%s, parm=v%d" % (a, k) for k, a in enumerate(c["acch"])))
    h += ["From: \"A B\" <u@%s>" % d for d in c["from"]]
    return "\n".join(h + ["To: b@example.com", "Subject: s", "", "text", ""])


def config(c):
    out = ["loadplugin oa.plugins.dns_eval.DNSEval", "envelope_sender_header X-From", "dns_available " + c["avail"]]
    out += ["%s %s" % tuple(n) for n in c["nets"]]
    for k, r in enumerate(c["restrict"]):
        if len(r[1]) % 2:   # an invalid line changes nothing
            out.append("dns_query_restriction " + ["nothing", "refuse example.org"][k % 2])
        out.append("dns_query_restriction %s %s" % tuple(r))
    if c["skip"]:
        out.append("skip_rbl_checks 1")
    if c["interval"]:
        out.append("dns_test_interval " + c["interval"])
    if c["life"]:
        out += ["default_dns_lifetime " + c["life"][0], "default_dns_timeout " + c["life"][1]]
    if c["server"]:
        out.append("dns_server " + c["server"])
    used = set()
    for n, (kind, z, sub, acc, suffix, zero) in enumerate(c["rules"]):
        zone = c["zones"][z]
        if kind in ("rbl", "rbl_txt", "envfrom", "from_host", "from_domain", "accreditor"):
            args = ["z%d%s" % (z, suffix), zone]
            if kind == "accreditor":
                args += [sub, acc]
            elif sub:
                args.append(sub)
            used.add(z)
        elif kind == "sub":
            args = ["z%d" % z, sub]
        else:
            args = []
        out.append("header R%d eval:check_%s(%s)" % (n, kind if kind in ("rbl", "dns_sender", "rbl_txt") else "rbl_" + kind,
                                                   ", ".join("'%s'" % a for a in args)))
        if zero:
            out.append("score R%d 0" % n)
    for z in range(len(c["zones"])):
        # the zones of the masks are defined by some rule
        if z not in used:
            out.append("header Z%d eval:check_rbl('z%d', '%s', 'never')" % (z, z, c["zones"][z]))
    return "\n".join(out) + "\n", used


def run(case, obs):
    c = case
    cf, used = config(c)
    model = Model(c)
    rec = Recorder(model.answers)
    oah.NET.queries[:] = []
    oah.NET.default = None
    text = raw(c)
    names = [x for x in c["avail"].split(":")[1].split()] if ":" in c["avail"] else None
    testing = c["avail"].startswith("test")
    import dns.resolver as dr
    old = dr.Resolver.query
    dr.Resolver.query = lambda self, *a, **k: rec(self, *a, **k)
    try:
        rs, parser = oah.load(cf)
        obs.count("config_errors", len(parser.ctxt.errors) if hasattr(parser.ctxt, "errors") else 0)
        obs.expect(not rec.log, "query-on-load", "questions sent while the configuration was read: %s", rec.log[:3])
        every = c["interval"] in ("0", "0s")
        tested, up = False, c["avail"] != "no"
        for _ in range(c["messages"]):
            rec.log[:] = []
            msg = oah.scan(rs, text)
            got = set(oah.hits(msg))
            log = list(rec.log)
            obs.count("messages")
            obs.count("questions", len(log))
            rest = []
            run_ = []        # the running availability test
            tests = []
            for q in log:
                if testing and q[1] == "A" and (q[0] in names if names else "." in q[0] and q[0] in DEFAULT):
                    run_.append(q[0])
                    if not isinstance(model.answers(*q), str) or len(run_) == min(3, len(names) if names else 20):
                        tests.append(run_)
                        run_ = []
                else:
                    obs.expect(not run_, "test-cut", "%s asked amid the availability test %s", q, run_)
                    rest.append(q)
            obs.expect(not run_, "test-cut", "availability test stopped after %s", run_)
            for t in tests:
                obs.count("availability_tests")
                obs.expect(len(set(t)) == len(t), "test-twice", "name tested twice: %s", t)
            verdicts = [any(not isinstance(model.answers(n, "A"), str) for n in t) for t in tests]
            mixed = False
            if testing:
                if not every:
                    obs.expect(len(tests) <= (0 if tested else 1), "test-again", "%d tests within dns_test_interval %s\n%s",
                               len(tests), c["interval"], cf)
                if tests:
                    tested = True
                    up = verdicts[-1]
                    mixed = len(set(verdicts)) > 1
                elif not tested:
                    up = None       # nothing was to be asked
            if c["avail"] == "no":
                obs.expect(not log, "unavailable", "questions sent with dns_available no: %s", log)
            # the questions
            allowed = set()
            for q in rest:
                obs.expect(not model.denied(q[0]), "denied", "%s was asked against the restrictions\n%s", q, cf)
            for q in rest:
                if up is None:
                    obs.expect(False, "untested", "%s asked before any availability test", q)
            rules = [("R%d" % n, r) for n, r in enumerate(c["rules"])]
            rules += [("Z%d" % z, ["rbl", z, "never", None, "", False]) for z in range(len(c["zones"])) if z not in used]
            for name, r in rules:
                if r[5]:
                    obs.count("zero_rules")
                    obs.expect(name not in got, "zero-score", "a rule with score zero hit")
                    continue
                hit, asks = model.rule(r, bool(up) or mixed)
                for n, rd, asked in asks:
                    if asked is not False:
                        allowed.add((n, rd))
                    else:
                        obs.count("denied" if up else "not_available")
                if mixed:
                    continue
                obs.count("rules")
                obs.count("hits" if hit else "misses")
                obs.seen("rule_kinds", "%s/%s" % (r[0], hit))
                obs.expect((name in got) == hit, "hit:" + r[0], "%s %s: hit is %s, the answers say %s\nasked %s of %s\n%s\n%s",
                           name, r, name in got, hit, log, asks, cf, text)
                if not hit and up:
                    # all of it had to be asked
                    for n, rd, asked in asks:
                        if asked:
                            obs.count("required_questions")
                            obs.expect((n, rd) in rest or r[0] == "dns_sender", "not-asked:" + r[0], "%s never asked %s %s\n%s\n%s",
                                       name, n, rd, cf, text)
                        elif asked is None:
                            obs.count("invalid_names")
            for q in rest:
                obs.expect(q in allowed, "asked", "%s was asked; the rules look up %s\n%s\n%s", q, sorted(allowed), cf, text)
            private = [ip for ip, _ in c["chain"] if ip not in model.untrusted]
            obs.count("addresses_kept_private", len(private))
            obs.count("addresses_looked_up", len(model.untrusted))
        for life, timeout, servers, port in rec.state:
            if c["life"]:
                obs.count("timed_questions")
                obs.expect((life, timeout) == (float(c["life"][0]), float(c["life"][1])), "timeout",
                           "asked with lifetime %s, timeout %s\n%s", life, timeout, cf)
            if c["server"]:
                m = re.match(r"^\[?([^\]]*?)\]?(?::(\d+))?$", c["server"])
                obs.expect(servers == [m.group(1)] and port == int(m.group(2) or 53), "server", "asked %s port %s\n%s", servers, port, cf)
        if rec.state:
            obs.nontrivial(cf, text)
    finally:
        dr.Resolver.query = old
    obs.sample({"config": cf, "message": text}, 3)


DEFAULT = set(("adelphia.net akamai.com apache.org cingular.com colorado.edu comcast.net doubleclick.com ebay.com gmx.net google.com "
               "intel.com kernel.org linux.org mit.edu motorola.com msn.com sourceforge.net sun.com w3.org yahoo.com").split())


if __name__ == "__main__":
    core.main("C24", gen, run, (4000, 100000),
              "random relay chains (IPv4/IPv6, public, private, trusted, authenticated), zones, rules of every kind, restriction lists "
              "in any spelling, availability modes, valid and invalid domains, answers and failures of each kind by question",
              require={"questions": 2000, "hits": 500, "misses": 500, "denied": 100, "not_available": 100, "required_questions": 500,
                       "availability_tests": 100, "addresses_kept_private": 500, "invalid_names": 50})
