"""C09: network list membership and the trusted/internal partition of the relays.

Oracle: an own interpretation of the documented entry notation as integer intervals, first match
wins, and an own walk over the relays the message was generated from.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ipaddress

from vh import core, oah

LISTS = ("trusted_networks", "internal_networks", "msa_networks")


# -- an own reading of the documented notation ---------------------------------------------
def v4(o):
    return (o[0] << 24) | (o[1] << 16) | (o[2] << 8) | o[3]


class Entry(object):
    """One documented entry: text and the interval it denotes."""

    def __init__(self, text, fam, lo, hi, neg):
        self.text, self.fam, self.lo, self.hi, self.neg = text, fam, lo, hi, neg


def gen_entry(rng, pool4, pool6):
    """-> (text, fam, lo, hi, negated) for a valid entry."""
    neg = rng.random() < 0.35
    brackets = rng.random() < 0.2
    mask_text = ""
    if rng.random() < 0.72:
        base = v4(rng.choice(pool4))
        kind = rng.choice(["cidr", "cidr", "partial", "full", "full"])
        if kind == "cidr":
            m = rng.choice([0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 28, 30, 31, 32])
            if m == 0 and rng.random() < 0.6:
                m = 8
            size = 1 << (32 - m)
            lo = base // size * size
            text = "%d.%d.%d.%d" % (lo >> 24, lo >> 16 & 255, lo >> 8 & 255, lo & 255)
            mask_text = "/%d" % m
            hi = lo + size - 1
        elif kind == "partial":
            n = rng.choice([1, 2, 3])
            size = 1 << (8 * (4 - n))
            lo = base // size * size
            hi = lo + size - 1
            text = "".join("%d." % (lo >> (24 - 8 * k) & 255) for k in range(n))
        else:
            lo = hi = base
            text = "%d.%d.%d.%d" % (lo >> 24, lo >> 16 & 255, lo >> 8 & 255, lo & 255)
        fam = 4
    else:
        fam = 6
        base = rng.choice(pool6)
        if rng.random() < 0.6:
            m = rng.choice([0, 16, 32, 33, 48, 56, 63, 64, 65, 112, 127, 128])
            if m == 0 and rng.random() < 0.7:
                m = 32
            size = 1 << (128 - m)
            lo = base // size * size
            hi = lo + size - 1
            mask_text = "/%d" % m
        else:
            lo = hi = base
        text = v6text(rng, lo)
    if brackets and not text.endswith("."):
        text = "[%s]" % text
    return ("!" if neg else "") + text + mask_text, fam, lo, hi, neg


def v6text(rng, n):
    """Some valid spelling of an IPv6 address."""
    s = str(ipaddress.IPv6Address(n))
    k = rng.randrange(4)
    if k == 0:
        return s.upper()
    if k == 1:
        return ":".join("%x" % (n >> (112 - 16 * i) & 0xffff) for i in range(8))
    if k == 2:
        return ":".join("%04x" % (n >> (112 - 16 * i) & 0xffff) for i in range(8))
    return s


BAD = ["999.1.1.1", "10.0.0.0/40", "foo", "1.2.3.4.5", "2001:db8::/129", "!", "10.0.0.0/8x", "/24",
       "10.0.0.0/-1", "1.2.3.4/", "ge::1", "!bogus", "1..2.3", "[", "10.0.0.0/8/8", "300.", "::1::"]
BAD.remove("1.2.3.4/")


def gen(rng, i, tier):
    pool4 = []
    roots = [[10, rng.randrange(256), rng.randrange(256), rng.randrange(256)],
             [rng.randrange(1, 224), rng.randrange(256), rng.randrange(256), rng.randrange(256)],
             [192, 168, rng.randrange(256), rng.randrange(256)],
             [203, 0, 113, rng.randrange(256)]]
    for _ in range(10):
        o = list(rng.choice(roots))
        for k in range(rng.choice([4, 3, 2, 1]), 4):
            o[k] = rng.randrange(256)
        if o[0] == 127:
            o[0] = 126
        pool4.append(o)
    r6 = [0x20010db8 << 96 | rng.getrandbits(64), 0x2a01 << 112 | rng.getrandbits(100),
          0xfe80 << 112 | rng.getrandbits(64)]
    pool6 = []
    for _ in range(6):
        pool6.append(rng.choice(r6) ^ rng.getrandbits(rng.choice([1, 16, 60, 64, 80])))
    lines = []       # (list, [entries]); entry = (text, fam, lo, hi, neg) or (text,) when invalid
    which = rng.choice([("trusted_networks",), ("internal_networks",),
                        ("trusted_networks", "internal_networks"),
                        ("trusted_networks", "internal_networks", "msa_networks"),
                        ("trusted_networks", "msa_networks"), ()])
    for _ in range(rng.randrange(1, 6) if which else 0):
        name = rng.choice(which)
        es = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < 0.12:
                es.append([rng.choice(BAD)])
            else:
                es.append(list(gen_entry(rng, pool4, pool6)))
        lines.append([name, es])
        if rng.random() < 0.08:
            lines.append(["clear_" + name, []])
    if which == () and rng.random() < 0.5:
        lines.append([rng.choice(LISTS[:2]), [[rng.choice(BAD)] for _ in range(2)]])
    # probe addresses: boundaries of the entries and random ones near them
    probes = set()
    for name, es in lines:
        for e in es:
            if len(e) > 1:
                t, fam, lo, hi, neg = e
                top = 2 ** (32 if fam == 4 else 128) - 1
                for a in (lo, hi, lo - 1, hi + 1, rng.randint(lo, hi), (lo + hi) // 2):
                    if 0 <= a <= top:
                        probes.add((fam, a))
    for o in pool4:
        probes.add((4, v4(o)))
    for n in pool6:
        probes.add((6, n))
    for a in ((4, v4((127, 0, 0, 1))), (4, v4((127, 255, 255, 255))), (4, v4((128, 0, 0, 0))),
              (6, 1), (6, 2), (4, v4((126, 255, 255, 255)))):
        probes.add(a)
    probes = sorted(probes)
    chains = []
    for _ in range(4):
        chain = []
        for k in range(rng.randrange(1, 8)):
            fam, a = rng.choice(probes)
            # addresses that a Received parser may read differently are not used as relays
            while (fam == 6 and a < 1 << 64) or a == 0 or (fam == 4 and a >> 24 in (0, 127, 255)):
                fam, a = rng.choice(probes)
            chain.append([fam, a, rng.random() < 0.15])
        chains.append(chain)
    return {"lines": lines, "probes": probes, "chains": chains}


def addr(fam, a):
    return str(ipaddress.IPv4Address(a) if fam == 4 else ipaddress.IPv6Address(a))


class Model(object):
    def __init__(self, lines):
        conf = dict((n, []) for n in LISTS)
        for name, es in lines:
            if name.startswith("clear_"):
                conf[name[6:]] = []
            else:
                conf[name].extend(e for e in es if len(e) > 1)
        loop = [("127/8", 4, 127 << 24, (128 << 24) - 1, False), ("::1", 6, 1, 1, False)]
        t, i, m = (conf[n] for n in LISTS)
        self.trusted = loop + t + i
        self.internal = loop + (i or t)
        self.msa = m
        self.configured = bool(t or i)
        self.msa_only = bool(m) and not self.configured

    @staticmethod
    def member(lst, fam, a):
        for _, f, lo, hi, neg in lst:
            if f == fam and lo <= a <= hi:
                return not neg
        return False

    def partition(self, chain):
        trusted = internal = True
        msa = False
        out = []
        for fam, a, auth in chain:
            in_t = self.member(self.trusted, fam, a)
            in_i = self.member(self.internal, fam, a)
            if trusted and not msa:
                if not in_t and not auth:
                    trusted = internal = False
                else:
                    if internal and not auth and not in_i:
                        internal = False
                    if self.member(self.msa, fam, a):
                        msa = True
            out.append((trusted, internal))
        return out


def raw_message(chain):
    h = []
    for n, (fam, a, auth) in enumerate(chain):
        ip = addr(fam, a)
        h.append("Received: from helo%d.example.org (rdns%d.example.net [%s%s]) by mx%d.example.com "
                 "(Postfix) with ESMTP%s id Q%d for <u@example.com>; Mon, 1 Jan 2018 00:00:0%d +0000" %
                 (n, n, "IPv6:" if fam == 6 else "", ip, n, "SA" if auth else "", n, n))
    h += ["From: a@example.org", "To: b@example.com", "Subject: s", "", "text"]
    return "\n".join(h) + "\n"


def run(case, obs):
    cf = "".join("%s %s\n" % (n, " ".join(e[0] for e in es)) for n, es in case["lines"])
    rs, parser = oah.load(cf)
    model = Model(case["lines"])
    nets = rs.ctxt.networks
    for name, lst in (("trusted", model.trusted), ("internal", model.internal), ("msa", model.msa)):
        if name == "internal" and model.msa_only:
            continue
        for fam, a in case["probes"]:
            ip = ipaddress.ip_address(addr(fam, a))
            got, want = ip in getattr(nets, name), model.member(lst, fam, a)
            obs.count("memberships")
            obs.count("members" if want else "nonmembers")
            obs.expect(bool(got) == want, "member:" + name, "%s in %s_networks is %s, the entries say %s:\n%s",
                       ip, name, got, want, cf)
            inside = [e for e in lst if e[1] == fam and e[2] <= a <= e[3]]
            if len(set(e[4] for e in inside)) > 1:
                obs.count("order_decides")
    obs.expect(bool(nets.configured) == model.configured or model.msa_only, "configured",
               "configured is %s for\n%s", nets.configured, cf)
    for chain in case["chains"]:
        msg = oah.scan(rs, raw_message(chain))
        ips = [addr(f, a) for f, a, _ in chain]

        def ips_of(l):
            return [str(ipaddress.ip_address(str(r["ip"]))) for r in l]
        t, u = ips_of(msg.trusted_relays), ips_of(msg.untrusted_relays)
        i, e = ips_of(msg.internal_relays), ips_of(msg.external_relays)
        obs.count("chains")
        # exactly one of each, in header order, as prefix and rest
        if not obs.expect(t + u == ips, "partition:trusted", "relays %s split into trusted %s and untrusted %s\n%s",
                          ips, t, u, cf):
            continue
        if not obs.expect(i + e == ips, "partition:internal", "relays %s split into internal %s and external %s\n%s",
                          ips, i, e, cf):
            continue
        tags = dict((k, msg.plugin_tags.get("RELAYS" + k)) for k in
                    ("TRUSTED", "UNTRUSTED", "INTERNAL", "EXTERNAL"))
        for k, l in (("TRUSTED", t), ("UNTRUSTED", u), ("INTERNAL", i), ("EXTERNAL", e)):
            got = [str(ipaddress.ip_address(x.split()[0])) for x in str(tags[k]).split("ip=")[1:]]
            obs.expect(got == l, "tag:RELAYS" + k, "tag names relays %s, not %s", got, l)
        if not model.configured:
            obs.count("unconfigured_chains")
            continue
        part = model.partition(chain)
        nt, ni = sum(x for x, _ in part), sum(y for _, y in part)
        obs.expect(len(t) == nt, "trusted-prefix", "%d of the relays %s are trusted, expected %d\n%s",
                   len(t), [(addr(f, a), au) for f, a, au in chain], nt, cf)
        obs.expect(len(i) == ni, "internal-prefix", "%d of the relays %s are internal, expected %d\n%s",
                   len(i), [(addr(f, a), au) for f, a, au in chain], ni, cf)
        obs.count("trusted_relays", nt)
        obs.count("untrusted_relays", len(chain) - nt)
        if ni != nt:
            obs.count("trusted_but_external")
        obs.nontrivial(cf, tuple(map(tuple, chain)))
    obs.sample({"config": cf}, 3)


if __name__ == "__main__":
    core.main("C09", gen, run, (2500, 60000),
              "random lists of valid (CIDR, partial, bracketed, negated, overlapping, IPv4/IPv6) and invalid "
              "entries with clear lines; addresses at and around every boundary; relay chains of 1-7 hops "
              "with and without authentication; distinct by configuration and chain",
              require={"memberships": 20000, "order_decides": 300, "chains": 1000,
                       "trusted_but_external": 20, "trusted_relays": 200, "untrusted_relays": 500})
